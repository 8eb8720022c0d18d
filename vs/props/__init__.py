"""One module per property: ID, MODULES (extension modules executed
symbolically), HARNESSES, FUNCTIONS (what is encoded), BOUNDS (what is not)."""
import importlib
import pkgutil


def module(pid):
    return importlib.import_module(f"vs.props.{pid.lower()}")


def harnesses(pid):
    return {h.name: h for h in module(pid).HARNESSES}


def ids():
    return sorted(m.name.upper() for m in pkgutil.iter_modules(__path__) if m.name.startswith("c") and m.name[1:].isdigit())
