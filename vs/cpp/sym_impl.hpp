// Bridge between Sym and the Python exploration engine (vs.core).
#pragma once
namespace vsym_impl {
struct Arena { std::vector<PyObject *> objs; int64_t epoch = -1; };
inline Arena &A() { static Arena a; if (a.objs.empty()) a.objs.push_back(nullptr); return a; }
inline PyObject *&E() { static PyObject *e = nullptr; return e; }
inline int64_t push(PyObject *o) { A().objs.push_back(o); return (int64_t)A().objs.size() - 1; }
// 0xFE... pattern: memory never written (malloc perturbation / auto-var-init)
inline bool is_poison(const Sym &s) { return s.id == (int64_t)0xFEFEFEFEFEFEFEFEull; }
}
inline PyObject *vsym_eng() { return vsym_impl::E(); }
inline PyObject *vsym_call(const char *fn, PyObject *a, PyObject *b = nullptr, PyObject *c = nullptr) {
  static std::map<std::string, PyObject *> cache;
  PyObject *&f = cache[fn];
  if (!f) { f = PyObject_GetAttrString(vsym_impl::E(), fn); if (!f) vsym_throw(); }
  PyObject *r = PyObject_CallFunctionObjArgs(f, a, b, c, nullptr);
  if (!r) vsym_throw();
  return r;
}
inline Sym vsym_wrap(PyObject *o) { // steals
  if (PyFloat_CheckExact(o)) { double d = PyFloat_AS_DOUBLE(o); Py_DECREF(o); return Sym(d); }
  return Sym(0.0, vsym_impl::push(o));
}
inline PyObject *vsym_to_py(const Sym &s) {
  if (s.id == 0) return PyFloat_FromDouble(s.v);
  if (s.id < 0 || s.id >= (int64_t)vsym_impl::A().objs.size()) {
    // never-initialised storage: an arbitrary value
    return vsym_call("cpp_uninit", Py_None);
  }
  PyObject *o = vsym_impl::A().objs[(size_t)s.id]; Py_INCREF(o); return o;
}
inline PyObject *vsym_out(const Sym &s) { PyObject *x = vsym_to_py(s); PyObject *r = vsym_call("cpp_out", x); Py_DECREF(x); return r; }
inline Sym vsym_from_py(PyObject *o, bool &ok) {
  if (PyFloat_CheckExact(o)) return Sym(PyFloat_AS_DOUBLE(o));
  PyObject *r = vsym_call("cpp_coerce", o);
  if (r == Py_None) { Py_DECREF(r); ok = false; return Sym(0); }
  return vsym_wrap(r);
}
inline Sym vsym_bin(const char *op, const Sym &a, const Sym &b) {
  PyObject *x = vsym_to_py(a), *y = vsym_to_py(b);
  std::string n = std::string("cpp_") + op;
  PyObject *r = vsym_call(n.c_str(), x, y); Py_DECREF(x); Py_DECREF(y);
  return vsym_wrap(r);
}
inline Sym vsym_un(const char *op, const Sym &a) {
  PyObject *x = vsym_to_py(a);
  std::string n = std::string("cpp_") + op;
  PyObject *r = vsym_call(n.c_str(), x); Py_DECREF(x);
  return vsym_wrap(r);
}
inline bool vsym_cmp(const char *op, const Sym &a, const Sym &b) {
  PyObject *x = vsym_to_py(a), *y = vsym_to_py(b);
  std::string n = std::string("cpp_") + op;
  PyObject *r = vsym_call(n.c_str(), x, y); Py_DECREF(x); Py_DECREF(y);
  bool v = r == Py_True; Py_DECREF(r);
  return v;
}
inline int64_t vsym_trunc(const Sym &a) {
  PyObject *x = vsym_to_py(a);
  PyObject *r = vsym_call("cpp_to_int", x); Py_DECREF(x);
  long long v = PyLong_AsLongLong(r); Py_DECREF(r);
  return v;
}
inline void vsym_unsupported(const char *what) {
  PyObject *w = PyUnicode_FromString(what); vsym_call("cpp_unsupported", w); vsym_throw();
}
inline int64_t vsym_choice(const char *what, int64_t n) {
  PyObject *w = PyUnicode_FromString(what), *k = PyLong_FromLongLong(n);
  PyObject *r = vsym_call("cpp_choice", w, k); Py_DECREF(w); Py_DECREF(k);
  long long v = PyLong_AsLongLong(r); Py_DECREF(r);
  return v;
}
inline Sym vsym_fresh(const char *what, const Sym &a, const Sym &b) {
  PyObject *w = PyUnicode_FromString(what), *x = vsym_to_py(a), *y = vsym_to_py(b);
  PyObject *r = vsym_call("cpp_fresh", w, x, y); Py_DECREF(w); Py_DECREF(x); Py_DECREF(y);
  return vsym_wrap(r);
}
inline PyObject *vsym_make_array(PyObject *list, PyObject *shape) { return vsym_call("cpp_make_array", list, shape); }
inline PyObject *vsym_sparse_type(const char *name) {
  PyObject *w = PyUnicode_FromString(name); PyObject *r = vsym_call("cpp_sparse_type", w); Py_DECREF(w); return r;
}
inline PyObject *vsym_reset(PyObject *, PyObject *) {
  auto &a = vsym_impl::A();
  for (size_t i = 1; i < a.objs.size(); i++) Py_XDECREF(a.objs[i]);
  a.objs.resize(1);
  vsym_sched::S().tasks.clear(); vsym_sched::S().current = nullptr;
  vsym_sched::S().last = nullptr; vsym_sched::S().preemptions = 0;
  Py_RETURN_NONE;
}
inline void vsym_init(PyObject *m) {
  mallopt(M_PERTURB, 0x01);  // fresh heap memory is filled with 0xFE
  PyObject *e = PyImport_ImportModule("vs.bridge");
  if (!e) vsym_throw();
  vsym_impl::E() = e;
  static PyMethodDef d = {"_vs_reset", vsym_reset, METH_NOARGS, nullptr};
  PyObject *f = PyCFunction_New(&d, nullptr);
  PyObject_SetAttrString(m, "_vs_reset", f);
}
