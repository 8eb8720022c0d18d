"""numpy RandomState whose draws are arbitrary (choices of the exploration)."""
import numpy as np

from . import core


class NondetRandomState(np.random.RandomState):
    """Every permutation / subset draw is a nondeterministic choice; integer
    draws used as seeds are irrelevant (the seeded generators are themselves
    modelled as arbitrary)."""

    def __init__(self, *a, **k):
        super().__init__(0)

    def shuffle(self, x):
        n = len(x)
        for i in range(n - 1, 0, -1):
            k = core.P().choice("permute", i + 1)
            if k != i:
                if isinstance(x, np.ndarray) and x.ndim > 1:
                    x[[i, k]] = x[[k, i]]
                else:
                    t = x[i]
                    x[i] = x[k]
                    x[k] = t

    def permutation(self, x):
        a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        self.shuffle(a)
        return a

    def choice(self, a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is not None:
            raise core.Unsupported("weighted choice")
        if size is None:
            return arr[core.P().choice("choice", len(arr))]
        n = int(np.prod(size))
        if replace:
            idx = [core.P().choice("choice", len(arr)) for _ in range(n)]
        else:
            if n > len(arr):
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            left = list(range(len(arr)))
            idx = [left.pop(core.P().choice("choice", len(left))) for _ in range(n)]
        return arr[np.array(idx, dtype=np.int64)].reshape(size)
