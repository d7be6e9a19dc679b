"""Model of small numpy arrays (nested lists of abstract numbers).
Interpreted by tsa.interp, never run."""


def asarray(data, dtype=None):
    if isinstance(data, ndarray):
        return data
    return ndarray(data)


def array(data, dtype=None):
    if isinstance(data, ndarray):
        return ndarray(data._v)
    return ndarray(data)


def ones(shape, dtype=None):
    if isinstance(shape, list):
        shape = tuple(shape)
    if isinstance(shape, tuple):
        if len(shape) == 1:
            return ndarray([1 for i in range(shape[0])])
        return ndarray([ones(shape[1:]) for i in range(shape[0])])
    return ndarray([1 for i in range(shape)])


def searchsorted(arr, x, side="left"):
    """number of leading elements smaller than x (the array is sorted)"""
    n = 0
    for v in arr:
        if side == "left":
            if v < x:
                n = n + 1
        else:
            if v <= x:
                n = n + 1
    return n


def interp(x, xp, fp, left=None, right=None):
    n = searchsorted(xp, x)
    if n == 0:
        if left is None:
            return fp[0]
        if x == xp[0]:
            return fp[0]
        return left
    if n == len(xp):
        if right is None:
            return fp[n - 1]
        return right
    return fp[n - 1] + (x - xp[n - 1]) / (xp[n] - xp[n - 1]) * (fp[n] - fp[n - 1])


def clip(x, lo, hi):
    if lo is not None:
        x = max(lo, x)
    if hi is not None:
        x = min(hi, x)
    return x


def append(arr, values):
    if isinstance(values, (list, tuple, ndarray)):
        return ndarray(list(arr) + list(values))
    return ndarray(list(arr) + [values])


def absolute(arr):
    if isinstance(arr, (ndarray, list)):
        return ndarray([abs(x) for x in arr])
    return abs(arr)


def cumsum(arr):
    out = []
    t = 0
    for x in arr:
        t = t + x
        out.append(t)
    return ndarray(out)


def diff(arr):
    v = list(arr)
    return ndarray([v[i + 1] - v[i] for i in range(len(v) - 1)])


def concatenate(arrs):
    out = []
    for a in arrs:
        out = out + list(a)
    return ndarray(out)


def sort(arr):
    return ndarray(sorted(arr))


def zeros(shape, dtype=None):
    return ones(shape) * 0


class scalar_matrix:
    """a matrix or vector of size one (matrix algebra on one unknown)"""

    def __init__(self, v):
        self._s = v

    def dot(self, other):
        return scalar_matrix(self._s * other._s)

    def __matmul__(self, other):
        return scalar_matrix(self._s * other._s)

    def __neg__(self):
        return scalar_matrix(-self._s)

    def __mul__(self, other):
        return scalar_matrix(self._s * other)

    def __rmul__(self, other):
        return scalar_matrix(self._s * other)

    def copy(self):
        return scalar_matrix(self._s)


class ndarray:
    def __init__(self, data):
        self._v = []
        for x in data:
            if isinstance(x, (list, tuple)):
                self._v.append(ndarray(x))
            elif isinstance(x, ndarray):
                self._v.append(ndarray(x._v))
            else:
                self._v.append(x)

    def __iter__(self):
        return self._v

    def __len__(self):
        return len(self._v)

    def __contains__(self, x):
        return x in self._v

    def __getitem__(self, k):
        r = self._v[k]
        if isinstance(r, list):
            return ndarray(r)
        return r

    def __setitem__(self, k, v):
        self._v[k] = v

    @property
    def shape(self):
        if len(self._v) > 0 and isinstance(self._v[0], ndarray):
            return (len(self._v),) + self._v[0].shape
        return (len(self._v),)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self._v)

    def astype(self, t):
        return ndarray(self._v)

    def copy(self):
        return ndarray([x.copy() if isinstance(x, ndarray) else x for x in self._v])

    def searchsorted(self, x, side="left"):
        return searchsorted(self, x, side)

    def tolist(self):
        return [x.tolist() if isinstance(x, ndarray) else x for x in self._v]

    def sum(self):
        res = 0
        for v in self._v:
            res = res + v
        return res

    def _zip(self, other):
        if isinstance(other, (ndarray, list)):
            return [(a, b) for a, b in zip(self._v, other)]
        return [(a, other) for a in self._v]

    def __add__(self, other):
        return ndarray([a + b for a, b in self._zip(other)])

    def __radd__(self, other):
        return ndarray([b + a for a, b in self._zip(other)])

    def __sub__(self, other):
        return ndarray([a - b for a, b in self._zip(other)])

    def __rsub__(self, other):
        return ndarray([b - a for a, b in self._zip(other)])

    def __mul__(self, other):
        return ndarray([a * b for a, b in self._zip(other)])

    def __rmul__(self, other):
        return ndarray([b * a for a, b in self._zip(other)])

    def __truediv__(self, other):
        return ndarray([a / b for a, b in self._zip(other)])

    def __rtruediv__(self, other):
        return ndarray([b / a for a, b in self._zip(other)])

    def __iadd__(self, other):
        r = self + other
        for i in range(len(self._v)):
            if isinstance(self._v[i], ndarray):
                for j in range(len(self._v[i]._v)):
                    self._v[i]._v[j] = r._v[i]._v[j]
            else:
                self._v[i] = r._v[i]
        return self

    def __isub__(self, other):
        r = self - other
        for i in range(len(self._v)):
            if isinstance(self._v[i], ndarray):
                for j in range(len(self._v[i]._v)):
                    self._v[i]._v[j] = r._v[i]._v[j]
            else:
                self._v[i] = r._v[i]
        return self

    def __imul__(self, other):
        r = self * other
        for i in range(len(self._v)):
            if isinstance(self._v[i], ndarray):
                for j in range(len(self._v[i]._v)):
                    self._v[i]._v[j] = r._v[i]._v[j]
            else:
                self._v[i] = r._v[i]
        return self

    def __itruediv__(self, other):
        r = self / other
        for i in range(len(self._v)):
            if isinstance(self._v[i], ndarray):
                for j in range(len(self._v[i]._v)):
                    self._v[i]._v[j] = r._v[i]._v[j]
            else:
                self._v[i] = r._v[i]
        return self

    def __neg__(self):
        return ndarray([-a for a in self._v])

    def __abs__(self):
        return ndarray([abs(a) for a in self._v])

    def __lt__(self, other):
        return ndarray([a < b for a, b in self._zip(other)])

    def __le__(self, other):
        return ndarray([a <= b for a, b in self._zip(other)])

    def __gt__(self, other):
        return ndarray([a > b for a, b in self._zip(other)])

    def __ge__(self, other):
        return ndarray([a >= b for a, b in self._zip(other)])

    def all(self):
        res = True
        for a in self._v:
            res = res and bool(a)
        return res

    def any(self):
        res = False
        for a in self._v:
            res = res or bool(a)
        return res

    def max(self):
        return max(self._v)

    def min(self):
        return min(self._v)
