"""Model of the part of pandas the package uses: labelled tables whose cells
hold arbitrary (abstract) values.  Interpreted by tsa.interp, never run."""
import numpy as np


class Index:
    def __init__(self, items, names=("target_group", "category")):
        self._items = list(items)
        self.names = list(names)

    def __iter__(self):
        return self._items

    def __len__(self):
        return len(self._items)

    def __contains__(self, x):
        if not isinstance(x, tuple):
            for k in self._items:
                if isinstance(k, tuple) and len(k) > 0 and k[0] == x:
                    return True
        return x in self._items

    def __getitem__(self, k):
        if isinstance(k, Series):
            return Index([x for x, m in zip(self._items, list(k._d.values())) if m])
        return self._items[k]

    def get_level_values(self, level):
        n = level
        if isinstance(level, str):
            n = self.names.index(level)
        return Index([k[n] for k in self._items])

    def isin(self, other):
        return _Mask([x in other for x in self._items])

    def intersection(self, other):
        return Index([x for x in self._items if x in other])

    def union(self, other):
        return Index(self._items + [x for x in other if x not in self._items])

    def difference(self, other):
        return Index([x for x in self._items if x not in other])

    def __eq__(self, other):
        return _Mask([x == other for x in self._items])

    def __ne__(self, other):
        return _Mask([x != other for x in self._items])

    def astype(self, t):
        return Index([_to_type(x, t) for x in self._items])

    def tolist(self):
        return list(self._items)

    def to_list(self):
        return list(self._items)

    def unique(self):
        out = []
        for x in self._items:
            if x not in out:
                out.append(x)
        return out

    @property
    def values(self):
        return list(self._items)

    @property
    def empty(self):
        return len(self._items) == 0


def MultiIndex(levels=None, codes=None, names=("target_group", "category")):
    return Index([], names)


class _Slicer:
    def __getitem__(self, k):
        return k


IndexSlice = _Slicer()


class _SLoc:
    def __init__(self, s):
        self._s = s

    def __getitem__(self, k):
        return self._s[k]

    def __setitem__(self, k, v):
        self._s[k] = v


class Series:
    def __init__(self, data=None, index=None, dtype=None, name=None):
        self._d = {}
        self.name = name
        if isinstance(data, dict):
            for k, v in data.items():
                self._d[k] = v
        elif data is not None:
            if index is None:
                index = range(len(data))
            for k, v in zip(index, data):
                self._d[k] = v
        elif index is not None:
            for k in index:
                self._d[k] = np.nan

    def __iter__(self):
        return list(self._d.values())

    def __len__(self):
        return len(self._d)

    def __contains__(self, k):
        return k in self._d

    def __getitem__(self, k):
        if isinstance(k, Series):
            out = Series()
            for x, v in self._d.items():
                if k._d[x]:
                    out._d[x] = v
            return out
        if isinstance(k, (list, Index)):
            out = Series()
            for x in k:
                if x not in self._d:
                    raise KeyError(x)
                out._d[x] = self._d[x]
            return out
        if k not in self._d:
            raise KeyError(k)
        return self._d[k]

    def __setitem__(self, k, v):
        if isinstance(k, Series):
            for x in list(self._d.keys()):
                if k._d[x]:
                    self._d[x] = v
        elif isinstance(k, (list, Index)):
            for x in k:
                self._d[x] = v
        elif isinstance(k, slice):
            for x in list(self._d.keys()):
                self._d[x] = v
        else:
            self._d[k] = v

    @property
    def loc(self):
        return _SLoc(self)

    @property
    def at(self):
        return _SLoc(self)

    @property
    def index(self):
        return Index(list(self._d.keys()))

    @property
    def values(self):
        return _Values(list(self._d.values()))

    @property
    def empty(self):
        return len(self._d) == 0

    def get(self, k, default=None):
        if k in self._d:
            return self._d[k]
        return default

    def keys(self):
        return Index(list(self._d.keys()))

    def items(self):
        return [(k, v) for k, v in self._d.items()]

    def tolist(self):
        return list(self._d.values())

    def to_list(self):
        return list(self._d.values())

    def to_dict(self):
        return dict(self._d)

    def copy(self):
        return Series(self._d)

    def astype(self, t):
        return self

    def unique(self):
        out = []
        for x in self._d.values():
            if x not in out:
                out.append(x)
        return out

    def apply(self, f):
        return Series({k: f(v) for k, v in self._d.items()})

    def map(self, f):
        return Series({k: f(v) for k, v in self._d.items()})

    def isin(self, other):
        return Series({k: v in other for k, v in self._d.items()})

    def any(self):
        res = False
        for v in self._d.values():
            res = res or v
        return res

    def all(self):
        res = True
        for v in self._d.values():
            res = res and v
        return res

    def sum(self):
        res = 0
        for v in self._d.values():
            if not _missing(v):
                res = res + v
        return res

    def abs(self):
        return Series({k: abs(v) for k, v in self._d.items()})

    def sort_values(self):
        keys = sorted(self._d.keys(), key=lambda k: self._d[k])
        out = Series()
        for k in keys:
            out._d[k] = self._d[k]
        return out

    def _zip(self, other):
        if isinstance(other, Series):
            return [(k, v, other._d[k]) for k, v in self._d.items()]
        return [(k, v, other) for k, v in self._d.items()]

    def __eq__(self, other):
        return Series({k: a == b for k, a, b in self._zip(other)})

    def __ne__(self, other):
        return Series({k: a != b for k, a, b in self._zip(other)})

    def __and__(self, other):
        return Series({k: a and b for k, a, b in self._zip(other)})

    def __or__(self, other):
        return Series({k: a or b for k, a, b in self._zip(other)})

    def __invert__(self):
        return Series({k: not v for k, v in self._d.items()})

    def __neg__(self):
        return Series({k: -v for k, v in self._d.items()})

    def __add__(self, other):
        return Series({k: a + b for k, a, b in self._zip(other)})

    def __sub__(self, other):
        return Series({k: a - b for k, a, b in self._zip(other)})

    def __mul__(self, other):
        return Series({k: a * b for k, a, b in self._zip(other)})

    def __truediv__(self, other):
        return Series({k: a / b for k, a, b in self._zip(other)})

    def __radd__(self, other):
        return Series({k: other + v for k, v in self._d.items()})

    def __rmul__(self, other):
        return Series({k: other * v for k, v in self._d.items()})

    def __lt__(self, other):
        return Series({k: a < b for k, a, b in self._zip(other)})

    def __le__(self, other):
        return Series({k: a <= b for k, a, b in self._zip(other)})

    def __gt__(self, other):
        return Series({k: a > b for k, a, b in self._zip(other)})

    def __ge__(self, other):
        return Series({k: a >= b for k, a, b in self._zip(other)})


class _Mask(Series):
    """conditions by position"""

    def __init__(self, items):
        self._d = {}
        n = 0
        for x in items:
            self._d[n] = x
            n += 1

    def __and__(self, other):
        return _Mask([a and b for a, b in zip(list(self._d.values()), list(other._d.values()))])

    def __or__(self, other):
        return _Mask([a or b for a, b in zip(list(self._d.values()), list(other._d.values()))])

    def __invert__(self):
        return _Mask([not a for a in self._d.values()])


class _Values(Series):
    """cells without their labels"""

    def __contains__(self, x):
        return x in list(self._d.values())

    def __getitem__(self, k):
        if isinstance(k, Series):
            return [v for v, m in zip(list(self._d.values()), list(k._d.values())) if m]
        return list(self._d.values())[k]

    def __setitem__(self, k, v):
        raise NotImplementedError


def _partial(r):
    """a key that selects by a part of the levels"""
    if not isinstance(r, tuple):
        return False
    for x in r:
        if isinstance(x, slice):
            return True
    return False


def _matches(k, r):
    for a, b in zip(k, r):
        if not isinstance(b, slice) and a != b:
            return False
    return True


class _Loc:
    def __init__(self, df):
        self._df = df

    def _pick(self, r):
        """labels selected by a row key"""
        d = self._df
        if isinstance(r, slice):
            return list(d._rows.keys())
        if isinstance(r, tuple):
            return [k for k in d._rows if _matches(k, r)]
        if isinstance(r, Series):
            out = []
            masks = list(r._d.values())
            n = 0
            for k in d._rows:
                if masks[n] if k not in r._d else r._d[k]:
                    out.append(k)
                n += 1
            return out
        out = []
        for k in r:
            if k not in d._rows:
                raise KeyError(k)
            out.append(k)
        return out

    def __getitem__(self, key):
        d = self._df
        if isinstance(key, tuple):
            r, c = key
        else:
            r = key
            c = None
        many = isinstance(r, (slice, Series, list, Index, DataFrame)) or _partial(r)
        if not many:
            if r not in d._rows:
                raise KeyError(r)
            row = d._rows[r]
            if c is None or isinstance(c, slice):
                return Series(row)
            if isinstance(c, (list, Index)):
                return Series({k: row[k] for k in c})
            if c not in d._cols:
                raise KeyError(c)
            return row[c]
        keys = self._pick(r)
        if c is None or isinstance(c, (slice, list, Index, Series)):
            out = DataFrame()
            if c is None or isinstance(c, slice):
                out._cols = list(d._cols)
            elif isinstance(c, Series):
                out._cols = [k for k in d._cols if c._d[k]]
            else:
                out._cols = list(c)
            for k in keys:
                out._rows[k] = {x: d._rows[k][x] for x in out._cols}
            return out
        if c not in d._cols:
            raise KeyError(c)
        return Series({k: d._rows[k][c] for k in keys})

    def __setitem__(self, key, value):
        d = self._df
        if isinstance(key, tuple):
            r, c = key
        else:
            r = key
            c = None
        many = isinstance(r, (slice, Series, list, Index)) or _partial(r)
        if many:
            keys = self._pick(r)
        else:
            keys = [r]
        single = not (c is None or isinstance(c, (slice, list, Index)))
        for k in keys:
            if k not in d._rows:
                d._rows[k] = {x: np.nan for x in d._cols}
            if isinstance(value, DataFrame):
                v = Series(value._rows[k])
            elif isinstance(value, Series) and (len(keys) > 1 or (many and single)):
                v = value._d[k]
            else:
                v = value
            if c is None or isinstance(c, (slice, list, Index)):
                if c is None or isinstance(c, slice):
                    cols = list(d._cols)
                else:
                    cols = list(c)
                if isinstance(v, (dict, Series)):
                    for x in cols:
                        if x in v:
                            d._put(k, x, v[x])
                        else:
                            d._put(k, x, np.nan)
                elif isinstance(v, (list, tuple)):
                    if len(v) != len(cols):
                        raise ValueError("cannot set a row with mismatched columns")
                    for x, y in zip(cols, v):
                        d._put(k, x, y)
                else:
                    for x in cols:
                        d._put(k, x, v)
            else:
                d._put(k, c, v)


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None):
        self._rows = {}
        self._cols = []
        if columns is not None:
            self._cols = list(columns)
        if isinstance(data, dict):
            for c, col in data.items():
                if c not in self._cols:
                    self._cols.append(c)
        if index is not None:
            for k in index:
                self._rows[k] = {c: np.nan for c in self._cols}
        elif isinstance(data, dict):
            for c, col in data.items():
                if isinstance(col, (Series, dict)):
                    labels = list(col.keys())
                elif isinstance(col, (list, tuple)):
                    labels = [i for i in range(len(col))]
                else:
                    labels = []
                for k in labels:
                    if k not in self._rows:
                        self._rows[k] = {d: np.nan for d in self._cols}
        if isinstance(data, dict):
            for c, col in data.items():
                self[c] = col
        elif isinstance(data, (list, tuple)):
            n = 0
            if len(self._cols) == 0:
                self._cols = [i for i in range(len(data[0]))]
            if index is None:
                for row in data:
                    self._rows[n] = {}
                    n += 1
            for k, row in zip(list(self._rows.keys()), data):
                for c, v in zip(self._cols, row):
                    self._rows[k][c] = v
        elif data is not None:
            for k in self._rows:
                for c in self._cols:
                    self._rows[k][c] = data

    def _put(self, r, c, v):
        if c not in self._cols:
            self._cols.append(c)
            for k in self._rows:
                self._rows[k][c] = np.nan
        self._rows[r][c] = v

    @property
    def loc(self):
        return _Loc(self)

    @property
    def at(self):
        return _Loc(self)

    @property
    def index(self):
        return Index(list(self._rows.keys()))

    @index.setter
    def index(self, new):
        keys = list(new)
        rows = list(self._rows.values())
        self._rows = {}
        for k, row in zip(keys, rows):
            self._rows[k] = row

    @property
    def columns(self):
        return Index(self._cols)

    @property
    def empty(self):
        return len(self._rows) == 0 or len(self._cols) == 0

    @property
    def values(self):
        return [list(r.values()) for r in self._rows.values()]

    def __len__(self):
        return len(self._rows)

    def __contains__(self, c):
        return c in self._cols

    def __iter__(self):
        return list(self._cols)

    def __getitem__(self, key):
        if isinstance(key, Series):
            return self.loc[key]
        if isinstance(key, (list, Index)):
            return self.loc[:, key]
        if key not in self._cols:
            raise KeyError(key)
        return Series({k: r[key] for k, r in self._rows.items()})

    def __setitem__(self, key, value):
        if key not in self._cols:
            self._cols.append(key)
            for k in self._rows:
                self._rows[k][key] = np.nan
        if isinstance(value, (Series, dict)):
            for k in self._rows:
                if k in value:
                    self._rows[k][key] = value[k]
                else:
                    self._rows[k][key] = np.nan
        elif isinstance(value, (list, tuple)):
            for k, v in zip(list(self._rows.keys()), value):
                self._rows[k][key] = v
        else:
            for k in self._rows:
                self._rows[k][key] = value

    def astype(self, t):
        return self

    def copy(self):
        out = DataFrame()
        out._cols = list(self._cols)
        for k, r in self._rows.items():
            out._rows[k] = dict(r)
        return out

    def drop(self, labels, axis=0, inplace=False, errors='raise'):
        if not isinstance(labels, (list, Index)):
            labels = [labels]
        d = self
        if not inplace:
            d = self.copy()
        for k in labels:
            if axis == 0:
                if k in d._rows:
                    del d._rows[k]
                elif errors == 'raise':
                    raise KeyError(k)
            else:
                if k in d._cols:
                    d._cols.remove(k)
                elif errors == 'raise':
                    raise KeyError(k)
        if not inplace:
            return d

    def set_index(self, keys, inplace=False, drop=True):
        d = self
        if not inplace:
            d = self.copy()
        rows = {}
        for r in list(d._rows.values()):
            if isinstance(keys, (list, tuple)):
                k = tuple([r[c] for c in keys])
                names = list(keys)
            else:
                k = r[keys]
                names = [keys]
            rows[k] = {c: v for c, v in r.items() if c not in names}
        d._rows = rows
        d._cols = [c for c in d._cols if c not in names]
        if not inplace:
            return d

    def __lt__(self, other):
        return self._op(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._op(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._op(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._op(other, lambda a, b: a >= b)

    def all(self, axis=0):
        if axis == 0 or axis == 'index':
            return Series({c: self[c].all() for c in self._cols})
        return Series({k: Series(r).all() for k, r in self._rows.items()})

    def any(self, axis=0):
        if axis == 0 or axis == 'index':
            return Series({c: self[c].any() for c in self._cols})
        return Series({k: Series(r).any() for k, r in self._rows.items()})

    def duplicated(self, subset=None):
        out = Series()
        seen = []
        for k, r in self._rows.items():
            t = tuple(r[c] for c in (subset or self._cols))
            out._d[k] = t in seen
            seen.append(t)
        return out

    def __eq__(self, other):
        return DataFrame({c: self[c] == other for c in self._cols})

    def __ne__(self, other):
        return DataFrame({c: self[c] != other for c in self._cols})

    def _op(self, other, f):
        out = DataFrame()
        out._cols = list(self._cols)
        n = 0
        if isinstance(other, (list, tuple)) and (len(other) != len(self._rows) and len(other) != 1):
            raise ValueError("Unable to coerce to DataFrame")
        for k, r in self._rows.items():
            if isinstance(other, DataFrame):
                if k not in other._rows:
                    raise NotImplementedError
                out._rows[k] = {c: f(r[c], other._rows[k][c]) for c in self._cols}
            elif isinstance(other, _Values):
                cells = list(other._d.values())
                out._rows[k] = {c: f(r[c], v) for c, v in zip(self._cols, cells)}
            elif isinstance(other, Series):
                out._rows[k] = {c: f(r[c], other._d[c]) for c in self._cols}
            elif isinstance(other, (list, tuple)):
                row = other[n] if len(other) == len(self._rows) else other[0]
                out._rows[k] = {c: f(r[c], v) for c, v in zip(self._cols, row)}
            else:
                out._rows[k] = {c: f(r[c], other) for c in self._cols}
            n += 1
        return out

    def __add__(self, other):
        return self._op(other, lambda a, b: a + b)

    def __sub__(self, other):
        return self._op(other, lambda a, b: a - b)

    def __mul__(self, other):
        return self._op(other, lambda a, b: a * b)

    def __truediv__(self, other):
        return self._op(other, lambda a, b: a / b)

    def abs(self):
        return self._op(0, lambda a, b: abs(a))

    def add(self, other, fill_value=None):
        out = self.copy()
        for k, r in other._rows.items():
            if k not in out._rows:
                if fill_value is None:
                    raise NotImplementedError
                out._rows[k] = {c: fill_value for c in out._cols}
            for c in out._cols:
                out._rows[k][c] = out._rows[k][c] + r[c]
        return out

    def sum(self, axis=0):
        if axis == 0 or axis == 'index':
            return Series({c: self[c].sum() for c in self._cols})
        return Series({k: Series(r).sum() for k, r in self._rows.items()})

    def to_dict(self, orient='dict'):
        if orient == 'index':
            return {k: dict(r) for k, r in self._rows.items()}
        return {c: self[c].to_dict() for c in self._cols}

    def iterrows(self):
        return [(k, Series(r)) for k, r in self._rows.items()]

    def apply(self, f, axis=0, args=()):
        return Series({k: f(Series(r), *args) for k, r in self._rows.items()})

    def to_csv(self, path, **kwargs):
        _write_table(path, self.copy())


def read_csv(path, **kwargs):
    df = _read_table(path).copy()
    keys = list(df._rows.keys())
    if _numeric_text(keys):
        df._rows = {_to_number(k): r for k, r in df._rows.items()}
    return df


def _numeric_text(labels):
    """every label reads as a number"""
    return False


def _to_type(label, t):
    return label


def _to_number(label):
    return label


def _missing(v):
    """the value is certainly nan"""
    return False


def _write_table(path, df):
    raise NotImplementedError


def _read_table(path):
    raise NotImplementedError
