"""Small programs over the language constructs the interpreter models; the
self test compares the abstract interpretation with Python's own result."""
import copy
import functools
import itertools
import operator
from collections import OrderedDict, defaultdict, deque, Counter
from collections.abc import Mapping
from copy import deepcopy


class Base:
    kind = 'base'
    shared = []

    def __init__(self, a, b=2, *rest, **opts):
        self.a = a
        self.b = b
        self.rest = rest
        self.opts = opts

    def total(self):
        return self.a + self.b

    @property
    def double(self):
        return 2 * self.a

    @double.setter
    def double(self, v):
        self.a = v / 2

    @staticmethod
    def st(x):
        return x + 1

    @classmethod
    def make(cls, x):
        return cls(x, 10)

    def __eq__(self, other):
        return isinstance(other, Base) and self.a == other.a

    def __hash__(self):
        return hash(self.a)

    def __len__(self):
        return 3

    def __contains__(self, x):
        return x == self.a

    def __iter__(self):
        yield self.a
        yield self.b

    def __getitem__(self, k):
        return (k, self.a)


class Sub(Base):
    kind = 'sub'

    def __init__(self, a, **kw):
        super().__init__(a, **kw)
        self.extra = 5

    def total(self):
        return super().total() * 100


def s_isdisjoint():
    a = {1, 2}
    return [a.isdisjoint([3]), a.isdisjoint({2}), a.issubset({1, 2, 3}), a.issuperset([1]), a <= {1, 2}, a < {1, 2}, a >= {1}, a > {1}]


def s_setops():
    a, b = {1, 2, 3}, {3, 4}
    return [sorted(a | b), sorted(a & b), sorted(a - b), sorted(a ^ b), sorted(a.union(b, [9])), sorted(a.symmetric_difference(b)), sorted(a.difference(b, {1}))]


def s_set_mut():
    a = {1, 2, 3}
    a |= {5}
    a -= {1}
    a.discard(99)
    a.difference_update([2])
    a.update([7], {8})
    a.intersection_update({3, 5, 7})
    n = len(a)
    a.clear()
    return [n, len(a), bool(a), bool({1})]


def s_set_pop():
    a = {'x'}
    y = a.pop()
    return [y, len(a)]


def s_set_eq():
    return [{1, 2} == {2, 1}, {1} == {1, 2}, {1} != {2}, set() == set(), frozenset([1]) == {1}]


def s_set_remove_missing():
    a = {1}
    try:
        a.remove(2)
    except KeyError:
        return 'missing'
    return 'no'


def s_dict_basic():
    d = {'a': 1}
    d.setdefault('a', 5)
    d.setdefault('b', 6)
    d['c'] = d.pop('a')
    v = d.pop('zz', 42)
    return [d, v, list(d), d.get('q'), d.get('q', 3), 'b' in d, 'a' not in d]


def s_dict_pop_missing():
    try:
        {}.pop('a')
    except KeyError:
        return 'missing'
    return 'no'


def s_dict_order():
    d = {'a': 1, 'b': 2}
    del d['a']
    d['a'] = 3
    return [list(d.items()), list(reversed(list(d)))]


def s_dict_merge():
    a, b = {'x': 1, 'y': 2}, {'y': 3, 'z': 4}
    c = {**a, **b}
    e = a | b
    a |= b
    return [c, e, a, dict(a, w=1), dict([('p', 1)]), dict(zip('ab', [1, 2]))]


def s_dict_views():
    a, b = {'x': 1, 'y': 2}, {'y': 3}
    return [sorted(a.keys() - b.keys()), sorted(a.keys() & b.keys()), sorted(a.keys() | b.keys()), sum(a.values()), a.keys() == {'x', 'y'}, list(a.items())[0]]


def s_dict_comp():
    d = {k: v for k, v in [('a', 1), ('b', 2), ('c', 3)] if v > 1}
    e = {v: k for k, v in d.items()}
    return [d, e, {len(k) for k in d}, dict.fromkeys(['a', 'b'], 0)]


def s_dict_eq():
    return [{'a': 1} == {'a': 1}, {'a': 1} != {'a': 2}, {'a': 1, 'b': 2} == {'b': 2, 'a': 1}, {} == {}]


def s_popitem():
    d = {'a': 1, 'b': 2}
    k, v = d.popitem()
    return [k, v, d]


def s_list_ops():
    a = [3, 1, 2]
    a.append(5)
    a.extend([7, 8])
    a.insert(0, 9)
    a.remove(1)
    x = a.pop()
    y = a.pop(0)
    a.reverse()
    b = a[:]
    b.sort()
    return [a, b, x, y, a.index(5), a.count(2), a[-1], a[1:3], a[::-1], a[::2], [0] * 3, a + [1], len(a), sum(a), min(a), max(a)]


def s_list_sort():
    a = [('b', 2), ('a', 2), ('c', 1)]
    a.sort(key=lambda t: t[1])
    b = sorted(a, key=lambda t: t[0], reverse=True)
    return [a, b, sorted([3, 1, 2], reverse=True), sorted(['b', 'a']), sorted({'z': 1, 'y': 2}), sorted([(1, 'b'), (1, 'a')]), min(a, key=lambda t: t[0]), max(a, key=lambda t: t[1])]


def s_list_del():
    a = [1, 2, 3, 4, 5]
    del a[0]
    del a[1:3]
    a[0] = 10
    return a


def s_slice_assign():
    a = [1, 2, 3, 4]
    a[1:3] = [9, 9, 9]
    b = [0] * 5
    b[1:3] = [1, 2]
    return [a, b]


def s_slice_obj():
    a = [1, 2, 3, 4]
    s = slice(1, 3)
    return [a[s], a[-2:]]


def s_tuple():
    a, *b = (1, 2, 3)
    *c, d = [1, 2, 3]
    e, (f, g) = 1, (2, 3)
    a, d = d, a
    return [a, b, c, d, e, f, g, (1, 2) + (3,), (1, 2) < (1, 3), 2 in (1, 2), tuple([1]), len((1, 2))]


def s_star():
    def f(*args, **kw):
        return [list(args), kw]
    x = [1, 2]
    return [f(*x, 3, k=1, **{'z': 2}), [*x, *[5]], (*x,), {*x}]


def s_default_args():
    def f(a, b=2, *, c=3):
        return a * 100 + b * 10 + c
    return [f(1), f(1, 5), f(1, c=9), f(b=1, a=2)]


def s_closure():
    fs = []
    for i in range(3):
        fs.append(lambda x, i=i: x + i)
    n = 5

    def g():
        return n
    n = 6
    return [[f(10) for f in fs], g()]


def s_nonlocal():
    c = 0

    def inc():
        nonlocal c
        c += 1
        return c
    inc()
    inc()
    return c


def s_generator():
    def g(n):
        for i in range(n):
            if i == 2:
                continue
            yield i
    return [list(g(5)), sum(g(4)), next(g(3)), next(iter([]), 'none'), any(x > 2 for x in g(5)), all(x < 2 for x in g(5))]


def s_yield_from():
    def g():
        yield 1
        yield from [2, 3]
    return list(g())


def s_enumerate():
    out = []
    for i, (a, b) in enumerate(zip([1, 2], ['x', 'y']), start=1):
        out.append((i, a, b))
    return [out, list(zip([1, 2, 3], [4, 5])), list(map(lambda x: x * 2, [1, 2])), list(filter(None, [0, 1, 2])), list(filter(lambda x: x > 1, [1, 2]))]


def s_range():
    return [list(range(3)), list(range(1, 7, 2)), list(range(5, 0, -2)), len(range(4)), 3 in range(4), list(reversed(range(3)))]


def s_while_else():
    i = 0
    while i < 5:
        i += 1
        if i == 3:
            break
    else:
        i = 100
    j = 0
    while j < 2:
        j += 1
    else:
        j = 100
    return [i, j]


def s_for_else():
    out = []
    for x in [1, 2, 3]:
        if x == 2:
            break
        out.append(x)
    else:
        out.append('end')
    for x in []:
        pass
    else:
        out.append('else')
    return out


def s_try():
    out = []

    def f(x):
        try:
            if x == 0:
                raise ValueError('a')
            if x == 1:
                return {}['k']
            if x == 2:
                return [1][5]
            out.append('body')
        except ValueError as e:
            out.append('V')
        except (KeyError, IndexError):
            out.append('KI')
            return 'r'
        else:
            out.append('else')
        finally:
            out.append('fin')
        return 'end'
    return [[f(i) for i in range(4)], out]


def s_raise_reraise():
    def f():
        try:
            raise KeyError('a')
        except KeyError:
            raise TypeError('b')
    try:
        f()
    except TypeError:
        return 'T'
    except KeyError:
        return 'K'


def s_finally_return():
    def f():
        for i in range(3):
            try:
                continue
            finally:
                if i == 1:
                    break
        return i
    return f()


def s_with():
    class C:
        def __enter__(self):
            return 5

        def __exit__(self, *a):
            return False
    with C() as c:
        x = c
    return x


def s_ifexp():
    f = lambda x: 'neg' if x < 0 else 'zero' if x == 0 else 'pos'
    return [f(-1), f(0), f(2), 1 if [] else 2, None or 5, 0 and 3, [] or 'd', 3 and 4, not 0, not []]


def s_chain_cmp():
    f = lambda x: 0 < x <= 2 < 5
    return [f(0), f(1), f(2), f(3), 1 < 2 < 3, 1 == 1.0, 'a' < 'b', None is None, 1 != 2]


def s_walrus():
    out = []
    if (n := len([1, 2])) > 1:
        out.append(n)
    return out + [y for x in [1, 2, 3] if (y := x * 2) > 2]


def s_str():
    s = 'abc_def'
    return [s.split('_'), s.replace('a', 'x'), s.upper(), s[0], s[-3:], s.startswith('ab'), s.endswith('f'), 'c_' in s, '-'.join(['a', 'b']), s.find('z'), len(s), s.title(), ' a '.strip(), 'a,b'.partition(','),
            s + '!', 'ab' * 2, s.isdigit(), '12'.isdigit(), s.count('_'), s.rsplit('_', 1), s.capitalize(), s[::-1], 'xa'.lstrip('x'), 'ax'.rstrip('x'), 'T_ref'.removesuffix('_ref'), 'a_b'.index('_')]


def s_format():
    a, b = 'x', 3
    return [f'{a}_{b}', '{}-{}'.format(a, b), '%s:%d' % (a, b), '{k}'.format(k=a), f'{a!s}', str(3), str('a'), '{0}{0}'.format(a)]


def s_num():
    return [7 // 2, 7 % 3, -7 // 2, -7 % 3, 2 ** 3, abs(-2), round(2.6), int(3.7), float(2), divmod(7, 2), pow(2, 3), 1e3, -3 + 1, bool(3), int('5'), sum([1, 2], 10), max(1, 5, 2), min([4, 2])]


def s_none():
    x = None
    return [x is None, x is not None, x == None, isinstance(x, int), x or 1]


def s_isinstance():
    b, s = Base(1), Sub(2)
    return [isinstance(b, Base), isinstance(s, Base), isinstance(b, Sub), isinstance(1, (int, str)), isinstance('a', str), isinstance({}, dict), isinstance({}, Mapping), isinstance([], (list, tuple)), issubclass(Sub, Base),
            isinstance(True, bool), isinstance(1.5, float), isinstance(1, bool), type(s) is Sub, type(s).__name__, s.__class__.__name__, isinstance((), tuple), isinstance(set(), set), callable(b.total), callable(1)]


def s_class():
    b, s = Base(1, 3, 4, k=5), Sub(2)
    b.double = 10
    return [b.total(), s.total(), b.a, b.double, Base.st(1), s.st(4), Base.make(7).b, Sub.kind, s.kind, b.kind, list(b.rest), b.opts, s.extra]


def s_class_attr():
    b = Base(1)
    b.kind = 'mine'
    c = Base(1)
    Base.shared.append(1)
    r = [b.kind, c.kind, len(c.shared)]
    Base.shared.clear()
    return r


def s_dunder():
    b = Base(1)
    return [len(b), 1 in b, 5 in b, list(b), b[7], b == Base(1), b == Base(2), b != Base(2), b in [Base(1)], b in [Base(3)], [Base(2), Base(1)].index(b)]


def s_getattr():
    b = Base(1)
    setattr(b, 'z', 9)
    r = [getattr(b, 'z'), getattr(b, 'q', 'd'), hasattr(b, 'z'), hasattr(b, 'zz'), getattr(b, 'total')(), b.__dict__['a'], 'z' in b.__dict__, sorted(vars(b))]
    delattr(b, 'z')
    b.w = 1
    del b.w
    return r + [hasattr(b, 'z'), hasattr(b, 'w')]


def s_dict_update_obj():
    b = Base(1)
    b.__dict__.update({'p': 5, 'q': 6})
    return [b.p, b.q]


def s_getattr_error():
    try:
        Base(1).nothing
    except AttributeError:
        return 'A'


def s_copy():
    a = {'x': [1], 'y': {'z': 1}}
    b = copy.copy(a)
    c = deepcopy(a)
    d = a.copy()
    b['x'].append(2)
    d['y']['z'] = 5
    b['n'] = 1
    return [a, c, b, d]


def s_alias():
    a = [1]
    b = a
    b += [2]
    c = a + [3]
    d = [a] * 2
    d[0].append(9)
    return [a, b, c, a is b, a is c, a == b, d]


def s_mutable_default():
    def f(x, acc=[]):
        acc.append(x)
        return list(acc)
    return [f(1), f(2)]


def s_defaultdict():
    d = defaultdict(list)
    d['a'].append(1)
    d['a'].append(2)
    e = defaultdict(int)
    e['x'] += 1
    return [dict(d), dict(e), 'q' in d]


def s_functools():
    f = functools.partial(lambda a, b: a - b, 10)
    return [f(3), functools.reduce(lambda x, y: x * y, [1, 2, 3, 4]), functools.reduce(operator.add, [1, 2], 10)]


def s_itertools():
    return [list(itertools.chain([1], [2, 3])), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.product([1, 2], ['a'])), list(itertools.combinations([1, 2, 3], 2)), list(itertools.accumulate([1, 2, 3]))]


def s_operator():
    return [operator.itemgetter(1)([5, 6]), operator.attrgetter('a')(Base(4)), operator.mul(2, 3), list(map(operator.itemgetter('k'), [{'k': 1}]))]


def s_deque():
    q = deque([1, 2])
    q.append(3)
    q.appendleft(0)
    x = q.popleft()
    return [x, list(q), q.pop(), len(q)]


def s_counter():
    c = Counter(['a', 'b', 'a'])
    return [c['a'], c['z'], sorted(c)]


def s_nested_comp():
    return [[x * y for x in [1, 2] for y in [3, 4] if x != y - 2], [[j for j in range(i)] for i in range(3)], {i: [j for j in range(i)] for i in range(2)}, [(a, b) for a, b in {'x': 1}.items()]]


def s_recursion():
    def fact(n):
        return 1 if n < 2 else n * fact(n - 1)

    def flat(x):
        out = []
        for i in x:
            if isinstance(i, list):
                out += flat(i)
            else:
                out.append(i)
        return out
    return [fact(5), flat([1, [2, [3]], 4])]


def s_early_return():
    def f(d):
        for k, v in d.items():
            for x in v:
                if x == 3:
                    return k
        return None
    return [f({'a': [1], 'b': [2, 3], 'c': [3]}), f({})]


def s_next_gen():
    xs = [1, 5, 8]
    return [next(x for x in xs if x > 3), next((x for x in xs if x > 9), None), next((i for i, x in enumerate(xs) if x == 8))]


def s_assert():
    try:
        assert 1 == 2, 'no'
    except AssertionError:
        return 'A'


def s_global_const():
    return [GLOBAL['k'], len(GLOBAL)]


GLOBAL = {'k': [1, 2]}


def s_unpack_dict_loop():
    data = {'a': {'x': 1, 'y': 2}, 'b': {'x': 3, 'y': 4}}
    return [sum(v['x'] for v in data.values()), {k: v['y'] for k, v in data.items()}, [k for k in data if data[k]['x'] > 1], max(data, key=lambda k: data[k]['x'])]


def s_list_remove_iter():
    a = [1, 2, 3, 4]
    for x in list(a):
        if x % 2 == 0:
            a.remove(x)
    return a


def s_swap_index():
    a = [1, 2, 3]
    a[0], a[2] = a[2], a[0]
    a[-1] += 5
    return a


def s_matrix():
    m = [[0] * 2 for _ in range(2)]
    m[0][1] = 5
    return [m, [list(r) for r in zip(*m)], [x for r in m for x in r]]


def s_bool_arith():
    n = 0
    for b in [True, False, True]:
        n += b
    return [n, True + True, sum(x > 1 for x in [1, 2, 3]), True and 'x', [1, 2][True]]


def s_is_in_types():
    return [type(1) == int, type('a') in (str, list), type([]) is list, type({}) == dict]


def s_del_var():
    a = 1
    del a
    try:
        return a
    except NameError:
        return 'N'


def s_lambda_dispatch():
    table = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b}
    return [table['add'](1, 2), table.get('mul', lambda a, b: a * b)(3, 4), [f(5, 1) for f in table.values()]]


def s_method_dispatch():
    b = Base(1)
    calls = {'t': b.total, 's': Base.st}
    return [calls['t'](), calls['s'](4), [getattr(b, n)() for n in ['total']]]


def s_str_iter():
    return [list('abc'), [c for c in 'ab'], 'b' in 'abc', sorted('cab'), {c: i for i, c in enumerate('ab')}, ''.join(reversed('abc'))]


def s_setcomp_cond():
    xs = {'a': True, 'b': False, 'c': True}
    return [sorted(k for k, v in xs.items() if v), len({v for v in xs.values()}), any(xs.values()), all(xs.values())]


def s_try_loop():
    T, n = 10, 0
    while True:
        try:
            if T > 7:
                raise ValueError
            break
        except ValueError:
            T -= 1
            n += 1
            if n > 50:
                raise
    return [T, n]


def s_continue_dict():
    out = {}
    for k, v in {'a': 1, 'b': None, 'c': 3}.items():
        if v is None:
            continue
        out[k] = v
    return out


def s_tuple_keys():
    d = {('a', 1): 5}
    d['a', 2] = 6
    d[('a', 1)] += 1
    return [d, ('a', 2) in d, [k[1] for k in d]]


def s_int_keys():
    d = {1: 'a', 2: 'b'}
    d[len(d) + 1] = 'c'
    return [d, 3 in d, d[1], max(d)]


def s_nested_functions():
    def outer(x):
        def inner(y):
            return x + y
        return inner
    return outer(1)(2)


def s_property_chain():
    s = Sub(1, b=4)
    s.child = Base(7)
    s.child.double = 20
    return [s.child.a, s.b, s.child.total()]


def s_pos_only():
    def f(a, /, b, *, c=1):
        return [a, b, c]
    return f(1, b=2, c=3)


def s_ellipsis_multi():
    a = b = [1]
    b.append(2)
    x = y = 0
    x += 1
    return [a, x, y]


def s_list_compare():
    return [[1, 2] == [1, 2], [1] == (1,), [1, 2] < [1, 3], [] == [], [1] != [2], None in [None], 1 in [True], [[1]] == [[1]]]


def s_zip_longest():
    return [list(itertools.zip_longest([1, 2], [3])), list(itertools.islice(range(10), 3)), list(itertools.repeat(1, 2))]


def s_match():
    def f(x):
        match x:
            case 'a' | 'b':
                return 1
            case 'c':
                return 2
            case _:
                return 3
    return [f('a'), f('b'), f('c'), f('d')]


def s_ordered():
    d = OrderedDict()
    d['b'] = 1
    d['a'] = 2
    return list(d)


def s_try_else_finally_order():
    log = []
    try:
        log.append(1)
    except Exception:
        log.append(2)
    else:
        log.append(3)
    finally:
        log.append(4)
    return log


def s_inst_dict_items():
    b = Base(1)
    return sorted(k for k, v in b.__dict__.items() if v == 1 or v == 2)


def s_kwargs_pass():
    def g(**kw):
        return kw

    def f(a, **kw):
        kw.setdefault('z', 1)
        kw.pop('q', None)
        return g(a=a, **kw)
    return f(1, q=2, w=3)


def s_aug_attr():
    b = Base([1])
    b.a += [2]
    c = Base(1)
    c.a *= 5
    c.b -= 1
    return [b.a, c.a, c.b]


def s_sum_lists():
    return [sum([[1], [2, 3]], []), sum((x for x in [1, 2]), 5)]


def s_list_mul():
    return [[1, 2] * 2, 2 * [0], (0,) * 2, 'a' * 3]
