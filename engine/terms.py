"""Value terms of the abstract domain (value numbering) and their normal forms.

A term is a tuple whose head is a string.  Containers are functional values: a
list is a normal-form concatenation of segments, sets and maps are insertion
chains over an opaque base.  The constructors below rewrite to a normal form,
so two pieces of code that build the same value in different ways get the same
term.  Formulas are ('b', bool), ('not', f), ('and', f, g), ('or', f, g) or an
atom (any other boolean-valued term)."""
from functools import lru_cache

TRUE = ('b', True)
FALSE = ('b', False)
UNIT = ('unit',)
NIL = ('L', ())
EMPTYSET = ('nilset',)
EMPTYMAP = ('nilmap',)
INF = ('inf',)


def I(n):
    return ('i', n)


def B(v):
    return TRUE if v else FALSE


def tup(*xs):
    return ('agg', 'tuple', 0, tuple(xs))


def some(x):
    return ('agg', 'Option', 1, (x,))


NONE = ('agg', 'Option', 0, ())


def ok(x):
    return ('agg', 'Result', 0, (x,))


def err(x):
    return ('agg', 'Result', 1, (x,))


# ------------------------------------------------------------------ formulas
FORMS = ('b', 'not', 'and', 'or', 'eq', 'pos', 'isempty', 'has', 'hasnode', 'adj', 'edged', 'isvar', 'odd', 'ovf', 'haspair', 'geq', 'mark', 'marke', 'infor', 'all')


def f_not(f):
    if f[0] == 'b':
        return B(not f[1])
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def f_and(*fs):
    out = TRUE
    for f in reversed(fs):
        if f == FALSE or out == FALSE:
            out = FALSE
        elif f == TRUE:
            pass
        elif out == TRUE:
            out = f
        elif f != out:
            out = ('and', f, out)
    return out


def f_or(*fs):
    out = FALSE
    for f in reversed(fs):
        if f == TRUE or out == TRUE:
            out = TRUE
        elif f == FALSE:
            pass
        elif out == FALSE:
            out = f
        elif f != out:
            out = ('or', f, out)
    return out


# ---------------------------------------------------------------- arithmetic
def _lin(t):
    """term -> (const, {term: coef})"""
    if t[0] == 'i':
        return t[1], {}
    if t[0] == 'sum':
        return t[1], dict(t[2])
    return 0, {t: 1}


def _mk(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('i', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('sum', c, tuple(sorted(d.items(), key=repr)))


def add(a, b):
    if a == INF or b == INF:
        return INF
    ca, da = _lin(a)
    cb, db = _lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return _mk(ca + cb, da)


def scale(a, n):
    if a == INF:
        return INF
    c, d = _lin(a)
    return _mk(c * n, {k: v * n for k, v in d.items()})


def sub(a, b):
    if a == INF:
        return INF
    return add(a, scale(b, -1))


def is_int(t):
    return t[0] == 'i'


def pos(t):
    """formula: integer term t > 0"""
    if t == INF:
        return TRUE
    c, d = _lin(t)
    if not d:
        return B(c > 0)
    if all(v > 0 for v in d.values()) and c > 0:
        return TRUE
    if all(v < 0 for v in d.values()) and c <= 0:
        return FALSE
    items = sorted(d.items(), key=repr)
    if c == 0 and len(items) == 1 and items[0][0][0] == 'len' and items[0][1] > 0:
        return f_not(isempty(items[0][0][1]))
    if c == 1 and len(items) == 1 and items[0][0][0] == 'len' and items[0][1] == -1:
        return isempty(items[0][0][1])
    if c == -1 and len(items) == 1 and items[0][1] == 1:
        f = another(items[0][0])
        if f is not None:
            return f
    if items[0][1] > 0:
        return ('pos', c, tuple(items))
    # t > 0  <=>  not (1 - t > 0)
    neg = tuple((k, -v) for k, v in items)
    if 1 - c == 0 and len(neg) == 1 and neg[0][0][0] == 'len':
        return isempty(neg[0][0][1])
    return ('not', ('pos', 1 - c, neg))


def equals(l):
    """the list and the value whose equals a filter keeps"""
    if l[0] != 'fmap' or l[1][0] == 'enum':
        return None
    _, d, bv, cases = l
    kept = [c for c, r in cases if len(r) == 1 and r[0][0] != 'spread']
    if len(cases) != 2 or len(kept) != 1 or len(kept[0]) != 1 or sum(not r for _, r in cases) != 1:
        return None
    f, v = kept[0][0]
    if f[0] != 'eq' or not v or bv not in (f[1], f[2]):
        return None
    x = f[2] if f[1] == bv else f[1]
    return None if bv in subterms(x) else (d, x)


def another(t):
    """formula: t, the number of elements of a list equal to the one at i, is
    more than one (one is before or after it)"""
    r = equals(t[1]) if t[0] == 'len' else None
    if r is None or r[1][0] != 'at':
        return None
    d, x = r
    l, i = x[1], x[2]
    after = has(slice_(l, add(i, I(1)), length(l)), x)
    if d == l:
        return f_or(has(slice_(l, I(0), i), x), after)
    if d[0] == 'slice' and d[1] == l and d[2] == i and d[3] == length(l):
        return after
    return None


def lt(a, b):
    if a == INF:
        return FALSE
    return pos(sub(b, a))


def le(a, b):
    return f_not(lt(b, a))


def half(t):
    """t / 2, rounded down"""
    if t == INF:
        return INF
    c, d = _lin(t)
    whole = {k: v // 2 for k, v in d.items() if v // 2}
    rest = {k: v % 2 for k, v in d.items() if v % 2}
    if not rest:
        return _mk(c // 2, whole)
    return add(_mk(c // 2, whole), ('half', _mk(c % 2, rest)))


def odd(t):
    c, d = _lin(t)
    d = {k: 1 for k, v in d.items() if v % 2}
    c %= 2
    if not d:
        return B(c == 1)
    # parity of each opaque part is a separate atom only when alone
    f = ('odd', tuple(sorted(d, key=repr)))
    return f_not(f) if c else f


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == 'b' or b[0] == 'b':
        if a[0] == 'b' and b[0] == 'b':
            return B(a[1] == b[1])
        if b[0] == 'b':
            a, b = b, a
        return b if a[1] else f_not(b)
    if a[0] == 'agg' and b[0] == 'agg':
        if a[1] != b[1] or a[2] != b[2] or len(a[3]) != len(b[3]):
            return FALSE
        return f_and(*[eq(x, y) for x, y in zip(a[3], b[3])])
    if a[0] == 'agg' or b[0] == 'agg':
        if b[0] == 'agg':
            a, b = b, a
        if a[1] == 'tuple':
            return f_and(*[eq(x, fld(b, i)) for i, x in enumerate(a[3])])
        return f_and(isvar(b, a[1], a[2]), *[eq(x, vfld(b, a[2], i)) for i, x in enumerate(a[3])])
    if a[0] == 'ix' and b[0] == 'ix' and a[1] == b[1]:
        return eq(a[2], b[2])
    if a[0] == 'discr' and b[0] == 'i' or b[0] == 'discr' and a[0] == 'i':
        if b[0] == 'discr':
            a, b = b, a
        if len(a) > 2:
            if b[1] < 0 or b[1] >= a[2]:
                return FALSE
            return isvar(a[1], 'Option' if a[2] == 2 else 'enum', b[1])
    num = ('i', 'sum', 'len', 'k', 'half')
    if a[0] in num or b[0] in num:
        c, d = _lin(sub(a, b))
        if not d:
            return B(c == 0)
        if c == 0 and len(d) == 1:
            (k, v), = d.items()
            if k[0] == 'len':
                return isempty(k[1])
        # a single opaque term with coefficient +-1 is isolated on the left
        items = sorted(d.items(), key=repr)
        if len(items) == 1 and abs(items[0][1]) == 1:
            v = -c * items[0][1]
            if v < 0:
                return FALSE
            if v == 1:
                f = another(items[0][0])
                if f is not None:
                    return f_not(f)
            return ('eq', items[0][0], ('i', v))
        if items[0][1] < 0:
            c = -c
            items = [(k, -v) for k, v in items]
        lhs = _mk(max(c, 0), {k: v for k, v in items if v > 0})
        rhs = _mk(max(-c, 0), {k: -v for k, v in items if v < 0})
        if lhs == rhs:
            return TRUE
        return ('eq',) + tuple(sorted((lhs, rhs), key=repr))
    if a == NIL:
        return isempty(b)
    if b == NIL:
        return isempty(a)
    return ('eq',) + tuple(sorted((a, b), key=repr))


NVARIANTS = {}          # type path -> number of variants, for the crate's own types


def isvar(t, name, v):
    if t[0] == 'agg':
        return B(t[2] == v)
    if name not in ('Option', 'Result', 'enum'):
        name = 'Option' if NVARIANTS.get(name) == 2 else 'enum'
    if t[0] == 'mgetopt':
        f = has(t[1], t[2])
        return f if v == 1 else f_not(f)
    if name in ('Option', 'Result') and v == 0:
        return f_not(('isvar', t, name, 1))
    return ('isvar', t, name, v)


# ---------------------------------------------------------------- aggregates
def fld(t, i):
    if t[0] == 'agg':
        return t[3][i]
    return ('fld', t, i)


def vfld(t, v, i):
    if t[0] == 'agg':
        return t[3][i]
    if t[0] == 'mgetopt':
        return ('ix', t[1][1], t[2]) if t[1][0] == 'gidx' else ('mget', t[1], t[2])
    return ('vfld', t, v, i)


# --------------------------------------------------------------------- lists
def segs(l):
    return l[1] if l[0] == 'L' else (l,)


def mkL(ss):
    out = []
    for s in ss:
        if s[0] == 'L':
            out.extend(s[1])
        elif s[0] in ('nilset', 'nilmap'):
            pass
        elif s[0] == 'fmap' and not any(r for _, r in s[3]):
            pass
        else:
            out.append(s)
    if len(out) == 1 and out[0][0] != 'one':
        return out[0]
    return ('L', tuple(out))


def cat(*ls):
    out = []
    for l in ls:
        out.extend(segs(l))
    return mkL(out)


def one(x):
    return ('L', (('one', x),))


def lst(*xs):
    return ('L', tuple(('one', x) for x in xs))


def push(l, x):
    return cat(l, one(x))


def rev(l):
    if l[0] == 'L':
        return mkL([s if s[0] == 'one' else rev(s) for s in reversed(l[1])])
    if l[0] == 'rev':
        return l[1]
    if l[0] == 'fmap':
        rv = lambda x: ('spread', rev(x[1])) if x[0] == 'spread' else x
        return fmap(rev(l[1]), l[2], tuple((c, tuple(rv(x) for x in reversed(r))) for c, r in l[3]))
    if l[0] in ('slice',):
        n = length(l[1])
        return slice_(rev(l[1]), sub(n, l[3]), sub(n, l[2]))
    return ('rev', l)


def length(l):
    h = l[0]
    if h == 'L':
        t = I(0)
        for s in l[1]:
            t = add(t, I(1) if s[0] == 'one' else length(s))
        return t
    if h == 'rev' or h == 'rot':
        return length(l[1])
    if h in ('enum', 'zip'):
        return length(l[1])
    if h == 'upd':
        return length(l[1])
    if h == 'slice':
        return sub(l[3], l[2])
    if h == 'range':
        return sub(l[2], l[1])
    if h == 'fmap' and len(l[3]) >= 1:
        ns = {len(r) for _, r in l[3]}
        if len(ns) == 1 and not any(x[0] == 'spread' for _, r in l[3] for x in r):
            return scale(length(l[1]), ns.pop())
    if h == 'fmap' and l[1][0] == 'rev':
        return length(('fmap', l[1][1]) + l[2:])
    if h == 'chunks' and l[2] == 2:
        return half(length(l[1])) if l[3] == 'chunks_exact' else half(add(length(l[1]), I(1)))
    if h == 'stepby' and l[2] == 2:
        return half(add(length(l[1]), I(1)))
    if h == 'unord':
        return length(l[1])
    if h == 'windows':
        return sub(length(l[1]), I(l[2] - 1))
    if h == 'refs':
        return length(l[3])
    if h in ('nilset', 'nilmap'):
        return I(0)
    if h == 'fn' and l[1].startswith('sort'):
        return length(l[2][0])
    if h == 'gidx' or h == 'gadj':
        return ('len', ('nodes', l[1]))
    if h == 'keysof':
        return ('len', l[1])
    return ('len', l)


def isempty(l):
    h = l[0]
    if h == 'L':
        if any(s[0] == 'one' for s in l[1]):
            return FALSE
        return f_and(*[isempty(s) for s in l[1]])
    if h in ('nilset', 'nilmap'):
        return TRUE
    if h in ('rev', 'enum', 'zip', 'upd', 'rot', 'stepby') or h == 'chunks' and l[3] == 'chunks':
        return isempty(l[1])
    if h == 'chunks' and l[2] == 2 or h == 'windows':
        return f_not(pos(length(l)))
    if h == 'pend':         # what a traversal still has to report
        return isempty(l[1])
    if h in ('ins', 'mins'):
        return FALSE
    if h == 'sext' or h == 'mext':
        return f_and(isempty(l[1]), isempty(l[2]))
    if h in ('slice', 'range'):
        return f_not(pos(length(l)))
    if h == 'fmap':
        if all(any(x[0] != 'spread' for x in r) for _, r in l[3]):
            return isempty(l[1])
        r = equals(l)
        if r is not None:
            return f_not(has(*r))
    if h in ('gidx', 'gadj'):
        return ('isempty', ('nodes', l[1]))
    if h == 'refs':
        return isempty(l[3])
    if h == 'unord':
        return isempty(l[1])
    if h in ('mret', 'sret') and l[1] in (EMPTYMAP, EMPTYSET):
        return TRUE
    # a traversal takes a step exactly when its root has a neighbor
    if h == 'steps':
        return isempty(('N', l[2], l[3]))
    if h in ('dnodes', 'dedges'):
        return isempty(('N', l[1], l[2]))
    if h == 'fn' and l[1].startswith(('sort', 'dedup')):
        return isempty(l[2][0])
    return ('isempty', l)


def slice_(l, a, b):
    n = length(l)
    if a == I(0) and b == n:
        return l
    if a == b:
        return NIL
    if l[0] == 'slice':
        return slice_(l[1], add(l[2], a), add(l[2], b))
    if l[0] == 'range':
        return ('range', add(l[1], a), add(l[1], b) if b != INF else INF)
    if l[0] == 'enum' and a == I(0):
        return ('enum', slice_(l[1], a, b))
    if l[0] == 'L':
        ss = list(l[1])
        # drop leading segments that lie before a
        while ss and a != I(0):
            s = ss[0]
            w = I(1) if s[0] == 'one' else length(s)
            if s[0] == 'one' and a[0] == 'i' and a[1] >= 1:
                pass
            elif w == a:
                pass
            else:
                break
            ss.pop(0)
            a, b, n = sub(a, w), sub(b, w), sub(n, w)
        while ss and b != n:
            s = ss[-1]
            w = I(1) if s[0] == 'one' else length(s)
            d = sub(n, b)
            if s[0] == 'one' and d[0] == 'i' and d[1] >= 1:
                pass
            elif w == d:
                pass
            else:
                break
            ss.pop()
            n = sub(n, w)
        # prefix that ends exactly at a segment boundary
        if a == I(0) and b != n:
            acc = I(0)
            for i, s in enumerate(ss):
                if acc == b:
                    ss = ss[:i]
                    n = b
                    break
                acc = add(acc, I(1) if s[0] == 'one' else length(s))
        l = mkL(ss)
        if a == I(0) and b == n:
            return l
        if l[0] != 'L':
            return slice_(l, a, b)
    return ('slice', l, a, b)


def at(l, i):
    """element i of list l, without forking (valid only when in range)"""
    h = l[0]
    if h == 'L':
        acc = I(0)
        for s in l[1]:
            if s[0] == 'one':
                if acc == i:
                    return s[1]
                acc = add(acc, I(1))
            else:
                break
        if all(s[0] == 'one' for s in l[1]):
            pass
        elif len(l[1]) and l[1][-1][0] == 'one' and add(i, I(1)) == length(l):
            return l[1][-1][1]
        if add(i, I(1)) == length(l):
            back = list(l[1])
            if back[-1][0] == 'one':
                return back[-1][1]
    elif h == 'rev':
        return at(l[1], sub(sub(length(l[1]), I(1)), i))
    elif h == 'enum':
        return tup(add(l[2], i) if len(l) > 2 else i, at(l[1], i))
    elif h == 'range':
        return add(l[1], i)
    elif h == 'slice':
        return at(l[1], add(l[2], i))
    elif h == 'zip':
        return tup(at(l[1], i), at(l[2], i))
    elif h == 'fmap' and len(l[3]) == 1 and len(l[3][0][1]) == 1 and l[3][0][1][0][0] != 'spread':
        return subst(l[3][0][1][0], {l[2]: at(l[1], i)})
    elif h == 'fmap' and l[1][0] == 'rev' and all(len(r) <= 1 and not any(x[0] == 'spread' for x in r) for _, r in l[3]):
        return at(('fmap', l[1][1]) + l[2:], sub(sub(length(l), I(1)), i))
    elif h == 'gadj':
        return ('N', l[1], at(('nodes', l[1]), i))
    elif h == 'nodes' and i[0] == 'ix' and i[1] == l[1]:
        return i[2]
    elif h == 'refs':
        return ('ref', l[1], l[2] + (('idx', i),))
    elif h == 'upd' and l[2] == i:
        return l[3]
    elif h == 'repeat':
        return l[1]
    elif h == 'windows':
        return slice_(l[1], i, add(i, I(l[2])))
    elif h == 'chunks' and l[3] == 'chunks_exact':
        return slice_(l[1], scale(i, l[2]), scale(add(i, I(1)), l[2]))
    elif h == 'stepby':
        return at(l[1], scale(i, l[2]))
    return ('at', l, i)


def upd(l, i, v):
    if l[0] == 'L':
        ss = l[1]
        if all(s[0] == 'one' for s in ss) and i[0] == 'i' and 0 <= i[1] < len(ss):
            return mkL([('one', v) if j == i[1] else s for j, s in enumerate(ss)])
        if ss and ss[-1][0] == 'one' and add(i, I(1)) == length(l):
            return mkL(list(ss[:-1]) + [('one', v)])
    if l[0] == 'upd' and l[2] == i:
        return upd(l[1], i, v)
    if at(l, i) == v:
        return l
    return ('upd', l, i, v)


# bound variables of comprehensions
def bv_level(t):
    """highest bound-variable level in a term"""
    if not isinstance(t, tuple):
        return 0
    if len(t) == 2 and t[0] == 'bv':
        return t[1]
    return max([bv_level(x) for x in t] or [0])


def fmap(l, bv, cases):
    """concatenation over the elements e of l of the items of the case whose
    conditions hold for e.  cases: tuple of (conds, items); an item is a term or
    ('spread', list).  The cases are exhaustive for the elements of l."""
    if l == NIL:
        return NIL
    cases = simplify_cases(cases)
    # identity
    if all(r == (bv,) for _, r in cases):
        return l
    if not any(r for _, r in cases):
        return NIL
    # comprehension over a comprehension
    if l[0] == 'fmap' and all(len(r) <= 1 and not any(x[0] == 'spread' for x in r) for _, r in l[3]):
        sh = ('bv', bv[1] + 200000)
        out = []
        for c, r in subst(l[3], {l[2]: sh}):
            if not r:
                out.append((c, ()))
                continue
            for c2, r2 in cases:
                out.append((tuple(c) + tuple((subst(f, {bv: r[0]}), v) for f, v in c2), subst(r2, {bv: r[0]})))
        return fmap(l[1], sh, tuple(out))
    # only the element, not its position, is used
    if l[0] == 'enum' and not any(_uses_other(x, bv, 1) for x in cases):
        sh = ('bv', bv[1] + 100000)
        return fmap(l[1], sh, subst(cases, {('fld', bv, 1): sh}))
    if l[0] == 'enum' and not any(_uses_other(x, bv, 0) for x in cases):
        sh = ('bv', bv[1] + 100000)
        return fmap(('range', I(0), length(l[1])), sh, subst(cases, {('fld', bv, 0): sh}))
    if l[0] == 'L' and all(s[0] == 'one' for s in l[1]) and len(cases) == 1:
        out = []
        for s in l[1]:
            for x in cases[0][1]:
                x = subst(x, {bv: s[1]})
                out.append(x[1] if x[0] == 'spread' else ('one', x))
        return mkL(out)
    lvl = max([bv_level(tuple((c, r)) if True else 0) for c, r in cases_without(cases, bv)] or [0])
    want = ('bv', max(lvl, bv_level(l)) + 1)
    if want != bv:
        cases = subst(cases, {bv: want})
        bv = want
    cases = tuple(sorted(set(cases), key=repr))
    return ('fmap', l, bv, cases)


def forall(l, bv, cases):
    """formula: every element of l satisfies one of the cases"""
    cases = tuple((tuple(c), ()) for c, _ in cases)
    lvl = max([bv_level(c) for c, r in cases_without(cases, bv)] or [0])
    want = ('bv', max(lvl, bv_level(l)) + 1)
    if want != bv:
        cases = subst(cases, {bv: want})
    return ('all', l, want, tuple(sorted(set(cases), key=repr)))


def _uses_other(t, bv, i):
    """does t use bv other than through its component i"""
    if t == bv:
        return True
    if not isinstance(t, tuple):
        return False
    if t == ('fld', bv, i):
        return False
    return any(_uses_other(x, bv, i) for x in t if isinstance(x, tuple))


def flat_conds(conds):
    """conditions as (atom, bool) pairs where possible; None if contradictory"""
    out = []
    todo = list(reversed(conds))
    while todo:
        f, v = todo.pop()
        if f[0] == 'not':
            todo.append((f[1], not v))
        elif f[0] == 'b':
            if f[1] != v:
                return None
        elif f[0] == 'and' and v or f[0] == 'or' and not v:
            todo.append((f[2], v))
            todo.append((f[1], v))
        else:
            out.append((f, v))
    for f, v in out:
        if (f, not v) in out:
            return None
    return tuple(dict.fromkeys(out))


def merge_cases(cs):
    """merge (set of conditions, items) cases that differ in the sign of one condition"""
    ch = True
    while ch:
        ch = False
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                (c, r), (d, q) = cs[i], cs[j]
                if r != q:
                    continue
                x, y = c - d, d - c
                if len(x) == 1 and len(y) == 1:
                    (f, v), = x
                    (g, w), = y
                    if f == g and v != w:
                        cs = [z for k, z in enumerate(cs) if k not in (i, j)] + [(c & d, r)]
                        cs = list(dict.fromkeys(cs))
                        ch = True
                        break
                if not x:        # c is weaker
                    cs = [z for k, z in enumerate(cs) if k != j]
                    ch = True
                    break
                if not y:
                    cs = [z for k, z in enumerate(cs) if k != i]
                    ch = True
                    break
            if ch:
                break
    return cs


def simplify_cases(cases):
    """drop conditions common to all cases (they hold for every element), and
    merge cases with equal items that differ in the sign of one condition"""
    cs = []
    for c, r in cases:
        c = flat_conds(c)
        if c is not None:
            cs.append((frozenset(c), tuple(r)))
    if not cs:
        return ()
    cs = list(dict.fromkeys(cs))
    common = frozenset.intersection(*[c for c, _ in cs])
    cs = list(dict.fromkeys((c - common, r) for c, r in cs))
    cs = merge_cases(cs)
    if len(cs) > 1:
        common = frozenset.intersection(*[c for c, _ in cs])
        cs = [(c - common, r) for c, r in cs]
    return tuple((tuple(sorted(c, key=repr)), r) for c, r in cs)


def cases_without(cases, bv):
    hole = ('bv0',)
    return [(subst(c, {bv: hole}), subst(r, {bv: hole})) for c, r in cases]


# ----------------------------------------------------------------- set / map
def ins(s, x):
    if s[0] == 'ins' and s[2] == x:
        return s
    return ('ins', s, x)


def sext(s, l):
    if l == NIL:
        return s
    if l[0] == 'L':
        for seg in l[1]:
            s = ins(s, seg[1]) if seg[0] == 'one' else sext(s, seg)
        return s
    return ('sext', s, l)


def srem(s, x):
    return ('srem', s, x)


def mins(m, k, v):
    if m[0] == 'mins' and m[2] == k:
        return mins(m[1], k, v)
    return ('mins', m, k, v)


def mrem(m, k):
    return ('mrem', m, k)


def adj(g, a, b):
    if g[0] == 'gr':
        return f_or(has(g[2], tup(a, b)), has(g[2], tup(b, a)))
    a, b = sorted((a, b), key=repr)
    return ('adj', g, a, b)


def has(c, x):
    """membership formula"""
    h = c[0]
    if h == 'L':
        return f_or(*[eq(s[1], x) if s[0] == 'one' else has(s, x) for s in c[1]])
    if h in ('nilset', 'nilmap'):
        return FALSE
    if h in ('rev', 'rot'):
        return has(c[1], x)
    if h == 'fn' and c[1] in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'dedup'):
        return has(c[2][0], x)
    if h == 'range':
        return f_and(le(c[1], x), TRUE if c[2] == INF else lt(x, c[2]))
    if h == 'ins':
        return f_or(eq(c[2], x), has(c[1], x))
    if h == 'srem':
        return f_and(f_not(eq(c[2], x)), has(c[1], x))
    if h == 'sext':
        return f_or(has(c[1], x), has(c[2], x))
    if h == 'mins':
        return f_or(eq(c[2], x), has(c[1], x))
    if h == 'mext':
        return f_or(has(c[1], x), has(fmap_fst(c[2]), x))
    if h == 'mrem':
        return f_and(f_not(eq(c[2], x)), has(c[1], x))
    if h == 'keysof':
        return has(c[1], x)
    if h == 'sret':
        return f_and(has(c[1], x), subst(c[2], {('bv', 700): x}))
    if h == 'mret':
        return f_and(has(c[1], x), subst(c[2], {('bv', 700): x, ('bv', 701): ('mget', c[1], x)}))
    if h == 'unord' and c[2] == 'k':
        return has(c[1], x)
    if h == 'gidx' or h == 'nodes':
        if c[1][0] == 'gr':
            return has(c[1][1], x)
        return ('hasnode', c[1], x)
    if h == 'N':
        return adj(c[1], c[2], x)
    if h == 'links':
        y, z = fld(x, 0), fld(x, 1)
        return {'both': adj(c[2], y, z), 'given': has(('edges', c[2]), tup(y, z)), 'least': f_and(le(y, z), adj(c[2], y, z))}[c[1]]
    if h == 'edges':
        if x[0] == 'agg':
            return ('edged', c[1], x[3][0], x[3][1])
        return ('edged', c[1], fld(x, 0), fld(x, 1))
    if h == 'fmap':
        # membership is a formula when every yielded item is the element itself
        if all(r in ((), (c[2],)) for _, r in c[3]):
            alts = [f_and(*[f if v else f_not(f) for f, v in subst(cs, {c[2]: x})])
                    for cs, r in c[3] if r]
            return f_and(has(c[1], x), f_or(*alts))
        r = listed_by(c, x)
        if r is not None:
            return r
    if x[0] == 'at' and x[1] == c:
        return TRUE
    return ('has', c, x)


def listed_by(c, x):
    """membership in what is made, entry by entry, of lists, where an item tells
    the entries it is made of; None when it does not"""
    alts = []

    def leaf(chain, item):
        bound = {}

        def solve(t, v):
            for dom, bv, _ in chain:
                if t == bv:
                    w = v
                elif dom[0] == 'enum' and t == fld(bv, 0):
                    w = tup(v, at(dom[1], v))
                else:
                    continue
                bound.setdefault(bv, w)
                return
            if t[0] == 'agg' and t[1] == 'tuple':
                for i, u in enumerate(t[3]):
                    solve(u, fld(v, i))
        solve(item, x)
        if any(bv not in bound for _, bv, _ in chain):
            return False
        fs = [eq(subst(item, bound), x)]
        for dom, bv, conds in chain:
            d, w = subst(dom, bound), bound[bv]
            fs.append(lt(fld(w, 0), length(d[1])) if d[0] == 'enum' else has(d, w))
            fs.extend(f if t else f_not(f) for f, t in subst(conds, bound))
        alts.append(f_and(*fs))
        return True

    def walk(l, chain):
        for conds, items in l[3]:
            for i in items:
                here = chain + [(l[1], l[2], conds)]
                if i[0] != 'spread':
                    if not leaf(here, i):
                        return False
                elif i[1][0] != 'fmap' or not walk(i[1], here):
                    return False
        return True
    return f_or(*alts) if walk(c, []) else None


def fmap_fst(l):
    if l[0] == 'fmap':
        return fmap(l[1], l[2], tuple((c, tuple(fld(x, 0) for x in r)) for c, r in l[3]))
    if l[0] == 'L':
        return mkL([('one', fld(s[1], 0)) if s[0] == 'one' else fmap_fst(s) for s in l[1]])
    return fmap(l, ('bv', 1), (((), (fld(('bv', 1), 0),)),))


# ------------------------------------------------------------- substitution
def subst(t, m):
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if not t:
        return t
    n = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if n == t:
        return t
    return rebuild(n)


def rebuild(n):
    if not n or not isinstance(n[0], str):
        return n
    h = n[0]
    try:
        if h == 'sum':
            t = I(n[1])
            for k, c in n[2]:
                t = add(t, scale(k, c))
            return t
        if h == 'pos':
            t = I(n[1])
            for k, c in n[2]:
                t = add(t, scale(k, c))
            return pos(t)
        if h == 'not':
            return f_not(n[1])
        if h == 'and':
            return f_and(n[1], n[2])
        if h == 'or':
            return f_or(n[1], n[2])
        if h == 'odd':
            t = I(0)
            for k in n[1]:
                t = add(t, k)
            return odd(t)
        if h == 'eq':
            return eq(n[1], n[2])
        if h == 'isvar':
            return isvar(n[1], n[2], n[3])
        if h == 'fld':
            return fld(n[1], n[2])
        if h == 'vfld':
            return vfld(n[1], n[2], n[3])
        if h == 'L':
            return mkL(n[1])
        if h == 'rev':
            return rev(n[1])
        if h == 'len':
            return length(n[1])
        if h == 'isempty':
            return isempty(n[1])
        if h == 'slice':
            return slice_(n[1], n[2], n[3])
        if h == 'at':
            return at(n[1], n[2])
        if h == 'upd':
            return upd(n[1], n[2], n[3])
        if h == 'fmap':
            return fmap(n[1], n[2], n[3])
        if h == 'all':
            return forall(n[1], n[2], n[3])
        if h == 'ins':
            return ins(n[1], n[2])
        if h == 'sext':
            return sext(n[1], n[2])
        if h == 'mins':
            return mins(n[1], n[2], n[3])
        if h == 'has':
            return has(n[1], n[2])
        if h == 'adj':
            return adj(n[1], n[2], n[3])
        if h == 'hasnode':
            return has(('nodes', n[1]), n[2])
        if h == 'edged':
            return has(('edges', n[1]), tup(n[2], n[3]))
        if h == 'half':
            return half(n[1])
        if h in ('chunks', 'stepby', 'windows') and n[1] == NIL:
            return NIL
    except (IndexError, TypeError):
        return n
    return n


def mentions(t, pred):
    if not isinstance(t, tuple):
        return False
    if t and isinstance(t[0], str) and pred(t):
        return True
    return any(mentions(x, pred) for x in t if isinstance(x, tuple))


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


_NAMES = {}


def show(t, depth=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if not isinstance(h, str):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if h in ('i', 'b', 'var') and len(t) > 1:
        return str(t[1])
    if h in ('c', 'h', 'loop', 'v'):
        return '<%s>' % h
    if h == 'unit':
        return '()'
    if h == 'agg':
        nm = t[1].split('::')[-1]
        if nm == 'tuple':
            return '(' + ', '.join(show(x) for x in t[3]) + ')'
        if nm == 'Option':
            return 'None' if t[2] == 0 else 'Some(%s)' % show(t[3][0])
        if nm == 'Result':
            return ('Ok(%s)' if t[2] == 0 else 'Err(%s)') % show(t[3][0])
        return '%s#%d(%s)' % (nm, t[2], ', '.join(show(x) for x in t[3]))
    if h == 'L':
        return '[' + ', '.join(show(s[1]) if s[0] == 'one' else '..' + show(s) for s in t[1]) + ']'
    if h == 'sum':
        return '(' + '+'.join(([str(t[1])] if t[1] else []) + [('%d*' % c if c != 1 else '') + show(k) for k, c in t[2]]) + ')'
    if h == 'not':
        return '!' + show(t[1])
    if h == 'pos':
        return '(%s > 0)' % show(('sum',) + t[1:])
    if h == 'eq':
        return '(%s == %s)' % (show(t[1]), show(t[2]))
    if h == 'bv':
        return 'e%d' % t[1]
    if h == 'k':
        return 'k%d' % abs(hash(t) % 97)
    if h == 'fmap':
        return 'for %s in %s {%s}' % (show(t[2]), show(t[1]), '; '.join(
            '%s => [%s]' % (' && '.join(show(f if v else f_not(f)) for f, v in c) or 'true', ', '.join(show(x) for x in r))
            for c, r in t[3]))
    if h == 'all':
        return 'all %s in %s {%s}' % (show(t[2]), show(t[1]), ' or '.join(
            ' && '.join(show(f if v else f_not(f)) for f, v in c) or 'true' for c, r in t[3]))
    if h == 'phi':
        return 'phi%s' % abs(hash(t[1:]) % 997)
    return '%s(%s)' % (h, ', '.join(show(x) for x in t[1:]))
