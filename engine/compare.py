"""Semantic comparison of abstract values under the facts of a state."""
from .terms import *
from . import terms as T
from .interp import islist, T_FORM
from .stdmodel import ensure_list

_fresh = [0]


def fresh(name='z'):
    _fresh[0] += 1
    return ('var', '#%s%d' % (name, _fresh[0]))


def same(eng, st, x, y):
    """x and y denote the same value in every concrete state of st"""
    x, y = eng.norm(st, x), eng.norm(st, y)
    if x == y:
        return True
    if x[0] in T_FORM or y[0] in T_FORM:
        return all(w == v for s, v in eng.branch(st, x) for _, w in eng.branch(s, y))
    if x[0] == 'agg' and y[0] == 'agg':
        return x[1] == y[1] and x[2] == y[2] and len(x[3]) == len(y[3]) and all(same(eng, st, a, b) for a, b in zip(x[3], y[3]))
    if x[0] == 'it' and y[0] == 'it':
        for s, l in lists(eng, st, x):
            for s2, m in lists(eng, s, y):
                if not same_list(eng, s2, l, m):
                    return False
        return True
    if x[0] == 'gr' and y[0] == 'gr':
        return same_list(eng, st, x[1], y[1]) and same_list(eng, st, x[2], y[2])
    if islist(x) or islist(y) or x[0] == 'range' or y[0] == 'range':
        return same_list(eng, st, x, y)
    if x[0] in SETS or y[0] in SETS:
        return same_set(eng, st, x, y)
    if x[0] in MAPS or y[0] in MAPS:
        return same_map(eng, st, x, y)
    return eng.entails(st, eq(x, y))


SETS = ('nilset', 'ins', 'srem', 'sext')
MAPS = ('nilmap', 'mins', 'mrem', 'mext', 'gidx')


def lists(eng, st, v):
    """(state, list term) of an iterator's items"""
    l = as_list(eng, st, v)
    if l is not None:
        return [(st, l)]
    out = []
    for o in ensure_list(eng, st, v, eng.cs(0, ('collect', fresh('c')))):
        if o[0] != 'ret':
            return [(st, ('app', 'iterator', (v,)))]
        out.append((o[1], o[2]))
    return out


def as_list(eng, st, v):
    """list term of an iterator value whose adapters are pure, or None"""
    if v[0] != 'it':
        return v
    if not v[2]:
        return v[1]
    if all(op[0] == 'cases' for op in v[2]):
        l = v[1]
        for op in v[2]:
            l = fmap(l, op[1], op[2])
        return l
    return None


def live_segs(eng, st, l):
    out = []
    for s in segs(l):
        if s[0] != 'one' and eng.eval3(st, isempty(s)) is True:
            continue
        if s[0] == 'slice' and s[3] != length(s[1]) and eng.eval3(st, lt(s[3], length(s[1]))) is False:
            # ends at or after the end of the list
            out.extend(segs(slice_(s[1], s[2], length(s[1]))))
            continue
        out.append(s)
    return out


def same_list(eng, st, x, y, unordered=False):
    x, y = eng.norm(st, x), eng.norm(st, y)
    if x == y:
        return True
    a, b = live_segs(eng, st, x), live_segs(eng, st, y)
    if len(a) == len(b) and all(same_seg(eng, st, p, q, unordered) for p, q in zip(a, b)):
        return True
    if unordered and len(a) == len(b):
        rest = list(b)
        for p in a:
            for q in rest:
                if same_seg(eng, st, p, q, True):
                    rest.remove(q)
                    break
            else:
                return False
        return True
    return False


def base_differs(eng, st, l, want):
    """l is what a loop gathers that the analysis cannot sum up, but what its
    first iteration adds is not what want has there"""
    l, want = eng.norm(st, l), eng.norm(st, want)
    a, b = live_segs(eng, st, l), live_segs(eng, st, want)
    while a and b and a[0][0] == 'one' and b[0][0] == 'one' and same_seg(eng, st, a[0], b[0]):
        a, b = a[1:], b[1:]
    if len(a) != 1 or len(b) != 1 or b[0][0] == 'one':
        return False
    f, flip = a[0], False
    if f[0] == 'rev':
        f, flip = f[1], True
    if f[0] != 'fold':
        return False
    w = b[0]
    rec, phi, init = eng.recs[f[1]], f[2], f[3]
    if rec.dom is None or init != NIL:
        return False
    dom = rec.dom[1] if rec.dom[0] == 'enum' else rec.dom
    d, bv, cases = parts(w)
    if not same_dom(eng, st, dom, d):
        return False
    mp = dict(rec.inits)
    mp[rec.k] = I(0)
    x = at(d, I(0))
    for s in eng.assume(st, [(pos(length(dom)), True)]):
        for c, u in rec.backs:
            got = subst(u.get(phi, phi), mp)
            if not islist(got):
                continue
            if flip:
                got = rev(got)
            for s1 in eng.assume(s, [(subst(g, mp), v) for g, v in c]):
                if any(mentions(g, lambda t: t[0] in ('app', 'havoc', 'const', 'rec', 'fold')) for g, _ in s1.path):
                    continue
                for c2, items in cases:
                    for s2 in eng.assume(s1, [(subst(g, {bv: x}), v) for g, v in c2]):
                        if not same_list(eng, s2, got, items_list(subst(items, {bv: x}))):
                            return True
    return False


def sorted_ids(l):
    """a list of ids sorted by what the ids themselves tell: a comparison that
    captures something might well know the present order"""
    return l[0] == 'fn' and l[1].startswith('sort') and l[2][0][0] in ('N', 'rev', 'nodes', 'slice') and all(x[0] == 'agg' and not x[3] for x in l[2][1:])


def strip_order(l):
    if l[0] in ('rev',):
        return strip_order(l[1])
    if sorted_ids(l):
        return strip_order(l[2][0])
    if l[0] == 'slice' and l[1][0] == 'rev':
        n = length(l[1])
        return slice_(l[1][1], sub(n, l[3]), sub(n, l[2]))
    return l


def same_seg(eng, st, p, q, unordered=False):
    if p == q:
        return True
    if p[0] == 'one' and q[0] == 'one':
        return same(eng, st, p[1], q[1])
    if p[0] == 'one' or q[0] == 'one':
        return False
    if unordered:
        if p[0] != 'fmap':
            p = strip_order(p)
        if q[0] != 'fmap':
            q = strip_order(q)
        if p == q:
            return True
    return same_fmap(eng, st, p, q, unordered)


def parts(l):
    """(domain, bound variable, cases)"""
    if l[0] == 'fmap':
        return l[1], l[2], l[3]
    b = ('bv', 990)
    return l, b, (((), (b,)),)


def same_dom(eng, st, d, e):
    """the two lists have the same elements at the same positions"""
    if d == e:
        return True
    if not same_int(eng, st, length(d), length(e)):
        return False
    k = fresh('k')
    sts = eng.assume(st, [(lt(k, length(d)), True)])
    for s in sts:
        for s2, u in eng.op_at(s, d, k):
            for s3, v in eng.op_at(s2, e, k):
                if u[0] == 'at' and u[1] == d or v[0] == 'at' and v[1] == e:
                    return False
                if not same(eng, s3, u, v):
                    return False
    return True


def same_int(eng, st, a, b):
    return eng.eval3(st, eq(a, b)) is True


def same_fmap(eng, st, p, q, unordered=False):
    d, bd, cd = parts(p)
    e, be, ce = parts(q)
    if unordered:
        d, e = strip_order(d), strip_order(e)
    if not same_dom(eng, st, d, e):
        return False
    for s, x in elements(eng, st, d):
        ye = x if e == d else at(e, x[2] if x[0] == 'at' else I(0))
        for c, r in cd:
            for c2, r2 in ce:
                cs = [(subst(f, {bd: x}), v) for f, v in c] + [(subst(f, {be: ye}), v) for f, v in c2]
                for s2 in eng.assume(s, cs):
                    u, w = subst(r, {bd: x}), subst(r2, {be: ye})
                    if not same_list(eng, s2, items_list(u), items_list(w), unordered):
                        return False
    return True


def items_list(r):
    return mkL([x[1] if x[0] == 'spread' else ('one', x) for x in r])


def elements(eng, st, dom, k=None):
    """states and terms for an arbitrary element of a list, with what loops
    over that list have established about every element"""
    k = k or fresh('k')
    out = []
    for s in eng.assume(st, [(lt(k, length(dom)), True)]):
        for s2, x in eng.op_at(s, dom, k):
            out.extend((s3, x) for s3 in instantiate(eng, s2, dom, x))
    return out


def instantiate(eng, st, dom, x):
    sts = [st]
    for (d, bv, cases) in st.foralls:
        if d == dom:
            y = x
        elif d[0] == 'enum' and d[1] == dom and x[0] == 'at':
            y = tup(x[2], x)
        elif d[0] == 'slice' and d[1] == dom and x[0] == 'at' and x[1] == dom:
            sts = [s2 for s in sts for s2 in inside(eng, s, d, bv, cases, x)]
            continue
        else:
            continue
        sts = [s2 for s in sts for c, _ in cases for s2 in eng.assume(s, [(subst(f, {bv: y}), v) for f, v in c])]
    return sts


def inside(eng, st, d, bv, cases, x):
    """what is known of a stretch of a list, for an element of the list"""
    k, out = x[2], []
    for s, w in eng.branch(st, lt(k, d[2])):
        if w:
            out.append(s)
            continue
        for s1, w1 in eng.branch(s, lt(k, d[3])):
            if w1:
                out += [s2 for c, _ in cases for s2 in eng.assume(s1, [(subst(f, {bv: x}), v) for f, v in c])]
                continue
            for s2, w2 in eng.branch(s1, eq(k, d[3])):
                if w2:
                    s2 = s2.copy()
                    s2.rep.setdefault(k, d[3])
                    out.append(s2)
                else:
                    out += eng.assume(s2, [(lt(d[3], k), True)])
    return out


def same_set(eng, st, a, b):
    z = fresh()
    return same(eng, st, has(a, z), has(b, z)) if (has(a, z)[0] in T_FORM and has(b, z)[0] in T_FORM) else False


def same_map(eng, st, a, b):
    z = fresh()
    for s, v in eng.branch(st, has(a, z)):
        for s2, w in eng.branch(s, has(b, z)):
            if v != w:
                return False
            if v:
                for s3, x in eng.op_mget(s2, a, z):
                    for s4, y in eng.op_mget(s3, b, z):
                        if not same(eng, s4, x, y):
                            return False
    return True
