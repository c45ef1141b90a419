"""Obligations on collapsing an odd cycle into one node and expanding it again."""
from engine.terms import *
from engine import terms as T
from engine.interp import St
from engine.model import *
from engine.contract import pparts, origin
from engine.compare import same, same_list, fresh
from engine import compare as C
from .matching import current, whole
from .maxmatch import owner, Look

g, p, ID, CYC, W = ('var', 'g'), ('var', 'p'), ('var', 'id'), ('var', 'C'), ('var', 'W')


# ----------------------------------------------------------------- the parts
def fields(cx):
    """an arbitrary collapsed cycle: the value of each field, by what the
    constructor puts there"""
    fs = cx.m.fields(BLOSSOM)
    path = cx.m.field_index(BLOSSOM, lambda f: tystr(f['ty']) == 'Vec<usize>', 'the cycle')
    ids = set()
    a, l, r = ('var', 'i'), ('var', 'L'), ('var', 'R')
    eng = cx.engine(raw={BLOSSOM})
    for k, s, v in eng.call_path(cx.m.inherent(BLOSSOM, 'new'), [a, l, r], St()):
        if k == 'ret' and v[0] == 'agg' and v[1] == BLOSSOM:
            ids.add(tuple(i for i, x in enumerate(v[3]) if x == a))
    if len(ids) != 1 or len(min(ids)) != 1:
        raise Missing('the field of Blossom that holds the id of the new node was not found')
    out = []
    for i, f in enumerate(fs):
        if i == path:
            out.append(CYC)
        elif i == min(ids)[0]:
            out.append(ID)
        elif tystr(f['ty']) == 'usize':
            out.append(('var', f['name']))
        else:
            out.append(('app', 'field', (('var', f['name']),)))
    return ('agg', BLOSSOM, 0, tuple(out)), path


def sources(eng, l, seen=None):
    """lists that all elements of l come from; None where that is not known"""
    seen = set() if seen is None else seen
    if l in seen:
        return set()
    seen.add(l)
    h = l[0]
    if h == 'L':
        return join([sources(eng, x, seen) for x in l[1]])
    if h == 'one':
        return item_source(eng, l[1], seen)
    if h in ('rev', 'slice', 'rot', 'stepby'):
        return sources(eng, l[1], seen)
    if h == 'fmap':
        bv = l[2]
        for _, r in l[3]:
            for x in r:
                if x != bv:
                    y = item_source(eng, x, seen) if not mentions(x, lambda t: t == bv) or x[0] == 'at' else None
                    if y is None:
                        return None
                    return join([y] + [item_source(eng, z, seen) for _, q in l[3] for z in q if z != bv] + ([sources(eng, l[1], seen)] if any(z == bv for _, q in l[3] for z in q) else []))
        return sources(eng, l[1], seen)
    if h == 'phi' or h == 'fold':
        r = eng.recs[l[1]] if h == 'fold' else owner(eng, l)
        q = l[2] if h == 'fold' else l
        if r is None or q not in r.inits:
            return None
        return join([sources(eng, r.inits[q], seen)] + [sources(eng, u[q], seen) for _, u in r.backs if q in u] + ([sources(eng, l[3], seen)] if h == 'fold' else []))
    if l in (CYC, W) or l == ('nodes', g):
        return {l}
    return None


def item_source(eng, x, seen):
    if x == ID:
        return {ID}
    if x[0] == 'at':
        return sources(eng, x[1], seen)
    if x[0] == 'fld' and x[2] == 1 and x[1][0] == 'at' and x[1][1][0] == 'enum':
        return sources(eng, x[1][1][1], seen)
    return None


def join(xs):
    out = set()
    for x in xs:
        if x is None:
            return None
        out |= x
    return out


def facts(eng, st, f):
    """the fresh node is not a node of the graph, the nodes of the cycle are"""
    if f[0] == 'hasnode' and f[1] == g:
        x = f[2]
        if x == ID:
            return False
        if x[0] == 'at' and sources(eng, x[1]) in ({CYC}, {('nodes', g)}):
            return True
        if eng.lookup(st, has(CYC, x)) is True:
            return True
        return None
    if f[0] == 'eq' and ID in f[1:3]:
        x = f[1] if f[2] == ID else f[2]
        if x != ID and eng.lookup(st, ('hasnode', g, x)) is True:
            return False
        if x[0] == 'at' and sources(eng, x[1]) in ({CYC}, {('nodes', g)}):
            return False
        if x[0] == 'fld' and any(l in (('edges', g), ('pedges', p)) for l in origin(x[1])):
            return False
        return None
    if f[0] == 'eq' and f[1][0] == 'fld' and f[2][0] == 'fld' and f[1][1] == f[2][1] and {f[1][2], f[2][2]} == {0, 1} and any(l == ('pedges', p) for l in origin(f[1][1])):
        return False
    if f[0] == 'has' and f[2] == ID and sources(eng, f[1]) in ({CYC}, {('nodes', g)}):
        return False
    if f[0] == 'adj' and f[1] == g and ID in f[2:4]:
        return False
    if f[0] == 'isempty' and f[1] == CYC:
        return False
    if f[0] == 'has' and f[2][0] == 'agg' and len(f[2][3]) == 2:
        x, y = f[2][3]
        if f[1][0] == 'phi':
            # an edge that does not touch the fresh node is listed when its turn
            # comes, and each edge has one turn; so with each node's edge
            for a, b in ((x, y), (y, x)):
                if a[0] == 'fld' and a[2] == 0 and b == ('fld', a[1], 1) and a[1][0] == 'at' and a[1][1] == ('edges', g) and a[1][2][0] == 'k' and f[1][1] == a[1][2][1]:
                    return False
                if b == ID and a[0] == 'at' and a[1] == ('nodes', g) and a[2][0] == 'k' and f[1][1] == a[2][1]:
                    return False
        elif f[1][0] == 'fmap':
            _, d, bv, cases = f[1]
            e = at(d, fresh('k'))
            if all(i[0] == 'agg' and len(i[3]) == 2 and any(eng.eval3(st, eq(subst(i[3][n], {bv: e}), (x, y)[n])) is False for n in (0, 1)) for _, r in cases for i in r):
                return False
    return None


def cannot(eng, s):
    """the path rests on an edge of the fresh node that is listed, while the
    collection of the nodes that have one lacks its end"""
    for f, w in s.path:
        if not w or f[0] != 'has' or f[1][0] != 'phi' or f[2][0] != 'agg' or len(f[2][3]) != 2 or ID not in f[2][3]:
            continue
        rec = owner(eng, f[1])
        if rec is None or rec.inits.get(f[1]) != NIL:
            continue
        a = f[2][3][0] if f[2][3][1] == ID else f[2][3][1]
        for q in rec.inits:
            if q != f[1] and eng.eval3(s, has(q, a)) is False and tracker_of(eng, q, rec, f[1], True):
                return True
    return False


# ------------------------------------------------------------ making the cycle
def new(cx):
    a, l, r = ('var', 'i'), ('var', 'L'), ('var', 'R')
    _, pi = fields(cx)
    eng, outs = cx.run(cx.m.inherent(BLOSSOM, 'new'), [a, l, r], raw={BLOSSOM})
    why = 'the cycle must be both tree paths up to their first common node'
    for k, s, v in outs:
        if k != 'ret':
            continue
        c = v[3][pi]
        met = None
        ks = [t for t in T.subterms(c) if t[0] == 'at' and t[1] in (l, r)]
        for x, y in ((l, r), (r, l)):
            for t in ks + [f[1:3][i] for f, w in s.path if w and f[0] == 'eq' for i in (0, 1) if f[1:3][i][0] == 'at']:
                if t[1] not in (l, r):
                    continue
                for f, w in s.path:
                    if met or not w or f[0] != 'eq' or t not in f[1:3]:
                        continue
                    o = f[1] if f[2] == t else f[2]
                    if o[0] != 'at' or o[1] not in (l, r) or o[1] == t[1]:
                        continue
                    i, j = (t[2], o[2]) if t[1] == x else (o[2], t[2])
                    if same_cycle(eng, s, c, x, i, y, j):
                        met = (x, i, y, j)
        cx.ob('blossom/new/cycle', met is not None, eng, s, [c], why)
        if met:
            x, i, y, j = met
            got = {first(eng, x, i, y), first(eng, y, j, x)}
            if True not in got and (searched(eng, s, x, i, y) or searched(eng, s, y, j, x)):
                got = {True}
            if None in got and True not in got:
                cx.put('blossom/new/first', 'undecided', 'how the two paths are searched for a common node is not followed: %s' % show(i)[:200], s)
            else:
                cx.ob('blossom/new/first', True in got, eng, s, [], 'the cycle must end at the first common node of the two paths')


def first(eng, x, i, y):
    """no element of x before the i-th is in y; None: not known"""
    recs = [r for r in eng.recs.values() if r.k is not None and mentions(i, lambda t: t == r.k)]
    if not recs:
        return None
    if any(i != r.k for r in recs):
        # counted from elsewhere than the start
        return False if all(T._lin(i)[1].get(r.k) for r in recs) else None
    for r in recs:
        if r.dom == x:
            # the last version of the record is the one that counts
            vals = []
            for cs, _ in r.backs:
                for s in eng.assume(St(), cs):
                    vals.append(eng.eval3(s, has(y, at(x, i))))
            if any(v is not False for v in vals):
                return False
        else:
            return False
    return True


def searched(eng, s, x, i, y):
    """do the searches of x that led here show that none of its elements before
    the i-th is in y"""
    s = s.copy()
    done = [(k, bv, [c for c, _ in cases]) for d, k, bv, cases, _ in s.befores if d == x and cases]
    never = lambda t, bv, cs, e: all(not eng.assume(t.copy(), [(subst(f, {bv: e}), v) for f, v in c]) for c in cs)
    for k, bv, cs in done:
        for k2, _, _ in done:
            # had the search for the k-th gone past the k2-th, it had ended there
            if k2 != k and never(s, bv, cs, at(x, k2)):
                for t in eng.assume(s, [(lt(k2, k), False)]):
                    s = t
    m = fresh('m')
    for t in eng.assume(s.copy(), [(lt(m, i), True), (has(y, at(x, m)), True)]):
        if not any(eng.eval3(t, lt(m, k)) is True and never(t, bv, cs, at(x, m)) for k, bv, cs in done):
            return False
    return True


def same_cycle(eng, s, c, x, i, y, j):
    """c is x up to i, with it, and then y back from before j"""
    yr = (rev(slice_(y, I(0), j)), slice_(rev(y), sub(length(y), j), length(y)))
    for m in (one(at(x, i)), one(at(y, j))):
        for q in yr:
            if same_list(eng, s, c, cat(slice_(x, I(0), i), m, q)):
                return True
    return same_list(eng, s, c, cat(slice_(x, I(0), add(i, I(1))), yr[0])) or same_list(eng, s, c, cat(slice_(x, I(0), add(i, I(1))), yr[1])) \
        or same_list(eng, s, c, cat(slice_(x, I(0), i), rev(slice_(y, I(0), add(j, I(1))))))


# --------------------------------------------------------- the smaller problem
class Loop:
    """one way in which a list is extended"""

    def __init__(self, nest, turns, phis, early=None):
        self.nest, self.turns, self.phis, self.early = nest, turns, phis, early


class Dom:
    def __init__(self, dom, k):
        self.dom, self.k, self.phis, self.inits, self.backs, self.exits = dom, k, [], {}, [], []


def loops(eng, l):
    """what l is made of: [('one', x) | Loop | ('?', term)]"""
    out = []
    for x in segs(l):
        if x[0] == 'one':
            out.append(('one', x[1]))
        elif x[0] == 'fmap':
            lp = Loop([], [], [])
            of_fmap(eng, lp, [], [], x)
            out.append(lp)
        elif x[0] == 'fold':
            rec, phi, init = eng.recs[x[1]], x[2], x[3]
            out.extend(loops(eng, init))
            lp = Loop([], [], [])
            of_fold(eng, lp, [], [], [], x)
            out.append(lp)
        else:
            out.append(('?', x))
    return out


def of_fmap(eng, lp, nest, conds, x):
    _, d, bv, cases = x
    k = fresh('k')
    e = at(d, k)
    nest = nest + [Dom(d, k)]
    inr = [(lt(k, length(d)), True)]
    for c, items in cases:
        cs = conds + inr + [(subst(f, {bv: e}), v) for f, v in c]
        its = subst(tuple(items), {bv: e})
        if len(its) == 1 and its[0][0] == 'spread' and its[0][1][0] == 'fmap':
            of_fmap(eng, lp, nest, cs, its[0][1])
        else:
            lp.turns.append((nest, cs, list(its), {}, None, []))


def of_fold(eng, lp, nest, conds, phis, x):
    rec, phi = eng.recs[x[1]], x[2]
    nest = nest + [rec]
    phis = phis + [phi]
    for c, u in rec.backs:
        t = u.get(phi, phi)
        cs = conds + list(c)
        if t[0] == 'fold' and t[3] == phi:
            of_fold(eng, lp, nest, cs, phis, t)
            continue
        ss = list(segs(t)) if t != NIL else []
        if ss[:1] != [phi]:
            lp.turns.append((nest, cs, None, u, rec, phis))
            continue
        if len(ss) == 2 and ss[1][0] == 'fmap':
            of_fmap(eng, lp, nest, cs, ss[1])
            continue
        if any(y[0] != 'one' for y in ss[1:]):
            lp.turns.append((nest, cs, None, u, rec, phis))
            continue
        lp.turns.append((nest, cs, [y[1] for y in ss[1:]], u, rec, phis))


def pair_is(eng, s, it, x, y):
    return any(same(eng, s, fld(it, 0), a) and same(eng, s, fld(it, 1), b) for a, b in ((x, y), (y, x)))


def tracker_of(eng, q, rec, phi, exact=False):
    """a collection of nodes that have been joined to the fresh node (of all of
    them)"""
    if eng.eval3(St(), isempty(rec.inits[q])) is not True:
        return False
    for c, u in rec.backs:
        t = u.get(q, q)
        got = []
        while t[0] == 'ins':
            got.append(t[2])
            t = t[1]
        if t != q:
            ss = list(segs(t))
            if ss[:1] != [q] or any(y[0] != 'one' for y in ss[1:]):
                return False
            got = [y[1] for y in ss[1:]]
        e = u.get(phi, phi)
        items = [y[1] for y in segs(e)[1:] if y[0] == 'one'] if e != phi else []
        for s in eng.assume(St(), c):
            new_ = [z for z in got if eng.eval3(s, has(q, z)) is not True]
            want = [z for i in items for a, z in ((fld(i, 0), fld(i, 1)), (fld(i, 1), fld(i, 0))) if a == ID]
            if not all(any(same(eng, s, a, b) for a in want) or any(eng.eval3(s, has(phi, tup(*z))) is True for z in ((b, ID), (ID, b))) for b in new_):
                return False
            if exact and not all(any(same(eng, s, a, b) for b in new_) or eng.eval3(s, has(q, a)) is True for a in want):
                return False
    return True


def derived(s):
    """an element of a collection that has been put together beforehand"""
    return any(mentions(f, lambda t: t[0] == 'at' and t[1][0] in ('fn', 'unord', 'sext', 'fmap', 'collect') and mentions(t[1], lambda u: u[0] == 'edges' or u[0] == 'N'))
               for f, _ in s.path)


def contract_graph(cx):
    b, _ = fields(cx)
    st = St()
    me = cell(st, 'self', b)
    eng = cx.engine(raw={BLOSSOM}, axioms=[facts])
    eng, outs = cx.run(cx.m.inherent(BLOSSOM, 'contract_graph'), [me, g], st, eng=eng)
    for k, s, v in outs:
        if cannot(eng, s):
            continue
        if (k == 'panic' or v[0] == 'agg' and v[1] == 'Result' and v[2] == 1) and derived(s):
            cx.put('contract/graph/fails', 'undecided', 'rests on what a collection holds: %s' % show(v)[:200] if k != 'panic' else str(v))
            continue
        if k == 'panic':
            cx.ob('contract/graph/fails', False, eng, s, [], 'the cycle must be collapsed: panics: %s' % (v,))
            continue
        gr = v
        if v[0] == 'agg' and v[1] == 'Result':
            if v[2] == 1:
                cx.ob('contract/graph/fails', False, eng, s, [], 'the cycle must be collapsed: returns an error: %s' % show(v)[:200])
                continue
            gr = v[3][0]
        if gr[0] != 'gr':
            cx.put('contract/graph/shape', 'undecided', 'not followed: %s' % show(v)[:300])
            continue
        nodes_of(cx, eng, s, gr[1])
        edges_of(cx, eng, s, gr[2])


def nodes_of(cx, eng, s, l):
    bv = ('bv', 990)
    want = cat(one(ID), fmap(('nodes', g), bv, ((((has(CYC, bv), False),), (bv,)), (((has(CYC, bv), True),), ()))))
    why = 'the smaller graph must have the fresh node and every node outside the cycle, and no others'
    if same_list(eng, s, l, want, unordered=True):
        cx.ob('contract/graph/nodes', True)
        return
    # node by node
    fresh_ = 0
    seen = {}
    for x in loops(eng, l):
        if isinstance(x, tuple):
            if x[0] == 'one' and x[1] == ID:
                fresh_ += 1
                continue
            if x[0] == 'phi' or x[0] == '?' and x[1][0] == 'phi':
                cx.ob('contract/graph/nodes', False, eng, s, [], 'the loop over the nodes may end before all were considered')
                return
            cx.put('contract/graph/nodes', 'undecided', 'not followed: %s' % show(x[1])[:300])
            return
        for nest, cs, items, u, rec, phis in x.turns:
            if len(nest) != 1 or not whole(nest[0], ('nodes', g)) or items is None:
                cx.put('contract/graph/nodes', 'undecided' if items is None or nest[0].dom is None or nest[0].dom[0] != 'slice' else 'fail',
                       'nodes are gathered from %s' % [show(n.dom) if n.dom else '?' for n in nest])
                return
            v = at(('nodes', g), nest[0].k)
            for s2 in eng.assume(St(), cs):
                for s3, inside in eng.branch(s2, has(CYC, v)):
                    if any(eng.eval3(s3, has(q, v)) is True for q in phis):
                        continue
                    good = (items == []) if inside else len(items) == 1 and same(eng, s3, items[0], v)
                    seen[inside] = True
                    cx.ob('contract/graph/nodes', good, eng, s3, items, why)
    cx.ob('contract/graph/nodes', fresh_ == 1 and False in seen, eng, s, [l], why)


def edges_of(cx, eng, s, l):
    status = {'outer': {}, 'cross': {}}
    why = {'outer': 'every edge between nodes outside the cycle must be kept, once',
           'cross': 'a node outside the cycle must be joined to the fresh node exactly once if it has an edge into the cycle, and otherwise not',
           'inner': 'edges within the cycle must be dropped'}
    unknown = False
    for n, lp in enumerate(loops(eng, l)):
        if isinstance(lp, tuple):
            if lp[0] == '?' and lp[1][0] == 'phi':
                cx.ob('contract/graph/edges', False, eng, s, [], 'the loop over the edges may end before all were considered')
            elif lp[0] == '?':
                cx.put('contract/graph/edges', 'undecided', 'not followed: %s' % show(lp[1])[:300])
            else:
                cx.ob('contract/graph/edges', False, eng, s, [lp[1]], 'only edges of the graph and edges of the fresh node may be listed')
            unknown = True
            continue
        for nest, cs, items, u, rec, phis in lp.turns:
            if items is None:
                cx.put('contract/graph/edges', 'undecided', 'not followed: a turn over %s' % [show(r.dom) if r.dom else '?' for r in nest])
                unknown = True
                continue
            e, h, cover = current(eng, nest)
            if e is not None and h == g:
                if not cover:
                    cx.ob('contract/graph/edges', False, eng, s, [], 'the loops must consider every edge of the graph: %s' % [show(r.dom) for r in nest])
                    unknown = True
                    continue
                edge_turn(cx, eng, n, cs, items, rec, phis, e, status, why)
            elif at_cycle(nest):
                if not whole(nest[0], CYC) or not whole(nest[1], unwrap(nest[1].dom)):
                    cx.ob('contract/graph/edges', False, eng, s, [], 'the loops must consider every edge at every node of the cycle: %s' % [show(r.dom) for r in nest])
                    unknown = True
                    continue
                edge_turn(cx, eng, n, cs, items, rec, phis, (unwrap(nest[1].dom)[2], at(unwrap(nest[1].dom), nest[1].k)), status, why)
            elif len(nest) == 1 and nest[0].dom is not None and unwrap(nest[0].dom) == CYC and items == []:
                pass
            elif len(nest) == 1 and whole(nest[0], ('nodes', g)):
                node_turn(cx, eng, n, cs, items, at(('nodes', g), nest[0].k), status, why)
            elif items == [] and nest and (whole(nest[0], ('nodes', g)) or whole(nest[0], ('edges', g))):
                node_turn(cx, eng, n, cs, items, at(('nodes', g), nest[0].k), status, why) if whole(nest[0], ('nodes', g)) and len(nest) == 1 else None
            else:
                cx.put('contract/graph/edges', 'undecided', 'the loops %s do not enumerate edges in a way the analysis knows' % [show(r.dom) if r.dom else '?' for r in nest])
                unknown = True
    for cat_, by in status.items():
        full = [n for n, st in by.items() if st and all(w == 'exact' for w, _, _ in st)]
        mixed = [n for n, st in by.items() if {w for w, _, _ in st} == {'exact', 'none'}]
        if mixed and unknown:
            cx.put('contract/graph/' + cat_, 'undecided', 'edges are passed over by one loop, and another one is not followed')
        for n, st in by.items():
            for w, s2, its in st:
                if w == 'bad' or w == 'none' and n in mixed and not unknown:
                    cx.ob('contract/graph/' + cat_, False, eng, s2, its, why[cat_])
        if any(w == 'bad' for st in by.values() for w, _, _ in st) or mixed:
            continue
        if len(full) == 1:
            cx.ob('contract/graph/' + cat_, True)
        elif len(full) == 0 and not unknown:
            cx.ob('contract/graph/' + cat_, False, eng, s, [], why[cat_])
        elif len(full) > 1:
            cx.put('contract/graph/' + cat_, 'undecided', 'edges are listed by more than one loop')


def unwrap(d):
    while d[0] in ('slice', 'enum', 'rev'):
        d = d[1]
    return d


def at_cycle(nest):
    """a loop over nodes of the cycle and, within, over the neighbors"""
    if len(nest) != 2 or nest[0].dom is None or nest[1].dom is None:
        return False
    b = unwrap(nest[1].dom)
    return b[0] == 'N' and b[1] == g and b[2][0] == 'at' and b[2][1] == CYC and mentions(b[2][2], lambda t: t == nest[0].k)


def edge_turn(cx, eng, n, cs, items, rec, phis, e, status, why):
    x, y = e
    for s in eng.assume(St(), cs):
        for s2, ix in eng.branch(s, has(CYC, x)):
            for s3, iy in eng.branch(s2, has(CYC, y)):
                if ix and iy:
                    cx.ob('contract/graph/inner', items == [], eng, s3, items, why['inner'])
                    continue
                if not ix and not iy:
                    a, b, kind = x, y, 'outer'
                else:
                    a, b, kind = (y if ix else x), ID, 'cross'
                there = [has(q, tup(*z)) for q in phis[-1:] for z in ((a, b), (b, a))]
                if kind == 'cross' and rec is not None and phis:
                    tracked = [has(q, a) for q in rec.phis if q not in phis and tracker_of(eng, q, rec, phis[-1])]
                else:
                    tracked = []
                sts = [(s3, False)]
                for f in there + tracked:
                    sts = [(s5, d or w) for s4, d in sts for s5, w in eng.branch(s4, f) if not (w and f in tracked and not d)]
                for s4, already in sts:
                    if len(items) == 1 and pair_is(eng, s4, items[0], a, b):
                        w = 'bad' if already else 'exact'
                    elif items == []:
                        # a loop can be in no matching
                        w = None if already or eng.eval3(s4, eq(x, y)) is True else 'none'
                    else:
                        w = 'bad'
                    if w:
                        status[kind].setdefault(n, []).append((w, s4, items))


def node_turn(cx, eng, n, cs, items, v, status, why):
    for s in eng.assume(St(), cs):
        for s2, inside in eng.branch(s, has(CYC, v)):
            if inside:
                cx.ob('contract/graph/inner', items == [], eng, s2, items, why['inner'])
                continue
            N = ('N', g, v)
            if items == []:
                touch = False
                for s3, x in C.elements(eng, s2, N):
                    touch = touch or bool(eng.assume(s3, [(has(CYC, x), True)]))
                status['cross'].setdefault(n, []).append(('none' if touch else 'exact', s2, items))
                continue
            good = len(items) == 1 and pair_is(eng, s2, items[0], v, ID)
            good = good and any(w and f[0] == 'has' and f[1] == CYC and f[2][0] == 'at' and f[2][1] == N for f, w in s2.facts.items())
            status['cross'].setdefault(n, []).append(('exact' if good else 'bad', s2, items))


def contract_pairing(cx):
    b, _ = fields(cx)
    st = St()
    me, pp = cell(st, 'self', b), cell(st, 'p', p)
    eng = cx.engine(raw={BLOSSOM}, axioms=[facts])
    eng, outs = cx.run(cx.m.inherent(BLOSSOM, 'contract_pairing'), [me, pp], st, eng=eng)
    why = {'outer': 'every pair of nodes outside the cycle must be kept', 'cross': 'a pair with one end inside the cycle must become a pair of the other end and the fresh node',
           'inner': 'pairs within the cycle must be dropped'}
    for k, s, v in outs:
        if k == 'panic':
            cx.ob('contract/pairing/fails', False, eng, s, [], 'the pairing must be collapsed: panics: %s' % (v,))
            continue
        base, log = pparts(v)
        if base != ('pempty',):
            cx.put('contract/pairing/start', 'undecided' if mentions(base, lambda t: t[0] in ('app', 'havoc')) else 'fail', 'the smaller pairing must start out empty: %s' % show(v)[:200])
            continue
        seen = {}
        bad = False
        for lp in loops(eng, log):
            if isinstance(lp, tuple):
                cx.ob('contract/pairing/pairs', False, eng, s, [] if lp[0] == '?' and lp[1][0] == 'phi' else [lp[1]], 'every pair must be considered, and no other nodes may be paired')
                bad = True
                continue
            for nest, cs, items, u, rec, phis in lp.turns:
                d = nest[0].dom if len(nest) == 1 else None
                while d is not None and d[0] in ('enum', 'rev'):
                    d = d[1]
                if d != ('pedges', p) or items is None:
                    cx.put('contract/pairing/pairs', 'fail' if d is not None and d[0] == 'slice' and d[1] == ('pedges', p) else 'undecided',
                           'pairs are gathered from %s' % [show(r.dom) if r.dom else '?' for r in nest])
                    bad = True
                    continue
                e = at(d, nest[0].k)
                x, y = fld(e, 0), fld(e, 1)
                for s2 in eng.assume(St(), cs):
                    for s3, ix in eng.branch(s2, has(CYC, x)):
                        for s4, iy in eng.branch(s3, has(CYC, y)):
                            kind = 'inner' if ix and iy else 'cross' if ix or iy else 'outer'
                            a, b_ = (x, y) if kind == 'outer' else ((y if ix else x), ID)
                            seen[kind] = True
                            good = items == [] if kind == 'inner' else len(items) == 1 and pair_is(eng, s4, items[0], a, b_)
                            if not good and items == [] and any(mentions(f, lambda t: t in phis) for f, _ in s4.path):
                                cx.put('contract/pairing/' + kind, 'undecided', 'pairs are passed over by what has been paired before')
                                continue
                            cx.ob('contract/pairing/' + kind, good, eng, s4, items, why[kind])
        for kind in ('outer', 'cross'):
            if kind not in seen and not bad:
                cx.ob('contract/pairing/' + kind, False, eng, s, [], why[kind])


# ------------------------------------------------------------------- expanding
def lift(cx):
    b, _ = fields(cx)
    st = St()
    me = cell(st, 'self', b)
    eng = cx.engine(raw={BLOSSOM}, axioms=[facts])
    eng, outs = cx.run(cx.m.inherent(BLOSSOM, 'lift'), [me, W, g], st, eng=eng)
    pos_ = {}
    L = Look(cx, eng)
    for k, s, v in outs:
        i = position(eng, s)
        if i is not None:
            pos_.setdefault(i, [])
            if k != 'panic' and v[0] == 'vfld' and v[1][0] == 'fold' or any(f[0] == 'isvar' and f[1][0] == 'fold' and w == (f[3] == 0) for f, w in s.path):
                # the search for a run has gone on to its end
                pos_[i].append(L.records([f for f, _ in s.path] + ([v] if k != 'panic' else [])))
        if k == 'panic':
            if i is not None and possible(eng, s, i):
                cx.ob('lift/fails', False, eng, s, [], 'the path must be expanded: panics: %s' % (v,))
            continue
        if i is None:
            for s2, w in eng.branch(s, has(W, ID)):
                if not w:
                    cx.ob('lift/absent', same_list(eng, s2, v, W), eng, s2, [v], 'a path without the fresh node must stay as it is')
                elif same_list(eng, s2, v, W):
                    cx.ob('lift/expanded', False, eng, s2, [v], 'the fresh node must be expanded')
                else:
                    cx.put('lift/expanded', 'undecided', 'not followed: %s' % show(v)[:300], s2)
            continue
        base = eng.assume(St(), [(f, w) for f, w in s.path if not mentions(f, lambda t: t[0] in ('phi', 'fold', 'k') and t != i) and f[0] != 'all'])
        for s0 in base[:1]:
            for s2, x in payloads(eng, s0, s, v, set()):
                expanded(cx, eng, s2, x, i)
    for i, rs in pos_.items():
        last = {}
        for r in eng.recs.values():
            last[(r.key, r.dom)] = r
        complete(cx, eng, i, list(last.values()))
        for x in rs:
            complete(cx, eng, i, x)


def possible(eng, s, i):
    """a panic that does not come from a search without result, from a node of
    the path or the cycle that is not in the graph, or from an empty cycle"""
    for f, w in s.path:
        if f[0] == 'hasnode' and f[1] == g and not w and f[2][0] == 'at':
            l, j = f[2][1:3]
            if perm(eng, l, set()) or l == W and eng.eval3(s, eq(i, j)) is False:
                return False
        if f[0] == 'isempty' and w and perm(eng, f[1], set()):
            return False
        if f[0] == 'all' and w:
            return False
    for r in eng.recs.values():
        if any(mentions(f, lambda t: t == r.k) for f, _ in s.path) and eng.eval3(s, pos(sub(length(CYC), r.k))) is False:
            # there is a neighbor somewhere on the cycle
            if r.backs and all(any(not w and any(x and mentions(x[1], lambda t: t == r.k) and perm(eng, x[0], set()) for x in (ends_with(f, before), ends_with(f, after))) for f, w in cs) for cs, _ in r.backs):
                return False
    return True


def steps(r):
    """by how many places a turn of the loop turns the cycle around"""
    for _, u in r.backs:
        for q, x in u.items():
            for t in T.subterms(x):
                if t[0] == 'rot' and t[1] == q:
                    yield t[2], sub(length(q), t[2])


def orient(eng, l, seen):
    if l == CYC:
        return {0}
    if l in seen:
        return set()
    seen.add(l)
    if l[0] == 'rev':
        return {1 - x for x in orient(eng, l[1], seen)}
    if l[0] == 'rot':
        return orient(eng, l[1], seen)
    if l[0] in ('phi', 'fold'):
        r = eng.recs[l[1]] if l[0] == 'fold' else owner(eng, l)
        q = l[2] if l[0] == 'fold' else l
        if r is None or q not in r.inits:
            return {0, 1}
        out = orient(eng, r.inits[q], seen)
        for _, u in r.backs:
            if q in u:
                x = u[q]
                out = out | orient(eng, x, seen)
                if any(t[0] == 'rev' for t in T.subterms(x)):
                    return {0, 1}
        return out
    return {0, 1}


def ends_with(f, w):
    """the other end of an edge at w, as (list, index)"""
    if f[0] == 'adj' and f[1] == g and w in f[2:4]:
        x = f[2] if f[3] == w else f[3]
        if x[0] == 'at':
            return x[1], x[2]
    return None


def complete(cx, eng, i, recs):
    """the search for a run of the cycle that joins both parts of the path
    passes over no run that would do"""
    before, after = at(W, sub(i, I(1))), at(W, add(i, I(1)))
    ways = set()
    outs, ins = [], []
    for r in recs:
        if r.dom is None:
            continue
        for cs, _ in r.backs:
            for f, w in cs:
                x = ends_with(f, after)
                if x and x[1] == r.k and perm(eng, x[0], set()):
                    outs.append((r, x[0]))
                x = ends_with(f, before)
                if x and perm(eng, x[0], set()) and any(mentions(x[0], lambda t: t == q) for q in r.inits):
                    ins.append((r, x[0]))
    if not outs:
        cx.put('lift/complete', 'undecided', 'the search for a run of the cycle is not followed')
        return
    for r, x in dict.fromkeys(outs):
        ways |= orient(eng, x, set())
        if not whole(r, x) and not whole(r, CYC):
            cx.ob('lift/complete', False, eng, St(), [], 'the run may end at any node of the cycle: the search takes %s' % show(r.dom)[:200])
            continue
        for cs, u in r.backs:
            for s in eng.assume(St(), cs):
                good = (eng.eval3(s, adj(g, at(x, r.k), after)) is False or eng.eval3(s, odd(add(length(W), r.k))) is True
                        or any(y[0] == 'agg' and y[1] == 'Option' and y[2] == 1 for y in u.values())
                        or any(w and f[0] == 'isvar' and f[1] in r.inits and f[3] == 1 for f, w in s.path)
                        or any(not w and ends_with(f, before) for f, w in s.path))
                cx.ob('lift/complete', good, eng, s, [], 'a run of the cycle that joins both parts of the path must not be passed over')
    for r in recs:
        for q in r.inits:
            turned = [any(t[0] == 'rot' and t[1] == q for t in T.subterms(u.get(q, q))) for _, u in r.backs]
            if any(turned) and r.dom is not None:
                cx.ob('lift/complete', all(turned), eng, St(), [], 'each node of the cycle must get its turn: it is not turned around every time')
        for ab in steps(r):
            c = [x[1] for x in ab if x[0] == 'i']
            if not c:
                cx.put('lift/complete', 'undecided', 'the cycle is turned around by %s places' % show(ab[0])[:200])
            else:
                # as the cycle is odd, by powers of two each node gets its turn
                n = c[0]
                cx.ob('lift/complete', n > 0 and n & (n - 1) == 0, eng, St(), [], 'each node of the cycle must get its turn: it is turned around by %d places at a time' % n)
    for r, x in dict.fromkeys(ins):
        if not whole(r, CYC) and not whole(r, x):
            d = r.dom
            while d[0] in ('enum', 'rev'):
                d = d[1]
            if d[0] == 'range' and d[1] == I(0) and d[2][0] == 'len':
                # as many turns as some other list is long
                if not perm(eng, d[2][1], set()):
                    continue
            else:
                cx.ob('lift/complete', False, eng, St(), [], 'the run may start at any node of the cycle: the search takes %s' % show(r.dom)[:200])
                continue
        for cs, u in r.backs:
            good = any(not w and ends_with(f, before) for f, w in cs) or any(f[0] == 'all' and w for f, w in cs) or any(mentions(y, lambda t: t[0] == 'fold') for y in u.values())
            cx.ob('lift/complete', good, eng, St(), [], 'a neighbor of the node before the cycle must not be passed over')
    cx.ob('lift/complete', ways == {0, 1}, eng, St(), [], 'the run may follow the cycle in either direction: the search tries one only')


def position(eng, s):
    """where the path has the fresh node"""
    for f, w in s.path:
        if w and f[0] == 'eq' and ID in f[1:3]:
            x = f[1] if f[2] == ID else f[2]
            if x[0] == 'at' and x[1] == W:
                return x[2]
    return None


def payloads(eng, s0, s, v, seen):
    """(state, list) for each way in which v comes about"""
    if v[0] == 'vfld' and v[2] == 1 and v[3] == 0:
        return options(eng, s0, v[1], seen)
    return [(s, v)]


def options(eng, s0, t, seen):
    out = []
    if t[0] == 'agg' and t[1] == 'Option':
        if t[2] == 1:
            x = t[3][0]
            out.extend(payloads(eng, s0, s0, x, seen))
    elif t[0] in ('fold', 'phi'):
        r = eng.recs[t[1]] if t[0] == 'fold' else owner(eng, t)
        q = t[2] if t[0] == 'fold' else t
        if r is None or q not in r.inits:
            return [(s0, ('app', 'not followed', (t,)))]
        key = (r.key, q)
        if key in seen:
            return out
        seen = seen | {key}
        if t[0] == 'fold':
            out.extend(options(eng, s0, t[3], seen))
        for cs, u in r.backs:
            if q in u:
                for s in eng.assume(s0, cs):
                    out.extend(options(eng, s, u[q], seen))
    else:
        out.append((s0, ('app', 'not followed', (t,))))
    return out


def expanded(cx, eng, s, v, i):
    """v is the path W with its i-th node replaced by a run of the cycle"""
    n = length(W)
    A, B = slice_(W, I(0), i), slice_(W, add(i, I(1)), n)
    ea = eng.eval3(s, eq(i, I(0))) is True or eng.eval3(s, lt(I(0), i)) is False or eng.eval3(s, isempty(A)) is True
    eb = eng.eval3(s, eq(add(i, I(1)), n)) is True or eng.eval3(s, lt(add(i, I(1)), n)) is False or eng.eval3(s, isempty(B)) is True
    ss = list(C.live_segs(eng, s, v))
    what = 'the path must keep its parts before and after the fresh node: got %s' % show(v)[:300]
    a = sum(1 for x in ss[:1] if same_list(eng, s, x, A))
    b = sum(1 for x in ss[-1:] if same_list(eng, s, x, B)) if len(ss) > a else 0
    mid = ss[a:len(ss) - b]
    fl = 0
    if (not a and not ea) or (not b and not eb):
        # reversed as a whole
        r = list(C.live_segs(eng, s, rev(v)))
        if r and (same_list(eng, s, r[0], A) or ea) and (same_list(eng, s, r[-1], B) or eb):
            mid = r[0 if ea else 1:len(r) if eb else len(r) - 1]
            fl = 1
        else:
            cx.ob('lift/kept', False, eng, s, [v], what)
            return
    cx.ob('lift/kept', True)
    X = mkL(mid)
    src = sources(eng, X) if mid else set()
    if src is None:
        cx.put('lift/inserted', 'undecided', 'not followed: %s' % show(X)[:300], s)
        return
    cx.ob('lift/inserted', src == {CYC}, eng, s, [], 'only nodes of the cycle may take the place of the fresh node: got %s' % show(X)[:300])
    if src != {CYC}:
        return
    m = length(X)
    if not ea:
        cx.ob('lift/joined', joined(eng, s, X, I(0), at(W, sub(i, I(1)))), eng, s, [], 'the run of the cycle must start at a neighbor of the node before it: got %s' % show(X)[:300])
    if not eb:
        cx.ob('lift/joined', joined(eng, s, X, sub(m, I(1)), at(W, add(i, I(1)))), eng, s, [], 'the run of the cycle must end at a neighbor of the node after it: got %s' % show(X)[:300])
    r = run(eng, X)
    if r is None:
        cx.put('lift/run', 'undecided', 'not followed: %s' % show(X)[:300], s)
        return
    if ea or eb:
        cx.ob('lift/even', r == 'all' or eng.eval3(s, eq(m, length(CYC))) is True, eng, s, [], 'all of the cycle must be inserted at an end of the path: got %s' % show(X)[:300])
    else:
        cx.ob('lift/even', eng.eval3(s, odd(add(n, sub(m, I(1))))) is False or eng.eval3(s, odd(length(v))) is False, eng, s, [],
              'an expanded path must have an even number of nodes: got %s' % show(X)[:300])


def joined(eng, s, l, j, w):
    if any(eng.eval3(s, adj(g, x, w)) is True for x in (at(l, j), elem(eng, s, l, j))):
        return True
    for s1 in eng.assume(s, [(lt(j, length(l)), True)]):
        for s2, x in eng.op_at(s1, l, j):
            if eng.eval3(s2, adj(g, x, w)) is not True:
                return False
    return True


def elem(eng, s, l, j):
    """the j-th element of l"""
    t = at(l, j)
    if t[0] == 'at' and t[1][0] == 'rot':
        _, l, a = t[1]
        n, q = length(l), add(a, t[2])
        w = eng.eval3(s, lt(q, n))
        if w is not None:
            return elem(eng, s, l, q if w else sub(q, n))
    return t


def run(eng, X):
    """'all' of the cycle, or a contiguous 'part' of it"""
    if X[0] == 'slice':
        return 'part' if run(eng, X[1]) else None
    if X[0] in ('rev', 'rot'):
        return run(eng, X[1]) if X[0] == 'rev' or run(eng, X[1]) == 'all' else None
    if X == CYC:
        return 'all'
    if X[0] == 'L' and len(X[1]) == 2 and all(x[0] == 'slice' for x in X[1]):
        p, q = X[1]                         # the cycle from some position on, and around
        if p[1] == q[1] and p[3] == length(p[1]) and q[2] == I(0) and p[2] == q[3]:
            return 'all' if run(eng, p[1]) == 'all' else None
    if X[0] in ('phi', 'fold'):
        ok_ = perm(eng, X, set())
        return 'all' if ok_ else None
    return None


def perm(eng, X, seen):
    """X is the cycle rotated or reversed"""
    if X == CYC or X in seen:
        return True
    seen.add(X)
    if X[0] in ('rev', 'rot'):
        return perm(eng, X[1], seen)
    if X[0] in ('phi', 'fold'):
        r = eng.recs[X[1]] if X[0] == 'fold' else owner(eng, X)
        q = X[2] if X[0] == 'fold' else X
        if r is None or q not in r.inits:
            return False
        return perm(eng, r.inits[q], seen) and all(perm(eng, u[q], seen) for _, u in r.backs if q in u)
    return False


def contraction(cx):
    new(cx)
    contract_graph(cx)
    contract_pairing(cx)
    lift(cx)
