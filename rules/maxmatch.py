"""Obligations on maximum matching: the driver, the search, and the forest and
marker that the search keeps its state in."""
from engine.terms import *
from engine import terms as T
from engine.interp import St, Unsupported
from engine.model import *
from engine.contract import haspair, marked, markede, infor, plog, pparts, pvalue, porder
from engine.compare import same, same_list, fresh
from engine import compare as C
from rules import matching as MT

g, p = ('var', 'g'), ('var', 'p')
b1 = ('bv', 960)


# ------------------------------------------------------------ finding the roles
def callees(f):
    """paths of local functions that a function calls or refers to"""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('local') and x.get('path'):
                out.append(x.get('resolved') if x.get('resolved_local') else x['path'])
            if x.get('k') == 'closure' and x.get('path'):
                out.append(x['path'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    if f.get('body'):
        walk(f['body']['blocks'])
    return out


def search_fn(cx):
    """the function that looks for an augmenting path: reached from
    maximum_matching, takes a graph and a pairing, returns a path or nothing"""
    top = cx.m.free(MAXMATCH)
    calls = {q: [c for c in callees(f) if c in cx.m.fns] for q, f in cx.m.fns.items()}

    def reach(a):
        seen, todo = [], list(calls.get(a, ()))
        while todo:
            q = todo.pop(0)
            if q in seen or q == top:
                continue
            seen.append(q)
            todo.extend(calls.get(q, ()))
        return seen

    def fits(q):
        f = cx.m.fns[q]
        return f['kind'] == 'fn' and tystr(f['output']) == 'Option<Vec<usize>>' and roles(f)[0] is not None and roles(f)[1] is not None
    near = [q for q in reach(top) if fits(q)]
    cyc = [q for q in near if q in reach(q)]
    if not (cyc or near):
        raise Missing('no function below maximum_matching takes a graph and a pairing and returns an optional path')
    return (cyc or near)[0]


def roles(f):
    """(index of the graph, index of the pairing) among the parameters"""
    gi = pi = None
    for i, t in enumerate(f['inputs']):
        while t.get('k') == 'ref':
            t = t['t']
        if t.get('k') == 'param' or tystr(t) == 'DefaultGraph':
            gi = i if gi is None else gi
        if t.get('path') == PAIRING:
            pi = i
    return gi, pi


def search_term(cx, sp):
    gi, pi = roles(cx.m.fns[sp])

    def h(eng, a, st, cs, span):
        out = []
        for s, G in eng.deref(st, a[gi]):
            for s2, P in eng.deref(s, a[pi]):
                t = ('search', G, pvalue(P))
                for s3, w in eng.branch(s2, isvar(t, 'Option', 1)):
                    out.append(('ret', s3, some(vfld(t, 1, 0)) if w else NONE))
        return out
    return h


def facts_axiom(eng, st, f):
    """nothing is found where a search found nothing before; a path found has
    an even number of nodes; an empty graph has no augmenting path"""
    if f[0] == 'isvar' and f[1][0] == 'search':
        G, P = f[1][1], f[1][2]
        if P[0] == 'maxed' and P[1] == G:
            return f[3] == 0
        if G[0] == 'var':
            for l in (('nodes', G), ('edges', G)):
                if eng.lookup(st, isempty(l)) is True or eng.lookup(st, pos(length(l))) is False:
                    return f[3] == 0
    if f[0] == 'isempty' and f[1][0] == 'fpath':
        return False
    if f[0] == 'odd' and len(f[1]) == 1 and f[1][0][0] == 'len' and f[1][0][1][0] == 'vfld' and f[1][0][1][1][0] == 'search':
        return False
    return None


# ------------------------------------------------------------------ the driver
def driver(cx):
    top = cx.m.free(MAXMATCH)
    sp = search_fn(cx)
    gi, pi = roles(cx.m.fns[top])
    if gi is None or pi is None:
        raise Missing('maximum_matching does not take a graph and a pairing')
    st = St()
    c = ('c', 'self')
    st.mem[c] = plog(p, NIL)
    args = [('var', 'x%d' % i) for i in range(len(cx.m.fns[top]['inputs']))]
    args[gi], args[pi] = g, ('ref', c, ())
    eng = cx.engine(inline={top}, axioms=[facts_axiom])
    eng.contract.special[sp] = search_term(cx, sp)

    def again(eng, a, st, cs, span):
        out = []
        for s, G in eng.deref(st, a[gi]):
            for s2, P in eng.deref(s, a[pi]):
                out.extend(('ret', s3, UNIT) for s3 in eng.write_ref(s2, a[pi], plog(('maxed', G, pvalue(P)), NIL)))
        return out
    eng.contract.recurse[top] = again
    eng, outs = cx.run(top, args, st, eng=eng)
    for k, s, v in outs:
        if k == 'panic':
            continue
        P = pvalue(s.mem[c])
        done = eng.eval3(s, isvar(('search', g, P), 'Option', 1)) is False
        done = done or few_free(eng, s, P)
        size = by_size(eng, s, P) if not done else None
        if not done and size is None and any(mentions(f, lambda t: t[0] == 'porder') for f, _ in s.path):
            cx.put('driver/exhausted', 'undecided', 'stops by the size of the matching', s)
        else:
            done = done or size is True
            cx.ob('driver/exhausted', done, eng, s, [P], 'maximum matching may return only after a search over the final pairing found nothing', through=True)
        history(cx, eng, P, s, set())
        valid_history(cx, eng, P, s, set())


def valid_history(cx, eng, P, s, seen):
    """nothing is done to the pairing but joining nodes without mate that an
    edge joins, and augmenting with what a search found"""
    while True:
        if P in seen:
            return
        seen.add(P)
        if P == p or P == plog(p, NIL):
            cx.ob('valid/changes', True)
            return
        if P[0] == 'maxed':
            P = P[2]
            continue
        if P[0] == 'aug':
            f = vfld(('search', g, P[1]), 1, 0)
            good = P[2] == f or same_list(eng, s, P[2], rev(f))
            if not good and not mentions(P[2], lambda t: t == f):
                cx.put('valid/changes', 'undecided', 'not followed: %s' % show(P)[:300], s)
            else:
                cx.ob('valid/changes', good, eng, s, [P[2]], 'augmenting with part of a path would leave a node without its mate', through=True)
            P = P[1]
            continue
        q = stepwise(P)
        if q is not None:
            MT.pairs_up(cx, eng, s, q[1], q[2], 'valid/changes')
            P = q[0]
            continue
        B, X = pparts(P)
        ss = T.segs(X)
        if ss and ss[-1][0] == 'one':
            x, y = (fld(ss[-1][1], i) for i in (0, 1))
            P = pvalue(plog(B, mkL(ss[:-1])))
            for s2, e in eng.branch(s, adj(g, x, y)):
                for s3, v in eng.branch(s2, haspair(P, x)):
                    for s4, w in eng.branch(s3, haspair(P, y)):
                        # who had a mate keeps it
                        kept = e and not v and not w or v and eng.eval3(s4, eq(y, ('mate', P, x))) is True
                        cx.ob('valid/changes', kept and eng.eval3(s4, eq(x, y)) is False, eng, s4, [x, y], 'only nodes without mate that an edge joins may be paired directly', through=True)
            continue
        t = turns(eng, P)
        if t is not None:
            for cs, P2 in t[1]:
                for s2 in eng.assume(St(), cs):
                    valid_history(cx, eng, P2, s2, seen)
            P = t[0]
            continue
        cx.put('valid/changes', 'undecided', 'not followed: %s' % show(P)[:300], s)
        return


def turns(eng, P):
    """a pairing that comes out of a loop, or is what a turn of it starts with:
    the pairing before the loop, and those that its turns end with"""
    B, X = pparts(P)
    t = X if X != NIL else B
    r = eng.recs.get(t[1]) if t[0] == 'fold' else owner(eng, t) if t[0] == 'phi' else None
    if r is None or (t[2] if t[0] == 'fold' else t) not in r.inits:
        return None

    def within(q, u):
        q = q[2] if q[0] == 'fold' and eng.recs.get(q[1]) is r else q
        return u.get(q, q)
    start = pvalue(plog(within(B, {}), within(X, {})))
    backs = [(cs, pvalue(plog(within(B, u), within(X, u)))) for cs, u in r.backs]
    return pvalue(plog(within(B, r.inits), within(X, r.inits))), [(cs, q) for cs, q in backs if q != start]


def stepwise(P):
    """a pairing that was made by pairing the nodes of a path that a search over
    an earlier one found: that, the pairs, the path"""
    B, X = pparts(P)
    ss = T.segs(X)
    for i in range(len(ss)):
        P0 = pvalue(plog(B, mkL(ss[:i])))
        path = vfld(('search', g, P0), 1, 0)
        if all(mentions(x, lambda t: t == path) for x in ss[i:]):
            return P0, mkL(ss[i:]), path


def few_free(eng, s, P):
    """is at most one node without mate: no path can be found"""
    for d, bv, cases in s.foralls:
        if d == ('nodes', g) and cases and all(any(v and f == haspair(P, bv) for f, v in c) for c, _ in cases):
            return True
    free = fmap(('nodes', g), b1, ((((haspair(P, b1), False),), (b1,)), (((haspair(P, b1), True),), ())))
    return eng.eval3(s, lt(length(free), I(2))) is True


def by_size(eng, s, P):
    """a path that is taken by how many nodes and edges the graph has and how
    many nodes are paired: True, it leaves at most one node without mate, so no
    path can add to the pairing; False, it is taken by a graph in which an edge
    joins two nodes without mate; None, it also depends on other things"""
    n, m, o = length(('nodes', g)), length(('edges', g)), ('porder', P)
    while o[1][0] == 'aug':
        o = ('porder', o[1][1])
    more = sub(porder(P), o)
    if more[0] != 'i':
        return None
    more = more[1]
    if not any(mentions(f, lambda t: t == o) for f, _ in s.path):
        return None
    if eng.eval3(s, lt(add(o, I(1 + more)), n)) is False:
        return True
    tests = []
    for f, w in s.path:
        if f[0] == 'isvar' and f[1][0] == 'search' and f[1][1] == g and w == (f[3] == 1):
            continue            # some path was found earlier: some nodes are paired
        if f[0] == 'isempty' and f[1] in (('nodes', g), ('edges', g)):
            c, d = 0, {length(f[1]): 1}
            w = not w
        elif f[0] == 'pos':
            c, d = f[1], dict(f[2])
        elif f[0] == 'odd' and set(f[1]) <= {n, m, o}:
            tests.append((None, {t: 1 for t in f[1]}, w))
            continue
        elif f[0] == 'ovf' and not w:
            continue
        else:
            return None
        if not set(d) <= {n, m, o}:
            return None
        tests.append((c, d, w))
    far = [abs(c or 0) + 2 for c, _, _ in tests]
    for nn in range(2, min(60, max(far) + 8)):
        for oo in range(2 if len(tests) < len(s.path) else 0, nn - 1 - more, 2):
            top = nn * (nn - 1) // 2
            for mm in sorted({x for x in list(range(oo // 2 + 1, oo // 2 + 12)) + [y + z for y in far for z in (-2, -1, 0, 1)] + [top - 1, top] if oo // 2 < x <= top}):
                val = {n: nn, m: mm, o: oo}
                if all(((sum(v * val[t] for t, v in d.items()) % 2 == 1) if c is None else (c + sum(v * val[t] for t, v in d.items()) > 0)) is w for c, d, w in tests):
                    return False
    return None


def history(cx, eng, P, s, seen):
    """the pairing changes by nothing but whole paths that a search over it found"""
    why = 'the pairing may change only by augmenting it with the whole path that a search over it found'
    while True:
        if P in seen:
            return
        seen.add(P)
        if P == p or P == plog(p, NIL):
            cx.ob('driver/changes', True)
            return
        if P[0] == 'maxed':
            P = P[2]
            continue
        if P[0] == 'aug':
            f = vfld(('search', g, P[1]), 1, 0)
            cx.ob('driver/changes', P[2] == f or same_list(eng, s, P[2], rev(f)), eng, s, [P[2]], why, through=True)
            P = P[1]
            continue
        q = stepwise(P)
        if q is not None:
            MT.pairs_up(cx, eng, s, q[1], q[2], 'driver/changes')
            P = q[0]
            continue
        t = turns(eng, P)
        if t is not None:
            for cs, P2 in t[1]:
                for s2 in eng.assume(St(), cs):
                    history(cx, eng, P2, s2, seen)
            P = t[0]
            continue
        if P[0] == 'agg' and P[1] == '#pairing':
            cx.ob('driver/changes', P[3][1] == NIL, eng, s, [P], why, through=True)
            P = P[3][0]
            continue
        cx.put('driver/changes', 'undecided', 'not followed: %s' % show(P)[:300])
        return


def owner(eng, phi):
    """the last loop summary with this variable"""
    for i in sorted(eng.recs, reverse=True):
        if phi in eng.recs[i].inits:
            return eng.recs[i]
    return None


# ------------------------------------------------------------------ the search
class Look:
    """one analysis of the search"""

    def __init__(self, cx, eng):
        self.cx, self.eng = cx, eng

    def kind(self, t):
        seen = set()
        while t not in seen:
            seen.add(t)
            h = t[0]
            if h in ('fnil', 'froot', 'fedge'):
                return 'forest'
            if h in ('mknil', 'mkn', 'mke'):
                return 'marker'
            if h == 'fold':
                t = t[3]
            elif h == 'phi':
                r = owner(self.eng, t)
                if r is None:
                    return None
                t = r.inits[t]
            else:
                return None
        return None

    def layers(self, t, stop):
        """what is added to stop in t (outermost first), and where that ends"""
        out = []
        while t != stop:
            if t[0] in ('froot', 'fedge', 'mkn', 'mke'):
                out.append(t)
                t = t[1]
            elif t[0] == 'fold':
                out.append(t)
                t = t[3]
            elif t[0] == 'phi':
                r = owner(self.eng, t)
                if r is None:
                    break
                out.append(t)
                t = r.inits[t]
            else:
                break
        return out, t

    def records(self, terms):
        """loop summaries that the terms depend on"""
        recs, todo, seen = [], list(terms), set()
        while todo:
            t = todo.pop()
            for x in T.subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                r = self.eng.recs.get(x[1]) if x[0] == 'fold' else owner(self.eng, x) if x[0] == 'phi' else None
                if r is None or any(r is q for q in recs):
                    continue
                recs.append(r)
                todo.extend(r.inits.values())
                for c, u in r.backs:
                    todo.extend(u.values())
                    todo.extend(f for f, _ in c)
        return recs


def search(cx):
    sp = search_fn(cx)
    f = cx.m.fns[sp]
    gi, pi = roles(f)
    st = St()
    c = ('c', 'self')
    st.mem[c] = plog(p, NIL)
    args = [('var', 'x%d' % i) for i in range(len(f['inputs']))]
    args[gi], args[pi] = g, ('ref', c, ())
    eng = cx.engine(inline={sp}, axioms=[facts_axiom])
    eng.contract.recurse[sp] = search_term(cx, sp)
    eng, outs = cx.run(sp, args, st, eng=eng)
    L = Look(cx, eng)
    roots = []
    for k, s, v in outs:
        if k == 'panic':
            continue
        cx.ob('search/pairing', s.mem[c] == plog(p, NIL), eng, s, [s.mem[c]], 'a search must leave the pairing as it is')
        for s2, found in eng.branch(s, isvar(v, 'Option', 1)):
            if found:
                some_path(cx, L, s2, v)
            else:
                nothing(cx, L, s2)
    terms = [t for k, s, v in outs if k == 'ret' for t in [f for f, _ in s.path] + [v]]
    recs = L.records(terms)
    rooted = False
    for r in recs:
        for phi in r.phis:
            kd = L.kind(phi)
            for cs, u in r.backs:
                if phi not in u:
                    continue
                ls, base = L.layers(u[phi], phi)
                if base != phi and kd:
                    cx.put('search/state', 'undecided', 'the %s is replaced: %s' % (kd, show(u[phi])[:300]))
                elif kd == 'marker':
                    marks(cx, L, r, cs, u, ls)
                elif kd == 'forest':
                    grown(cx, L, cs, ls)
        rooted = roots_of(cx, L, r) or rooted
    if not rooted:
        forests = {t for r in recs for t in r.phis if L.kind(t) == 'forest'} | {t for x in terms for t in T.subterms(x) if t == ('fnil',)}
        loops = [r for r in recs if any(L.kind(t) == 'forest' for t in r.phis)]
        cx.put('search/roots', 'fail' if forests and not any(mentions_root(u) for r in recs for _, u in r.backs) else 'undecided',
               'no loop that plants a root for every unpaired node was found')


def mentions_root(u):
    return any(mentions(t, lambda x: x[0] in ('froot', 'app', 'havoc')) for t in u.values())


def blossoms(s, want):
    """searches over a contracted graph whose outcome is known on the path"""
    return [f[1] for f, v in s.path if f[0] == 'isvar' and f[1][0] == 'search' and v == (want == (f[3] == 1)) and f[1][1][0] == 'cgraph']


def nothing(cx, L, s):
    """nothing is found only when all even nodes are done, or the smaller
    problem has no path"""
    eng = L.eng
    bs = blossoms(s, False)
    if bs:
        for t in bs:
            blossom(cx, L, s, t)
        return
    done = False
    for d, bv, cases in s.foralls:
        if d[0] == 'evens' and L.kind(d[1]) == 'forest' and cases and all(any(v and f[0] == 'mark' and f[2] == bv for f, v in c) for c, _ in cases):
            done = True
    if not done:
        for l in (('nodes', g), ('edges', g)):
            if eng.eval3(s, isempty(l)) is True:
                done = True
    if not done and any(L.kind(f[1][1]) == 'forest' for f, v in s.path if v and f[0] == 'isempty' and f[1][0] == 'evens'):
        done = True             # no roots at all
    done = done or few_free(eng, s, p)
    what = 'nothing may be reported before every node at even distance has been examined'
    size = by_size(eng, s, p) if not done else None
    if not done and size is None and any(mentions(f, lambda t: t[0] == 'porder') for f, _ in s.path):
        cx.put('search/none', 'undecided', 'stops by the size of the matching', s)
    else:
        done = done or size is True
        cx.ob('search/none', done, eng, s, [], what)


def blossom(cx, L, s, t):
    """the smaller problem is that of an odd cycle through the examined edge"""
    eng = L.eng
    G, P = t[1], t[2]
    b = G[1]
    good = b[0] == 'blossom' and G == ('cgraph', b, g) and P[0] == 'cpair' and P[1] == b and pvalue(P[2]) == p
    cx.ob('search/blossom/problem', good, eng, s, [G, P], 'the smaller graph and the smaller pairing must be contracted by the same cycle from this graph and pairing', through=True)
    if not good:
        return
    cx.ob('search/blossom/fresh', eng.eval3(s, ('hasnode', g, b[1])) is False, eng, s, [b[1]], 'the node that stands for the cycle must not be a node of the graph')
    ends_ = tree_paths(L, b[2]), tree_paths(L, b[3])
    if ends_[0] is None or ends_[1] is None:
        cx.put('search/blossom/cycle', 'undecided', 'not followed: %s' % show(b)[:300])
        return
    x, y = ends_
    cx.ob('search/blossom/cycle', joined(eng, s, x, y), eng, s, [b], 'the ends of the two halves of the cycle must be joined by an edge')
    same_tree = roots_same(eng, s, x, y)
    why = 'the halves of the cycle must belong to the same tree'
    if same_tree is None and any(mentions(f, lambda t: t == x) and mentions(f, lambda t: t == y) for f, _ in s.path if not mentions(f, lambda t: t[0] == 'blossom')):
        cx.put('search/blossom/cycle', 'undecided', why, s)
    else:
        cx.ob('search/blossom/cycle', same_tree is True, eng, s, [b], why)


def tree_paths(L, t):
    """(forest, node) of a path to the root"""
    if t[0] == 'fpath' and L.kind(t[1]) == 'forest':
        return t
    return None


def joined(eng, s, x, y):
    return eng.eval3(s, adj(g, x[2], y[2])) is True


def last(l):
    return at(l, sub(length(l), I(1)))


def roots_same(eng, s, x, y):
    return eng.eval3(s, eq(last(x), last(y)))


def some_path(cx, L, s, v):
    eng = L.eng
    bs = blossoms(s, True)
    w = vfld(v, 1, 0)
    if not bs:
        bs = [t for t in T.subterms(v) if t[0] == 'search' and t[1][0] == 'cgraph']
    if bs:
        for t in bs:
            blossom(cx, L, s, t)
        lifted(cx, L, s, w, bs)
        return
    ps = [t for t in T.subterms(w) if t[0] == 'fpath']
    ps = [t for i, t in enumerate(ps) if t not in ps[:i]]
    good = False
    for x in ps:
        for y in ps:
            if x != y and same_list(eng, s, w, cat(rev(x), y)):
                good = True
                cx.ob('search/path/edge', joined(eng, s, x, y), eng, s, [w], 'the two halves of a path must be joined by an edge')
                r = roots_same(eng, s, x, y)
                cx.ob('search/path/roots', r is False, eng, s, [w], 'the two halves of a path must end in different roots')
                for z in (x, y):
                    cx.ob('search/path/even', even(L, s, z), eng, s, [z], 'both halves of a path must start at even distance')
                break
        if good:
            break
    cx.ob('search/path/whole', good, eng, s, [w], 'the path found must run from one root to the examined edge and from there to the other root')


def even(L, s, x):
    eng = L.eng
    return is_even(x[1], x[2]) or eng.eval3(s, odd(length(x))) is True or eng.eval3(s, has(('evens', x[1]), x[2])) is True


def is_even(F, v):
    """v is listed among even nodes (of this forest or an earlier state of it)"""
    return v[0] == 'at' and v[1][0] == 'evens'


def lifted(cx, L, s, w, bs):
    """the result is the lifted path of the smaller problem, possibly with
    detours dropped"""
    eng = L.eng
    t = bs[0]
    want = ('lift', t[1][1], vfld(t, 1, 0), g)
    if any(d == want and cases and all(any(v and f == haspair(p, bv) for f, v in c) for c, _ in cases) for d, bv, cases in s.foralls):
        return                  # the ends of an augmenting path are not paired
    if same(eng, s, w, want) or same(eng, s, w, rev(want)):
        cx.ob('search/blossom/lift', True)
        cx.put('valid/walk', 'undecided', 'whether every expanded path alternates is not known', s)
        return
    if not mentions(w, lambda x: x == want) and not any(mentions(x, lambda y: y == want) for r in L.records([w]) for _, u in r.backs for x in u.values()):
        cx.put('search/blossom/lift', 'fail' if not mentions(w, lambda x: x[0] in ('app', 'havoc', 'rec')) else 'undecided',
               'the path found in the smaller problem must be expanded: got %s' % show(w)[:300], s)
        return
    rerouted(cx, L, s, w, want)


def rerouted(cx, L, s, w, want):
    """a walk along the pairs that augmenting with the lifted path would make,
    from one free end to the other"""
    eng = L.eng
    A = ('aug', ('pempty',), want)
    rs = [r for r in L.records([w]) if any(mentions(x, lambda y: y == A) for _, u in r.backs for x in u.values())]
    rs = [r for r in rs if any(r.inits[q] == NIL for q in r.phis)]
    if len(rs) != 1:
        cx.put('search/blossom/walk', 'undecided', 'not followed: %s' % show(w)[:300])
        return
    r = rs[0]
    lp = [q for q in r.phis if r.inits[q] == NIL][0]
    nx = [q for q in r.phis if q != lp]

    def option(q):
        return any(t[0] == 'agg' and t[1] == 'Option' for t in [r.inits[q]] + [u[q] for _, u in r.backs if q in u])
    for q in nx:
        n = r.inits[q]
        x = n
        s0 = s
        if option(q):
            if eng.eval3(s, isvar(n, 'Option', 1)) is False:
                continue
            x = vfld(n, 1, 0)
            for f in eng.assume(s, [(isvar(n, 'Option', 1), True)]):
                s0 = f
        cx.ob('valid/walk/start', eng.eval3(s0, haspair(p, x)) is False, eng, s0, [x], 'a rerouted path must start at a node without mate')
    for e in r.exits:
        for q in nx:
            if e[0] not in ('exit', 'ret') or option(q):
                continue
            for s2 in eng.assume(St(), e[1]):
                cx.ob('search/blossom/walk', eng.eval3(s2, haspair(p, ('mate', A, q))) is False, eng, s2, [], 'a rerouted path must go on exactly while the node reached was paired')
    for cs, u in r.backs:
        t = u.get(lp, lp)
        ss = T.segs(t)
        new = [x[1] for x in ss[1:] if x[0] == 'one']
        if ss[:1] not in ((lp,), [lp]) or len(new) != 2 or len(ss) != 3:
            plain = [x for x in ss if x != lp and x[0] != 'one'] == [] and len([x for x in ss if x == lp]) == 1
            if plain and any(tuple(T.segs(u2.get(lp, lp)))[:1] == (lp,) and [x[0] for x in T.segs(u2.get(lp, lp))[1:]] == ['one', 'one'] for _, u2 in r.backs):
                # other turns add a pair
                for s2 in eng.assume(St(), cs)[:1]:
                    cx.ob('search/blossom/walk', False, eng, s2, [t], 'each turn must add the node reached and its new mate')
                continue
            cx.put('search/blossom/walk', 'undecided', 'not followed: %s' % show(t)[:300])
            continue
        x, y = new
        for s2 in eng.assume(St(), cs):
            cx.ob('search/blossom/walk', same(eng, s2, y, ('mate', A, x)), eng, s2, [y], 'a rerouted path must follow the new pairs')
            for q in nx:
                n = u.get(q, q)
                if not option(q):
                    cx.ob('search/blossom/walk', same(eng, s2, n, ('mate', p, y)), eng, s2, [n], 'a rerouted path must continue with the former mate')
                    continue
                for s3, more in eng.branch(s2, isvar(n, 'Option', 1)):
                    hp = eng.eval3(s3, haspair(p, y))
                    cx.ob('search/blossom/walk', more == hp, eng, s3, [n], 'a rerouted path must go on exactly while the node reached was paired')
                    if more:
                        cx.ob('search/blossom/walk', same(eng, s3, vfld(n, 1, 0), ('mate', p, y)), eng, s3, [n], 'a rerouted path must continue with the former mate')


def marks(cx, L, r, cs, u, ls):
    """what a turn marks has been dealt with"""
    eng = L.eng
    for m in ls:
        if m[0] == 'mkn':
            node_mark(cx, L, r, cs, m)
        elif m[0] == 'mke':
            edge_mark(cx, L, r, cs, u, m)


def grown(cx, L, cs, ls):
    """the forest grows along edges of the graph, away from nodes at even
    distance, and along pairs away from the others"""
    eng = L.eng
    for s in eng.assume(St(), cs):
        new = []
        for t in reversed(ls):
            if t[0] != 'fedge':
                continue
            x, y = t[2], t[3]
            if any(same(eng, s, x, z) for z in new):
                cx.ob('valid/forest/pair', same(eng, s, y, ('mate', p, x)) or eng.eval3(s, eq(y, ('mate', p, x))) is True, eng, s, [x, y],
                      'a node at odd distance may lead only to its mate')
            elif is_even(t[1], x) or eng.eval3(s, has(('evens', t[1]), x)) is True:
                cx.ob('valid/forest/edge', eng.eval3(s, adj(g, x, y)) is True, eng, s, [x, y], 'the forest may grow only along edges of the graph')
                new.append(y)
            else:
                cx.put('valid/forest', 'undecided', 'not followed: %s' % show(t)[:300], s)


def node_mark(cx, L, r, cs, m):
    eng = L.eng
    M, v = m[1], m[2]
    what = 'a node may be marked as examined only when each of its edges has been'
    for s in eng.assume(St(), cs):
        done = True
        n = ('N', g, v)
        for s2, x in C.elements(eng, s, n):
            # nothing comes of a loop at the node itself
            if any(eng.eval3(s3, markede(M, v, x)) is not True for s3 in eng.assume(s2, [(eq(x, v), False)])):
                done = False
        if not done:
            done = all_turns(L, M, n, v)
        cx.ob('search/marks/node', done, eng, s, [], what)


def all_turns(L, M, n, v):
    """the marks M come out of a loop over all neighbors that marks each"""
    eng = L.eng
    for t in L.layers(M, None)[0]:
        if t[0] != 'fold':
            continue
        r = eng.recs[t[1]]
        if r.dom is None or r.dom != n:
            continue
        ok_ = True
        for cs, u in r.backs:
            got = u.get(t[2], t[2])
            for s in eng.assume(St(), cs):
                x = at(n, r.k)
                if any(eng.eval3(s2, markede(got, v, x)) is not True for s2 in eng.assume(s, [(eq(x, v), False)])):
                    ok_ = False
        if ok_:
            return True
    return False


def edge_mark(cx, L, r, cs, u, m):
    eng = L.eng
    for s in eng.assume(St(), cs):
        x, y = m[2], m[3]
        why = 'an edge may be marked as examined only if it is a pair, leads to an odd node of the forest, or has made the forest grow'
        cx.ob('search/marks/edge', any(dealt(L, r, s, u, v, w) for v, w in ((x, y), (y, x))), eng, s, [x, y], why)


def dealt(L, r, s, u, v, w):
    eng = L.eng
    if eng.eval3(s, eq(v, w)) is True:
        return True     # no augmenting path takes a loop
    pe = ('pedges', plog(p, NIL)), ('pedges', p)
    if v[0] == 'fld' and w == ('fld', v[1], 1 - v[2]) and v[1][0] == 'at' and v[1][1] in pe:
        return True
    if eng.eval3(s, haspair(p, v)) is True and eng.eval3(s, eq(w, ('mate', p, v))) is True:
        return True
    if blossoms(s, False):
        return True
    fs = {t[1] for f, _ in s.path for t in T.subterms(f) if t[0] in ('infor', 'fpath', 'evens')} | {q for q in r.phis if L.kind(q) == 'forest'}
    for F in fs:
        if F[0] != 'fnil' and eng.eval3(s, infor(F, w)) is True and (eng.eval3(s, odd(length(('fpath', F, w)))) is False or eng.eval3(s, has(('evens', F), w)) is False):
            return True
    for q in r.phis:
        if L.kind(q) == 'forest' and q in u:
            ls, base = L.layers(u[q], q)
            es = [(t[2], t[3]) for t in ls if t[0] == 'fedge']
            if base == q and any(same(eng, s, a, v) and same(eng, s, b, w) for a, b in es) and any(same(eng, s, a, w) and same(eng, s, b, ('mate', p, w)) for a, b in es):
                return True
    return False


def roots_of(cx, L, r):
    """a loop that plants roots: all unpaired nodes, no others"""
    eng = L.eng
    ph = [q for q in r.phis if L.kind(q) == 'forest' and any(any(t[0] == 'froot' for t in L.layers(u.get(q, q), q)[0]) for _, u in r.backs)]
    if not ph:
        return False
    q = ph[0]
    d = r.dom
    if d is None:
        cx.put('search/roots', 'undecided', 'roots are planted in a loop that the analysis does not follow')
        return True
    k = r.k
    while d[0] in ('enum', 'rev'):
        d = d[1]
    full = d == ('nodes', g) or d == ('range', I(0), length(('nodes', g)))
    part = d[0] == 'slice' and d[1] == ('nodes', g)
    if not full:
        cx.put('search/roots', 'fail' if part else 'undecided', 'the loop that plants roots runs over %s instead of all nodes' % show(d)[:200])
        return True
    if any(x[0] not in ('exhausted', 'panic') for x in r.exits):
        cx.put('search/roots', 'fail' if not any(mentions(f, lambda t: t[0] in ('app', 'havoc')) for _, c in r.exits for f, _ in c) else 'undecided',
               'the loop that plants roots may end before all nodes were considered')
    v = at(('nodes', g), k) if r.dom[0] != 'rev' else at(r.dom, k)
    for cs, u in r.backs:
        for s in eng.assume(St(), cs):
            ls, base = L.layers(u.get(q, q), q)
            rs = [t for t in ls if t[0] == 'froot']
            if base != q or len(rs) != len(ls) or len(rs) > 1:
                cx.put('search/roots', 'undecided', 'not followed: %s' % show(u[q])[:300])
                continue
            if rs:
                cx.ob('valid/root', eng.eval3(s, haspair(p, rs[0][2])) is False, eng, s, [rs[0][2]], 'only unpaired nodes may be roots')
                cx.ob('search/roots', same(eng, s, rs[0][2], v) and eng.eval3(s, haspair(p, v)) is False, eng, s, [rs[0][2]], 'only unpaired nodes may be roots')
            else:
                # a free node without edges makes no difference
                free = eng.assume(s, [(haspair(p, v), False), (isempty(('N', g, v)), False)])
                cx.ob('search/roots', not free, eng, s, [v], 'every unpaired node must become a root')
    return True


# ------------------------------------------------------------ marker and forest
def raw_state(cx, adt, pre):
    """an arbitrary value of a private type: one variable per field"""
    return ('agg', adt, 0, tuple(('var', '%s%d' % (pre, i)) for i in range(len(cx.m.fields(adt)))))


def ask_marker(cx, eng, s, m, name, args):
    path = cx.m.inherent(MARKER, name)
    s2 = s.copy()
    c = ('c', 'q' + name)
    s2.mem[c] = m
    return [(s3, v) for k, s3, v in eng.call_path(path, [('ref', c, ())] + args, s2) if k == 'ret']


def marker(cx):
    """nothing counts as marked but what was"""
    a, b, y, z = ('var', 'a'), ('var', 'b'), ('var', 'y'), ('var', 'z')

    def ask(eng, s, m, name, args):
        return ask_marker(cx, eng, s, m, name, args)
    m0 = raw_state(cx, MARKER, 'mk')
    eng, outs = cx.run(cx.m.inherent(MARKER, 'new'), [], raw={MARKER})
    for k, s, v in outs:
        if k != 'ret':
            continue
        for name, args in (('has_node', [z]), ('has_edge', [y, z])):
            for s2, r in ask(eng, s, v, name, args):
                cx.ob('marker/new', eng.eval3(s2, r) is False, eng, s2, [v, r], 'nothing is marked at the start')
    for op, args in (('mark_node', [a]), ('mark_edge', [a, b])):
        st = St()
        me = cell(st, 'self', m0)
        eng, outs = cx.run(cx.m.inherent(MARKER, op), [me] + args, st, raw={MARKER})
        for k, s, v in outs:
            if k != 'ret':
                continue
            m1 = s.mem[me[1]]
            for name, qs in (('has_node', [z]), ('has_edge', [y, z])):
                for s2, r1 in ask(eng, s, m1, name, qs):
                    for s3, w in eng.branch(s2, r1):
                        if not w:
                            continue
                        mine = FALSE
                        if op == 'mark_node' and name == 'has_node':
                            mine = eq(a, z)
                        if op == 'mark_edge' and name == 'has_edge':
                            mine = f_or(f_and(eq(a, y), eq(b, z)), f_and(eq(b, y), eq(a, z)))
                        for s4, w4 in eng.branch(s3, mine):
                            if w4:
                                continue
                            for s5, r0 in ask(eng, s4, m0, name, qs):
                                cx.ob('marker/' + op, eng.eval3(s5, r0) is True, eng, s5, [m1, r1, r0], '%s must not hold for what has not been marked' % name)


def forest(cx):
    mi = cx.m.field_index(FOREST, lambda f: tystr(f['ty']).split('<')[0] in ('HashMap', 'BTreeMap'), 'a map from node to its place')
    ni = cx.m.field_index(FOREST, lambda f: tystr(f['ty']) == 'Vec<usize>', 'the list of nodes', 'nodes')
    vt = cx.m.fields(FOREST)[mi]['ty']['args'][1]
    if vt.get('k') != 'adt' or vt['path'] not in cx.m.adts:
        raise Missing('the places of a forest are of a type that is not followed')
    ent = vt['path']
    pai = cx.m.field_index(ent, lambda f: tystr(f['ty']) == 'Option<usize>', 'the parent')
    pri = cx.m.field_index(ent, lambda f: tystr(f['ty']) != 'Option<usize>', 'the parity', 'parity')
    pt = cx.m.fields(ent)[pri]['ty']
    FP, FN = ('var', 'FP'), ('var', 'FN')
    F0 = ('agg', FOREST, 0, cx.m.blank(FOREST, {mi: FP, ni: FN}))
    a, b, z = ('var', 'a'), ('var', 'b'), ('var', 'z')

    def place(x):
        return ('mget', FP, x)

    def invariant(eng, st, f):
        # listed nodes have a place; the parent of a node has a place
        if f[0] == 'has' and f[1] == FP:
            x = f[2]
            if x[0] == 'at' and x[1] == FN:
                return True
            if x[0] == 'vfld' and (x[1][0] == 'phi' or x[1][0] == 'fld' and x[1][1][0] == 'phi' and x[1][2] == pai):
                return True     # what a walk has reached, see walk_up
            if x[0] == 'vfld' and x[1][0] == 'fld' and x[1][2] == pai and x[1][1][0] == 'mget' and x[1][1][1] == FP:
                return True
            if st.facts.get(has(FN, x)) is True:
                return True
            return None
        if f[0] == 'ovf' and mentions(f, lambda t: t[0] == 'fld' and t[2] == pri and t[1][0] == 'mget' and t[1][1] == FP):
            return False            # a depth is below the number of nodes
        if f[0] == 'has' and f[1] == FN:
            return st.facts.get(has(FP, f[2]))
        return None

    def is_even(eng, s, pr, evenv):
        """branch on the parity value pr being the root's"""
        if evenv[0] == 'i':
            return eng.branch(s, f_not(odd(pr)))
        if evenv[0] == 'agg':
            if pr[0] == 'agg':
                return [(s, pr[2] == evenv[2])]
            return eng.branch(s, isvar(pr, 'Option' if len(cx.m.adts[pt['path']]['variants']) == 2 else 'enum', evenv[2]))
        return [(s2, w == (evenv == TRUE)) for s2, w in eng.branch(s, pr)]
    # add_root, on a new node
    st = St()
    me = cell(st, 'self', F0)
    path = cx.m.inherent(FOREST, 'add_root')
    eng, outs = cx.run(path, [me, a], st, raw={FOREST}, axioms=[invariant])
    evenv = None
    for k, s, v in outs:
        for s2, dup in eng.branch(s, has(FP, a)):
            if dup:
                continue
            if k == 'panic':
                cx.ob('forest/add_root', False, eng, s2, [], 'a new root must be accepted')
                continue
            F1 = s2.mem[me[1]]
            cx.ob('forest/add_root', same_list(eng, s2, F1[3][ni], push(FN, a)), eng, s2, [F1[3][ni]], 'a root must be listed last')
            for s3, e in eng.op_mget(s2, F1[3][mi], a):
                if e[0] == 'agg':
                    evenv = e[3][pri]
                cx.ob('forest/add_root', e[0] == 'agg' and e[3][pai] == NONE, eng, s3, [e], 'a root has no parent')
            kept(cx, eng, s2, 'forest/add_root', FP, F1[3][mi], a)
    if evenv is None or not (evenv[0] == 'agg' or evenv in (TRUE, FALSE, I(0))):
        raise Missing('the parity of a root is not a constant')
    # add_edge, to a node that is there, of one that is not
    st = St()
    me = cell(st, 'self', F0)
    path = cx.m.inherent(FOREST, 'add_edge')
    eng, outs = cx.run(path, [me, a, b], st, raw={FOREST}, axioms=[invariant])
    for k, s, v in outs:
        for s2 in eng.assume(s, [(has(FP, a), True), (has(FP, b), False), (eq(a, b), False)]):
            if k == 'panic':
                cx.ob('forest/add_edge', False, eng, s2, [], 'a new node below a known one must be accepted')
                continue
            F1 = s2.mem[me[1]]
            cx.ob('forest/add_edge', same_list(eng, s2, F1[3][ni], push(FN, b)), eng, s2, [F1[3][ni]], 'a new node must be listed last')
            for s3, e in eng.op_mget(s2, F1[3][mi], b):
                cx.ob('forest/add_edge', e[0] == 'agg' and same(eng, s3, e[3][pai], some(a)), eng, s3, [e], 'the parent must be the one given')
                if e[0] != 'agg':
                    continue
                for s4, pe in is_even(eng, s3, ('fld', place(a), pri), evenv):
                    for s5, ne in is_even(eng, s4, e[3][pri], evenv):
                        cx.ob('forest/add_edge', ne != pe, eng, s5, [e[3][pri]], 'a node must have the parity opposite to that of its parent')
            kept(cx, eng, s2, 'forest/add_edge', FP, F1[3][mi], b)
    # even_nodes
    eng, outs = cx.run(cx.m.inherent(FOREST, 'even_nodes'), [F0], raw={FOREST}, axioms=[invariant])
    bv = ('bv', 981)
    for k, s, v in outs:
        if k == 'panic':
            cx.ob('forest/even_nodes', False, eng, s, [], 'listing the even nodes must not panic')
            continue
        for s2, l in C.lists(eng, s, v):
            good = True
            for s3, x in C.elements(eng, s2, FN):
                d, b_, cases = C.parts(l)
                if d != FN:
                    good = False
                    break
                for s4, e in is_even(eng, s3, ('fld', place(x), pri), evenv):
                    for c, items in cases:
                        for s5 in eng.assume(s4, [(subst(f, {b_: x}), w) for f, w in c]):
                            its = subst(items, {b_: x})
                            good = good and same_list(eng, s5, C.items_list(its), C.items_list((x,) if e else ()))
            cx.ob('forest/even_nodes', good, eng, s2, [l], 'the even nodes must be the listed nodes whose parity is that of a root')
    # path
    eng, outs = cx.run(cx.m.inherent(FOREST, 'path'), [F0, a], raw={FOREST}, axioms=[invariant])

    def parent(x):
        return ('fld', place(x), pai)
    for k, s, v in outs:
        if k == 'panic':
            if not any(f[0] == 'has' and f[1] == FP and not w and stays(eng, s, f[2], FP) for f, w in s.path):
                cx.ob('forest/path', False, eng, s, [], 'looking for a path must not panic')
            continue
        for s2, w in eng.branch(s, isvar(v, 'Option', 1)):
            for s3, h in eng.branch(s2, has(FP, a)):
                cx.ob('forest/path/found', w == h, eng, s3, [], 'there is a path exactly for the nodes of the forest')
                if w and h:
                    walk_up(cx, eng, s3, vfld(v, 1, 0), a, parent, place, pai)


def kept(cx, eng, s, name, old, new, x):
    z = fresh()
    for s2 in eng.assume(s, [(eq(z, x), False)]):
        for s3, w in eng.branch(s2, has(new, z)):
            for s4, w0 in eng.branch(s3, has(old, z)):
                cx.ob(name, w == w0, eng, s4, [new], 'other nodes must stay as they are')
                if w and w0:
                    for s5, y in eng.op_mget(s4, new, z):
                        cx.ob(name, same(eng, s5, y, ('mget', old, z)), eng, s5, [y], 'other nodes must keep their place')


def stays(eng, s, q, FP):
    """a loop variable that starts as a node of the forest and only ever moves
    to nodes of the forest"""
    r = owner(eng, q) if q[0] == 'phi' else None
    return (r is not None and q in r.inits and eng.eval3(s, has(FP, r.inits[q])) is True
            and all(eng.eval3(s2, has(FP, u.get(q, q))) is True for cs, u in r.backs for s2 in eng.assume(St(), list(cs) + [(has(FP, q), True)])))


def walk_up(cx, eng, s, l, a, parent, place, pai):
    """l is the list of a, its parent, the parent of that, and so on to a root"""
    if eng.eval3(s, isvar(parent(a), 'Option', 1)) is False and same_list(eng, s, l, lst(a)):
        cx.ob('forest/path/walk', True)
        return
    folds = [t for t in T.subterms(l) if t[0] == 'fold'] + [t for t in T.subterms(l) if t[0] == 'phi']
    r = None
    if len(set(folds)) == 1:
        r = eng.recs[folds[0][1]] if folds[0][0] == 'fold' else owner(eng, folds[0])
    if r is None:
        cx.put('forest/path/walk', 'undecided', 'not followed: %s' % show(l)[:300])
        return
    lp = [q for q in r.phis if C.islist(r.inits[q]) or r.inits[q] == NIL]
    nx = [q for q in r.phis if q not in lp]
    if len(lp) != 1 or len(nx) != 1:
        cx.put('forest/path/walk', 'undecided', 'not followed: %s' % show(l)[:300])
        return
    lp, nx = lp[0], nx[0]
    init = subst(l, {folds[0]: r.inits[lp]})
    why = 'a path must go from the node through each parent to the root'
    # what the other variable stands for: the next node if there is one, the
    # place of the last node listed, or the node to list next
    if init == lst(a) and same(eng, s, r.inits[nx], parent(a)) or init == NIL and r.inits[nx] == some(a):
        def to(t):
            return t
    elif init == lst(a) and same(eng, s, r.inits[nx], place(a)):
        def to(t):
            return ('fld', t, pai)
    elif init in (NIL, lst(a)) and r.inits[nx] == a:
        to = None
    else:
        cx.put('forest/path/walk', 'undecided', 'the loop starts from %s, %s' % (show(init)[:100], show(r.inits[nx])[:100]))
        return
    for cs, u in r.backs:
        for s2 in eng.assume(St(), cs):
            t, n = u.get(lp, lp), u.get(nx, nx)
            if to:
                x = vfld(to(nx), 1, 0)
                cx.ob('forest/path/walk', same_list(eng, s2, t, push(lp, x)), eng, s2, [t], why)
                cx.ob('forest/path/walk', same(eng, s2, to(n), parent(x)), eng, s2, [n], why)
            else:
                cx.ob('forest/path/walk', same_list(eng, s2, t, push(lp, nx if init == NIL else n)), eng, s2, [t], why)
                cx.ob('forest/path/walk', same(eng, s2, some(n), parent(nx)) or eng.eval3(s2, isvar(parent(nx), 'Option', 1)) is True and same(eng, s2, n, vfld(parent(nx), 1, 0)), eng, s2, [n], why)
    for e in r.exits:
        if e[0] in ('panic',):
            continue
        for s2 in eng.assume(St(), e[1]):
            cx.ob('forest/path/walk', eng.eval3(s2, isvar(to(nx) if to else parent(nx), 'Option', 1)) is False, eng, s2, [], 'a path must not stop before the root')
