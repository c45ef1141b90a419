"""Obligations on pairings, the greedy matching and maximum matching."""
from engine.terms import *
from engine import terms as T
from engine.interp import St, Unsupported
from engine.model import *
from engine.contract import ends, hasnode, graph_axiom, origin, haspair, plog, pparts
from engine.compare import same, same_list, same_set, elements, fresh, segs, lists
from engine import compare as C

a, b = ('var', 'a'), ('var', 'b')
g, p = ('var', 'g'), ('var', 'p')
M = ('var', 'M')
b1 = ('bv', 980)


def mate_of(x):
    return ('mget', M, x)


def symmetric(eng, st, f):
    """the map M is a one-to-one relation: M[M[x]] = x for every key x"""
    if f[0] == 'has' and f[1] == M:
        x = f[2]
        if x[0] == 'mget' and x[1] == M and st.facts.get(has(M, x[2])) is True:
            return True
        for k, v in st.rep.items():
            if v == x and k[0] == 'mget' and k[1] == M and st.facts.get(has(M, k[2])) is True:
                return True
        return None
    if f[0] == 'eq':
        for u, w in ((f[1], f[2]), (f[2], f[1])):
            if u[0] == 'mget' and u[1] == M:
                y = u[2]
                # M[y] = w  iff  w is a key and M[w] = y
                if st.facts.get(has(M, w)) is False:
                    return False
                z = eng.norm(st, ('mget', M, w))
                if z == eng.norm(st, y):
                    return True
                f2 = eq(z, y)
                if f2[0] == 'b':
                    return f2[1]
                v = st.facts.get(f2)
                if v is not None:
                    return v
                for t, r in st.rep.items():
                    if r == w and t[0] == 'mget' and t[1] == M and st.facts.get(has(M, t[2])) is True:
                        f3 = eq(t[2], y)            # one-to-one
                        v = f3[1] if f3[0] == 'b' else st.facts.get(f3)
                        if v is not None:
                            return v
                if w[0] == 'mget' and w[1] == M:
                    f3 = eq(y, w[2])                # one-to-one
                    v = f3[1] if f3[0] == 'b' else st.facts.get(f3)
                    if v is not None:
                        return v
    return None


def raw(cx):
    i = cx.m.field_index(PAIRING, lambda f: tystr(f['ty']) in ('HashMap<usize,usize>', 'BTreeMap<usize,usize>'), 'the map from a node to its mate')
    return ('agg', PAIRING, 0, cx.m.blank(PAIRING, {i: M, **{j: length(M) for j in counts(cx)}})), i


def counts(cx):
    """fields besides the map that are there for the number of paired nodes: with
    them the order is right, and a new pairing has none"""
    got = getattr(cx, 'counts', None)
    if got is not None:
        return got
    cx.counts = {j for j, f in enumerate(cx.m.fields(PAIRING)) if tystr(f['ty']) == 'usize'}
    if not cx.counts:
        return cx.counts
    fn = cx.fn
    v0, i = raw(cx)
    try:
        eng, outs = cx.run(cx.m.inherent(PAIRING, 'order'), [v0], raw={PAIRING})
        good = all(k == 'ret' and same(eng, s, v, length(M)) for k, s, v in outs)
        eng, outs = cx.run(cx.m.inherent(PAIRING, 'new'), [], raw={PAIRING})
        good = good and all(k == 'ret' and v[0] == 'agg' and v[3][j] == I(0) for k, s, v in outs for j in cx.counts)
    finally:
        cx.fn = fn
    if not good:
        cx.counts = set()
    return cx.counts


def map_length(eng, s, m):
    """(state, number of entries) of a map built from M entry by entry"""
    if m[0] not in ('mins', 'mrem'):
        return [(s, length(m))]
    out = []
    for s1, w in eng.branch(s, has(m[1], m[2])):
        for s2, n in map_length(eng, s1, m[1]):
            out.append((s2, n if w == (m[0] == 'mins') else add(n, I(1 if m[0] == 'mins' else -1))))
    return out


def pairing_new(cx):
    v0, i = raw(cx)
    eng, outs = cx.run(cx.m.inherent(PAIRING, 'new'), [], raw={PAIRING})
    for k, s, v in cx.rets(eng, outs, 'pairing/new'):
        good = v[0] == 'agg' and eng.eval3(s, isempty(v[3][i])) is True
        cx.ob('pairing/new/empty', good, eng, s, [v], 'a new pairing must have no pairs')


def pair(cx):
    v0, i = raw(cx)
    st = St()
    me = cell(st, 'self', v0)
    eng, outs = cx.run(cx.m.inherent(PAIRING, 'pair'), [me, a, b], st, raw={PAIRING}, axioms=[symmetric])
    if counts(cx):
        # a count that is kept in step does not run out while there are entries to remove
        outs = [o for o in outs if o[0] != 'panic' or o[2][0] != 'overflow:Sub' or not mentions(o[1].path[-1][0], lambda t: t == length(M))]
    for k, s, v in cx.rets(eng, outs, 'pairing/pair'):
        m = s.mem[me[1]][3][i]
        for j in counts(cx):
            n = s.mem[me[1]][3][j]
            for s1, w in map_length(eng, s, m):
                cx.ob('pairing/order/kept', C.same_int(eng, s1, n, w), eng, s1, [n, w], 'the order must be the number of paired nodes afterwards')
        z = fresh()
        cases = []
        for s1, e in eng.branch(s, eq(z, a)):
            if e:
                cases.append((s1, 'joined', b))
                continue
            for s2, e in eng.branch(s1, eq(z, b)):
                if e:
                    cases.append((s2, 'joined', a))
                    continue
                for s3, e in eng.branch(s2, has(M, z)):
                    if not e:
                        cases.append((s3, 'others', None))
                        continue
                    f = f_or(eq(mate_of(z), a), eq(mate_of(z), b))
                    for s4, e in eng.branch(s3, f):
                        cases.append((s4, 'released' if e else 'others', None if e else mate_of(z)))
        for s1, what, want in cases:
            for s2, e in eng.branch(s1, has(m, z)):
                if e != (want is not None):
                    cx.ob('pairing/pair/' + what, False, eng, s2, [m], {
                        'joined': 'the two nodes must be paired afterwards',
                        'released': 'the former mate of a paired node must be released',
                        'others': 'pairs of other nodes must be left alone'}[what])
                    continue
                if want is None:
                    cx.ob('pairing/pair/' + what, True)
                    continue
                for s3, y in eng.op_mget(s2, m, z):
                    cx.ob('pairing/pair/' + what, same(eng, s3, y, want), eng, s3, [m, y, want],
                          'each of the two must be the mate of the other' if what == 'joined' else 'pairs of other nodes must be left alone')


def pairing_queries(cx):
    v0, i = raw(cx)

    def q(name, args):
        eng, outs = cx.run(cx.m.inherent(PAIRING, name), [v0] + args, raw={PAIRING}, axioms=[symmetric])
        return eng, outs
    eng, outs = q('order', [])
    for k, s, v in cx.rets(eng, outs, 'pairing/order'):
        cx.ob('pairing/order/value', same(eng, s, v, length(M)), eng, s, [v, length(M)], 'the order must be the number of paired nodes')
    eng, outs = q('has_node', [a])
    for k, s, v in cx.rets(eng, outs, 'pairing/has_node'):
        cx.ob('pairing/has_node/value', same(eng, s, v, has(M, a)), eng, s, [v], 'a node is a member exactly when it is paired')
    eng, outs = q('mate', [a])
    for k, s, v in outs:
        if k == 'panic':
            cx.ob('pairing/mate/present', eng.eval3(s, has(M, a)) is False, eng, s, [], 'asking for the mate of a paired node must not panic')
            continue
        for s2, w in eng.branch(s, has(M, a)):
            if w:
                cx.ob('pairing/mate/value', same(eng, s2, v, mate_of(a)), eng, s2, [v], 'the mate must be the node that it is paired with')
            else:
                cx.ob('pairing/mate/absent', False, eng, s2, [v], 'asking for the mate of an unpaired node must panic')
    eng, outs = q('edges', [])
    for k, s, v in cx.rets(eng, outs, 'pairing/edges'):
        for s2, l in lists(eng, s, v):
            edge_list(cx, eng, s2, l)


def edge_list(cx, eng, s, l):
    while l[0] == 'fn' and l[1].startswith('sort'):
        l = l[2][0]
    ss = C.live_segs(eng, s, l)
    if len(ss) != 1 or ss[0][0] == 'one':
        cx.ob('pairing/edges/all', False, eng, s, [l], 'the edges must be the pairs of the map, each once')
        return
    d, bv, cases = C.parts(ss[0])
    d = C.strip_order(d)
    if d[0] == 'unord':
        d = d[:3]
    kind = {('unord', M, 'kv'): 'kv', ('unord', M, 'k'): 'k', M: 'kv'}.get(d)
    cx.ob('pairing/edges/all', kind is not None, eng, s, [l], 'the edges must be gathered from all pairs of the map')
    if kind is None:
        return
    # each pair may be listed at its smaller or at its larger end
    bad = None
    for at_smaller in (True, False):
        w = listed_wrong(eng, s, kind, bv, cases, at_smaller)
        if w is None:
            cx.ob('pairing/edges/once', True)
            return
        bad = bad or w
    cx.ob('pairing/edges/once', False, eng, bad, [l], 'each pair of distinct nodes must be listed exactly once, smaller id first')


def listed_wrong(eng, s, kind, bv, cases, at_smaller):
    x = fresh()
    for s1 in eng.assume(s, [(has(M, x), True)]):
        for s2, y in eng.op_mget(s1, M, x):
            e = tup(x, y) if kind == 'kv' else x
            for c, items in cases:
                for s3 in eng.assume(s2, [(subst(f, {bv: e}), v) for f, v in c]):
                    its = [eng.norm(s3, subst(z, {bv: e})) for z in items]
                    lo, hi = (x, y) if at_smaller else (y, x)
                    for s4, w in eng.branch(s3, lt(lo, hi)):
                        want = [tup(lo, hi)] if w else []
                        if len(its) != len(want) or not all(same(eng, s4, u, v) for u, v in zip(its, want)):
                            return s4
    return None


def augment(cx):
    L = ('var', 'L')
    path = cx.m.inherent(PAIRING, 'augment')
    st = St()
    me = cell(st, 'self', plog(p, NIL))
    eng, outs = cx.run(path, [me, L], st, inline={path})
    for k, s, v in outs:
        after = s.mem[me[1]]
        for s2, isodd in eng.branch(s, odd(length(L))):
            if k == 'panic':
                cx.ob('augment/even/panic', isodd, eng, s2, [], 'augmenting with a path of even length must not panic: %s' % (v,))
                if isodd:
                    cx.ob('augment/odd/unchanged', after == plog(p, NIL), eng, s2, [after], 'a refused path must leave the pairing as it was')
                continue
            if isodd:
                cx.ob('augment/odd/refused', False, eng, s2, [after], 'a path with an odd number of nodes must be refused')
                continue
            base, log = pparts(after)
            cx.ob('augment/even/base', base == p, eng, s2, [after], 'the pairs must be added to the present ones')
            if base == p:
                pairs_up(cx, eng, s2, log, L)


def pairs_up(cx, eng, st, log, L, name='augment/even/all'):
    """the log pairs each node at an even position of L with the next one"""
    ss = [x for x in C.live_segs(eng, st, log)]
    if not ss:
        cx.ob(name, eng.eval3(st, isempty(L)) is True, eng, st, [log], 'every second node of the path must be paired with the next')
        return
    if len(ss) != 1 or ss[0][0] == 'one':
        cx.ob(name, False, eng, st, [log], 'every second node of the path must be paired with the next')
        return
    q = fresh('q')
    i = add(q, q)
    want = tup(at(L, i), at(L, add(i, I(1))))
    d, bv, cases = C.parts(ss[0])
    d = C.strip_order(d)
    n = length(d)
    for s in eng.assume(st, [(lt(add(i, I(1)), length(L)), True)]):
        # by position in the path, or by number of the pair
        for pos in (i, q):
            if pos == i and same_int(eng, st, n, length(L)):
                ok = every(eng, s, d, bv, cases, i, [want]) and every(eng, s, d, bv, cases, add(i, I(1)), [])
                if ok:
                    cx.ob(name, True)
                    return
            if pos == i and ss[0][0] == 'fold':
                half_ = fmap(('range', I(0), half(length(L))), b1, (((), (tup(at(L, scale(b1, 2)), at(L, add(scale(b1, 2), I(1)))),)),))
                isodd = ('odd', (b1,))
                full = fmap(('range', I(0), length(L)), b1, ((((isodd, True),), ()), (((isodd, False),), (tup(at(L, b1), at(L, add(b1, I(1)))),))))
                wrong = any(C.base_differs(eng, s, log, w) for w in (half_, full))
                cx.ob(name, False, eng, s, [log], 'every second node of the path must be paired with the next', wrong)
                return
            if pos == q and every(eng, s, d, bv, cases, q, [want]):
                cx.ob(name, eng.eval3(st, eq(add(n, n), length(L))) is True, eng, s, [log], 'all of the path must be used')
                return
    cx.ob(name, False, eng, st, [log], 'every second node of the path must be paired with the next')


def same_int(eng, st, x, y):
    return eng.eval3(st, eq(x, y)) is True


def every(eng, st, d, bv, cases, k, want):
    """the cases yield the wanted items for the k-th element of d"""
    for s, x in eng.op_at(st, d, k):
        for c, items in cases:
            for s2 in eng.assume(s, [(subst(f, {bv: x}), v) for f, v in c]):
                if not same_list(eng, s2, C.items_list(subst(items, {bv: x})), C.items_list(tuple(want))):
                    return False
    return True


def pairing(cx):
    pairing_new(cx)
    pair(cx)
    pairing_queries(cx)


# ------------------------------------------------------------------- greedy
def greedy(cx):
    path = cx.m.free(GREEDY)
    eng, outs = cx.run(path, [g], inline={path})
    for k, s, v in cx.rets(eng, outs, 'greedy'):
        base, log = pparts(v)
        if base != ('pempty',):
            cx.ob('greedy/start', False, eng, s, [v], 'the matching must start out empty')
            continue
        if log == NIL:
            done = eng.eval3(s, isempty(('edges', g))) is True or eng.eval3(s, isempty(('nodes', g))) is True
            cx.ob('greedy/maximal', done, eng, s, [], 'nothing may be left unmatched in a graph with edges')
            continue
        if log[0] != 'fold' or log[3] != NIL:
            cx.put('greedy/shape', 'undecided', 'the pairs are not gathered by loops that the analysis follows: %s' % show(log)[:300])
            continue
        gather(cx, eng, log, [], [])


def gather(cx, eng, f, nest, conds):
    """the loops that extend the list of pairs; nest: records of the loops around"""
    rec, phi = eng.recs[f[1]], f[2]
    nest = nest + [rec]
    if any(x[0] != 'exhausted' for x in rec.exits):
        cx.put('greedy/complete', 'fail' if known(rec) else 'undecided', 'the loop over %s may end before all edges were considered' % (show(rec.dom) if rec.dom else '?'))
    for c, u in rec.backs:
        t = u.get(phi, phi)
        cs = conds + [x for x in c]
        if t[0] == 'fold' and t[3] == phi:
            gather(cx, eng, t, nest, cs)
            continue
        if t == phi and skipped_turn(cx, eng, nest, phi, cs):
            continue
        ss = segs(t) if t[0] == 'L' else (t,)
        if ss[0] != phi or any(x[0] != 'one' for x in ss[1:]):
            cx.put('greedy/shape', 'undecided', 'not followed: %s' % show(t)[:300])
            continue
        for s in eng.assume(St(), cs):
            turn(cx, eng, s, nest, rec, phi, u, [x[1] for x in ss[1:]])


def skipped_turn(cx, eng, nest, phi, cs):
    """a turn of an outer loop that passes over a whole component or node"""
    d = nest[-1].dom
    if d is None:
        return False
    k = nest[-1].k
    n = node_loop(nest)
    if n:
        v, h, _ = n
        y = at(('N', h, v), fresh('k'))
        sts = eng.assume(St(), cs + [(isempty(('N', h, v)), False), (isempty(('edges', h)), False), (lt(y[2], length(y[1])), True), (eq(v, y), False)])
        for t in trackers(eng, nest, nest[-1], phi, None):
            sts = [s2 for s in sts for s2 in eng.assume(s, [(has(t, v), False), (has(t, y), False)])]
        sts = [s2 for s in sts for s2 in C.instantiate(eng, s, y[1], y)]
        cx.ob('greedy/maximal', not sts, eng, (sts or [St()])[0], [], 'the edges of a free node must not be passed over')
        return True
    if len(nest) == 1 and (whole(nest[-1], ('comps', g)) is True or d[0] == 'slice' and d[1] == ('comps', g)):
        c = at(('comps', g), k)
        some_edge = [(isempty(('edges', c)), False), (lt(I(1), length(('nodes', c))), True), (isempty(('N', c, at(('nodes', c), I(0)))), False)]
    else:
        return False
    left = eng.assume(St(), cs + some_edge)
    cx.ob('greedy/maximal', not left, eng, (left or [St()])[0], [], 'a part of the graph with edges must not be passed over')
    return True


def node_loop(nest):
    """(the current node, its graph, whether all nodes are considered) when the
    innermost loop runs over nodes"""
    h = g
    if len(nest) == 2 and nest[0].dom is not None and comps_loop(nest[0]):
        h = at(('comps', g), nest[0].k)
    elif len(nest) != 1:
        return None
    if whole(nest[-1], ('nodes', h)):
        return at(('nodes', h), nest[-1].k), h, True
    return None


def known(rec):
    return not any(mentions(f, lambda t: t[0] in ('app', 'havoc', 'const', 'rec')) for _, cs in rec.exits for f, _ in cs)


def comp_of(h):
    """h is g or one of its components"""
    return h == g or h[0] == 'at' and h[1] == ('comps', g)


def whole(rec, l):
    """the loop runs over all of l (or positions of all of l)"""
    d = rec.dom
    if d is None:
        return None
    while d[0] in ('enum', 'rev'):
        d = d[1]
    return d == l or d == ('range', I(0), length(l))


def turn(cx, eng, s, nest, rec, phi, u, items):
    """one turn of the innermost loop"""
    e, h, cover = current(eng, nest)
    if e is None and items and len(items) == 1:
        n = node_loop(nest)
        p0, p1 = fld(items[0], 0), fld(items[0], 1)
        if n and n[0] in (p0, p1):
            e, h, cover = (p0, p1), n[1], n[2]
    if e is None:
        cx.put('greedy/shape', 'undecided', 'the loops %s do not enumerate edges in a way the analysis knows' % [show(r.dom) if r.dom else '?' for r in nest])
        return
    cx.ob('greedy/complete', cover, eng, s, [], 'the loops must consider every edge of the graph')
    x, y = e
    ts = trackers(eng, nest, rec, phi, s)
    if items:
        # each pair: an edge with distinct free ends
        if len(items) > 1:
            cx.put('greedy/shape', 'undecided', 'more than one pair per turn')
            return
        p0, p1 = fld(items[0], 0), fld(items[0], 1)
        cx.ob('greedy/edge', eng.eval3(s, adj(h, p0, p1)) is True, eng, s, [items[0]], 'only nodes that the graph joins by an edge may be paired')
        cx.ob('greedy/distinct', eng.eval3(s, eq(p0, p1)) is False, eng, s, [items[0]], 'a node must not be paired with itself')
        for z in (p0, p1):
            cx.ob('greedy/free', any(eng.eval3(s, has(t, z)) is False for t in ts), eng, s, [items[0]], 'a node that is paired already must not be paired again')
    else:
        # skipped: not a candidate
        left = s
        sts = eng.assume(s, [(eq(x, y), False)])
        for t in ts:
            sts = [s3 for s2 in sts for s3 in eng.assume(s2, [(has(t, x), False), (has(t, y), False)])]
        if sts and any(v and f[0] == 'fld' and f[2] == 2 and f[1][0] == 'at' and f[1][1][:2] == ('steps', 'd') for f, v in s.path):
            cx.put('greedy/maximal', 'undecided', 'skips cut edges')
            return
        cx.ob('greedy/maximal', not sts, eng, (sts or [s])[0], [tup(x, y)], 'an edge with two distinct free ends must not be passed over')
    for t in ts:
        if t[0] == 'phi':
            want = [z for i in items for z in (fld(i, 0), fld(i, 1))]
            got = []
            w = u.get(t, t)
            while w[0] == 'ins':
                got.append(w[2])
                w = w[1]
            if w != t:
                cx.put('greedy/tracked', 'undecided', 'not followed: %s' % show(w)[:300])
                continue
            cx.ob('greedy/tracked', all(any(same(eng, s, i, j) for j in got) or eng.eval3(s, has(t, i)) is True for i in want), eng, s, [u.get(t, t)],
                  'the set of paired nodes must grow by both ends of each new pair')
            cx.ob('greedy/tracked', all(any(same(eng, s, i, j) for j in want) or eng.eval3(s, has(t, i)) is True for i in got), eng, s, [u.get(t, t)],
                  'the set of paired nodes must hold no other nodes')


def trackers(eng, nest, rec, phi, s):
    """the collections that stand for the paired nodes: sets that start out
    empty, and the ends of the pairs themselves"""
    out = [ends(phi)]
    for q in rec.phis:
        i, inside = rec.inits[q], q
        for r in reversed(nest[:-1]):
            if i[0] != 'phi' or i not in r.inits or any(i in u and not (u[i][0] == 'fold' and u[i][2:] == (inside, i)) for _, u in r.backs):
                break
            i, inside = r.inits[i], i
        # filled anew for each component: no other component has its nodes
        if i == EMPTYSET and (len(nest) == 1 or rec.inits[q] != EMPTYSET or comps_loop(nest[0])):
            out.append(q)
    return out


def comps_loop(r):
    return whole(r, ('comps', g))


def current(eng, nest):
    """(ends of the current edge, the graph it is an edge of, whether the loops
    consider all edges) or None"""
    inner = nest[-1]
    k = inner.k
    d = inner.dom
    if d is None:
        return None, None, None
    full = True
    while d[0] in ('slice', 'enum', 'rev'):
        full = full and d[0] != 'slice'
        d = d[1]
    outer = nest[:-1]
    if d[0] in ('steps', 'edges', 'dedges'):
        h = d[2] if d[0] == 'steps' else d[1]
        el = at(d, k)
        ends_ = (fld(el, 0), fld(el, 1))
        root = d[3] if d[0] == 'steps' else d[2] if d[0] == 'dedges' else None
        if not outer:
            return (ends_, h, full and d == ('edges', g)) if comp_of(h) else (None, None, None)
        if len(outer) == 1:
            c = at(('comps', g), outer[0].k)
            if outer[0].dom is not None and (h == c or h == g and root is not None and root[0] == 'at' and root[1] == ('nodes', c)):
                return ends_, h, full and bool(comps_loop(outer[0]))
        return None, None, None
    if d[0] == 'N' and comp_of(d[1]):
        h, v = d[1], d[2]
        ends_ = (v, at(d, k))
        if v == at(('nodes', h), outer[-1].k) if outer else False:
            cover = full and whole(outer[-1], ('nodes', h))
            if h == g and len(outer) == 1:
                return ends_, h, bool(cover)
            if len(outer) == 2 and h == at(('comps', g), outer[0].k):
                return ends_, h, bool(cover and comps_loop(outer[0]))
    return None, None, None
