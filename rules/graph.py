"""Obligations on DefaultGraph: the two add operations, the queries, the three
constructors and equality."""
from engine.terms import *
from engine import terms as T
from engine.interp import St, Unsupported
from engine.model import *
from engine.contract import hasnode, adjf, graph_axiom
from engine.compare import same, same_list, same_map, same_set, elements, fresh, instantiate, segs
from engine import compare as C

a, b = ('var', 'a'), ('var', 'b')
g, h = ('var', 'g'), ('var', 'h')


def roles(cx, v):
    """field terms of a graph value by role"""
    if v[0] != 'agg' or v[1] != DG:
        return None
    r = {k: v[3][i] for k, i in cx.m.dg_roles().items()}
    r.update(('field ' + n, v[3][i]) for i, n, _ in cx.m.dg_aux())
    return r


def unchanged(cx, eng, st, v, g):
    r = roles(cx, v)
    if r is None:
        return {'value': False}
    return {'nodes': same(eng, st, r['nodes'], ('nodes', g)), 'edges': same(eng, st, r['edges'], ('edges', g)),
            'adjacency': same_adj(eng, st, r['adjacency'], g), 'indices': same_idx(eng, st, r['indices'], g)}


def same_idx(eng, st, m, g):
    if m == ('gidx', g):
        return True
    return same_map(eng, st, m, ('gidx', g))


def same_adj(eng, st, l, g, extra=None):
    """list l holds, for every node z, its neighbors followed by extra(st, z)"""
    if l == ('gadj', g) and extra is None:
        return True
    if not C.same_int(eng, st, length(l), ('len', ('nodes', g))):
        return False
    z = fresh()
    for s in eng.assume(st, [(hasnode(g, z), True)]):
        for s2, row in eng.op_at(s, l, ('ix', g, z)):
            if extra is None:
                if not same_list(eng, s2, row, ('N', g, z)):
                    return False
            else:
                for s3, e in extra(s2, z):
                    if not same_list(eng, s3, row, cat(('N', g, z), e)):
                        return False
    return True


def add_node(cx):
    st = St()
    me = cell(st, 'self', start(cx, g))
    eng, outs = cx.run(cx.m.inherent(DG, 'add_node'), [me, a], st, raw={DG})
    E = cx.m.error('DuplicateNode', a)
    for k, s, v in cx.rets(eng, outs, 'add_node'):
        for s2, w in eng.branch(s, hasnode(g, a)):
            v2 = eng.norm(s2, v)
            after = s2.mem[me[1]]
            r = roles(cx, after)
            if w:
                cx.ob('add_node/duplicate/error', same(eng, s2, v2, err(E)), eng, s2, [v2, err(E)], 'adding an id that is present must return DuplicateNode(id)')
            else:
                cx.ob('add_node/new/ok', same(eng, s2, v2, ok(UNIT)), eng, s2, [v2], 'adding a new id must succeed')
            if v2[0] == 'agg' and v2[2] == 1:
                for f, y in unchanged(cx, eng, s2, after, g).items():
                    cx.ob('add_node/error/unchanged/' + f, y, eng, s2, [r and r.get(f)], 'a refused add_node must not change the graph')
                derived(cx, 'add_node/error/unchanged', eng, s2, after, same_view(g))
                continue
            if v2[0] == 'agg' and v2[2] == 0 and not w:
                accept_node(cx, eng, s2, r)
                derived(cx, 'add_node/new/later', eng, s2, after, node_view(g, a))


def accept_node(cx, eng, s, r):
    N = ('nodes', g)
    x = r['nodes']
    cx.ob('add_node/new/nodes', same_list(eng, s, x, push(N, a)), eng, s, [x, push(N, a)], 'the new id must be appended to the nodes')
    cx.ob('add_node/new/edges', same_list(eng, s, r['edges'], ('edges', g)), eng, s, [r['edges']], 'add_node must not change the edges')
    m = r['indices']
    z = fresh()
    good = True
    for s2, w in eng.branch(s, has(m, z)):
        for s3, w2 in eng.branch(s2, f_or(eq(z, a), hasnode(g, z))):
            if w != w2:
                good = False
            elif w:
                for s4, i in eng.op_mget(s3, m, z):
                    for s5, isnew in eng.branch(s4, eq(z, a)):
                        want = length(N) if isnew else ('ix', g, z)
                        if not same(eng, s5, i, want):
                            good = False
    cx.ob('add_node/new/index', good, eng, s, [m], 'the new id must be mapped to the last position, the others as before')
    adj_ = r['adjacency']
    cx.ob('add_node/new/adjacency', same_list(eng, s, adj_, push(('gadj', g), NIL)), eng, s, [adj_], 'the new node must have no neighbors and the others theirs')


def add_edge(cx):
    st = St()
    me = cell(st, 'self', start(cx, g))
    eng, outs = cx.run(cx.m.inherent(DG, 'add_edge'), [me, a, b], st, raw={DG})
    for k, s, v in cx.rets(eng, outs, 'add_edge'):
        cases = []
        for s1, w1 in eng.branch(s, hasnode(g, a)):
            if not w1:
                cases.append((s1, 'missing-source', err(cx.m.error('MissingNode', a))))
                continue
            for s2, w2 in eng.branch(s1, hasnode(g, b)):
                if not w2:
                    cases.append((s2, 'missing-target', err(cx.m.error('MissingNode', b))))
                    continue
                for s3, w3 in eng.branch(s2, adj(g, a, b)):
                    if w3:
                        cases.append((s3, 'duplicate', err(cx.m.error('DuplicateEdge', a, b))))
                    else:
                        cases.append((s3, 'new', ok(UNIT)))
        for s2, what, want in cases:
            v2 = eng.norm(s2, v)
            cx.ob('add_edge/%s/result' % what, same(eng, s2, v2, want), eng, s2, [v2, want], 'add_edge in case %s must return %s' % (what, show(want)))
            after = s2.mem[me[1]]
            r = roles(cx, after)
            if v2[0] == 'agg' and v2[2] == 1:
                for f, y in unchanged(cx, eng, s2, after, g).items():
                    cx.ob('add_edge/error/unchanged/' + f, y, eng, s2, [r and r.get(f)], 'a refused add_edge must not change the graph')
                derived(cx, 'add_edge/error/unchanged', eng, s2, after, same_view(g))
            elif v2[0] == 'agg' and v2[2] == 0 and what == 'new':
                E = push(('edges', g), tup(a, b))
                cx.ob('add_edge/new/edges', same_list(eng, s2, r['edges'], E), eng, s2, [r['edges'], E], 'the edge must be appended as given')
                E2 = push(('edges', g), tup(b, a))
                cx.ob('add_edge/new/listed', same_list(eng, s2, r['edges'], E) or same_list(eng, s2, r['edges'], E2), eng, s2, [r['edges'], E], 'the edge must be listed exactly once')
                cx.ob('add_edge/new/nodes', same_list(eng, s2, r['nodes'], ('nodes', g)), eng, s2, [r['nodes']], 'add_edge must not change the nodes')
                cx.ob('add_edge/new/index', same_idx(eng, s2, r['indices'], g), eng, s2, [r['indices']], 'add_edge must not change the node positions')

                def extra(t, z):
                    return more(eng, t, z, a, b)
                cx.ob('add_edge/new/neighbors', same_adj(eng, s2, r['adjacency'], g, extra), eng, s2, [r['adjacency']],
                      'each end must list the other exactly once, last, and no other neighbor list may change')
                cx.ob('add_edge/new/degree', same_len(eng, s2, r['adjacency'], g, extra), eng, s2, [r['adjacency']], 'each end must gain exactly one neighbor')
                derived(cx, 'add_edge/new/later', eng, s2, after, edge_view(g, a, b))


def more(eng, t, z, x, y):
    """what an edge (x, y) adds to the neighbors of z"""
    out = []
    for t2, isx in eng.branch(t, eq(z, x)):
        for t3, isy in eng.branch(t2, eq(z, y)):
            out.append((t3, one(y) if isx else one(x) if isy else NIL))
    return out


def same_len(eng, st, l, g, extra):
    z = fresh()
    for s in eng.assume(st, [(hasnode(g, z), True)]):
        for s2, row in eng.op_at(s, l, ('ix', g, z)):
            for s3, e in extra(s2, z):
                if not C.same_int(eng, s3, length(eng.norm(s3, row)), length(eng.norm(s3, cat(('N', g, z), e)))):
                    return False
    return True


class View:
    """what the queries of a graph are to answer: the node and edge lists,
    membership, the rows of neighbors (state, position, row, for every node),
    the row of a node, and adjacency"""

    def __init__(self, nodes, edges, member, rows, row, adjacent):
        self.nodes, self.edges, self.member, self.rows, self.row, self.adjacent = nodes, edges, member, rows, row, adjacent


def same_view(g):
    def rows(eng, s):
        z = fresh()
        return [(t, ('ix', g, z), ('N', g, z)) for t in eng.assume(s, [(hasnode(g, z), True)])]
    return View(('nodes', g), ('edges', g), lambda z: hasnode(g, z), rows, lambda eng, s, z: [(s, ('N', g, z))], lambda z, w: adj(g, z, w))


def node_view(g, x):
    v = same_view(g)

    def row(eng, s, z):
        return [(t, NIL if isx else ('N', g, z)) for t, isx in eng.branch(s, eq(z, x))]
    return View(push(v.nodes, x), v.edges, lambda z: f_or(eq(z, x), hasnode(g, z)),
                lambda eng, s: v.rows(eng, s) + [(s, length(('nodes', g)), NIL)], row, v.adjacent)


def edge_view(g, x, y):
    v = same_view(g)

    def row(eng, s, z):
        return [(t, cat(('N', g, z), e)) for t, e in more(eng, s, z, x, y)]

    def rows(eng, s):
        return [(t2, p, cat(r, e)) for t, p, r in v.rows(eng, s) for t2, e in more(eng, t, r[2], x, y)]
    return View(v.nodes, push(v.edges, tup(x, y)), v.member, rows, row,
                lambda z, w: f_or(adj(g, z, w), f_and(eq(z, x), eq(w, y)), f_and(eq(z, y), eq(w, x))))


EMPTY_VIEW = View(NIL, NIL, lambda z: FALSE, lambda eng, s: [], lambda eng, s, z: [], lambda z, w: FALSE)


def lists_view(A, n, edges):
    def rows(eng, s):
        z = fresh()
        return [(t, z, at(A, z)) for t in eng.assume(s, [(lt(z, n), True), (le(I(0), z), True)])]
    return View(('range', I(0), n), edges, lambda z: lt(z, n), rows, lambda eng, s, z: [(s, at(A, z))], lambda z, w: has(at(A, z), w))


def queries(cx):
    ask(cx, start(cx, g), St(), same_view(g), a, b, 'query')


def both_ways(eng, view, cases, x, y):
    """the cases in which x is y's neighbor if y is x's: lists for which that
    fails are not accepted (adjacency/ok/well-formed)"""
    for case in cases:
        for s, w in eng.branch(case[0], f_and(view.member(x), view.member(y))):
            if not w:
                yield (s,) + case[1:]
                continue
            for s2, p in eng.branch(s, view.adjacent(x, y)):
                for s3, q in eng.branch(s2, view.adjacent(y, x)):
                    if p == q:
                        yield (s3,) + case[1:]


def ask(cx, G, st, view, x, y, tag, seen=None):
    """every query of graph G, of nodes x and y, against what it is to answer;
    with seen, the outcomes are gathered there"""
    def q(name, args, spec):
        eng, outs = cx.run(cx.m.graph_method(name), [G] + args, st.copy(), raw={DG})
        for k, s, v in seen is None and cx.rets(eng, outs, '%s/%s' % (tag, name)) or outs:
            if k == 'panic':
                continue
            for s2, what, want in both_ways(eng, view, spec(eng, s), x, y):
                v2 = eng.norm(s2, v)
                want = eng.norm(s2, want)
                good = same(eng, s2, v2, want)
                if seen is not None:
                    seen.append((name, good, eng, s2, [v2, want]))
                    continue
                cx.ob('%s/%s/%s' % (tag, name, what), good, eng, s2, [v2, want], '%s must return %s' % (name, show(want)))

    q('is_empty', [], lambda e, s: [(s, 'value', isempty(view.nodes))])
    q('order', [], lambda e, s: [(s, 'value', length(view.nodes))])
    q('size', [], lambda e, s: [(s, 'value', length(view.edges))])
    q('nodes', [], lambda e, s: [(s, 'value', ('it', view.nodes, ()))])
    q('edges', [], lambda e, s: [(s, 'value', ('it', view.edges, ()))])
    q('has_node', [x], lambda e, s: [(s2, 'present' if w else 'absent', B(w)) for s2, w in e.branch(s, view.member(x))])

    def lookup(val):
        def f(e, s):
            out = []
            for s2, w in e.branch(s, view.member(x)):
                if w:
                    out.extend((s3, 'present', ok(val(r))) for s3, r in view.row(e, s2, x))
                else:
                    out.append((s2, 'absent', err(cx.m.error('MissingNode', x))))
            return out
        return f
    q('neighbors', [x], lookup(lambda r: ('it', r, ())))
    q('degree', [x], lookup(length))

    def edge(e, s):
        out = []
        for s1, w in e.branch(s, view.member(x)):
            if not w:
                out.append((s1, 'absent', err(cx.m.error('MissingNode', x))))
                continue
            for s2, w2 in e.branch(s1, view.member(y)):
                if not w2:
                    out.append((s2, 'absent', err(cx.m.error('MissingNode', y))))
                    continue
                for s3, w3 in e.branch(s2, view.adjacent(x, y)):
                    out.append((s3, 'present', ok(B(w3))))
        return out
    q('has_edge', [x, y], edge)
    if seen is None:
        return

    def again(name, args, spec):
        st2 = st.copy()
        me = cell(st2, 'again', G)
        eng, outs = cx.run(cx.m.inherent(DG, name), [me] + args, st2, raw={DG})
        for k, s, v in outs:
            if k == 'panic':
                continue
            for s2, want in both_ways(eng, view, spec(eng, s), x, y):
                v2, want = eng.norm(s2, v), eng.norm(s2, want)
                seen.append((name, same(eng, s2, v2, want), eng, s2, [v2, want]))

    def join(e, s):
        out = []
        for s1, w in e.branch(s, view.member(x)):
            for s2, w2 in e.branch(s1, view.member(y)) if w else [(s1, False)]:
                if not w or not w2:
                    out.append((s2, err(cx.m.error('MissingNode', y if w else x))))
                    continue
                out.extend((s3, err(cx.m.error('DuplicateEdge', x, y)) if w3 else ok(UNIT)) for s3, w3 in e.branch(s2, view.adjacent(x, y)))
        return out
    again('add_node', [x], lambda e, s: [(s2, err(cx.m.error('DuplicateNode', x)) if w else ok(UNIT)) for s2, w in e.branch(s, view.member(x))])
    again('add_edge', [x, y], join)


# ------------------------------------------------------- fields without a role
def swapped(l):
    """the pairs of a list the other way round"""
    return fmap(l, ('bv', 1), (((), (tup(fld(('bv', 1), 1), fld(('bv', 1), 0)),)),))


MEANINGS = {
    'usize': {'size': lambda g: length(('edges', g)), 'order': lambda g: length(('nodes', g))},
    'Vec<usize>': {'degrees': lambda g: fmap(('gadj', g), ('bv', 1), (((), (length(('bv', 1)),)),))},
    'HashSet<usize>': {'members': lambda g: sext(EMPTYSET, ('nodes', g))},
    'HashSet<tuple(usize,usize)>': {k: (lambda g, k=k: ('links', k, g)) for k in ('both', 'given', 'least')},
}
MEANINGS['BTreeSet<usize>'] = MEANINGS['HashSet<usize>']
MEANINGS['BTreeSet<tuple(usize,usize)>'] = MEANINGS['HashSet<tuple(usize,usize)>']


def start(cx, g):
    """an arbitrary graph; fields without a role hold what they were found to mean"""
    m = meanings(cx)
    return cx.m.raw_graph(g, lambda i, g: m[i][1](g) if i in m else None)


def meanings(cx):
    """what each field without a role holds: field -> (name, value), so that all
    that is asked of graphs holds, if there is such a meaning"""
    got = getattr(cx, 'aux', None)
    if got is not None:
        return got
    best = None
    aux = cx.m.dg_aux()
    combos = [{}]
    for i, _, t in aux[:3]:
        combos = [dict(c, **({i: x} if x else {})) if False else {**c, **({i: x} if x else {})} for c in combos for x in [None] + sorted(MEANINGS.get(t, {}).items())]
    if len(combos) > 1:
        for c in combos:
            sub = Sub(cx, c)
            n = sub.failures()
            if best is None or n < best[0]:
                best = (n, c, sub)
    cx.aux = best[1] if best else {}
    cx.aux_new = bool(best) and all(o['status'] == 'ok' for o in best[2].obs if o['name'].startswith('new/later'))
    return cx.aux


def Sub(cx, c):
    sub = type(cx)(cx.dump)
    sub.aux, sub.aux_new = c, False

    def failures():
        for f in (queries, equality, new_graph, add_node, add_edge):
            sub.group('x', f)
        later = [o for o in sub.obs if '/later' in o['name']]
        return sum(o['status'] != 'ok' for o in sub.obs if o not in later), sum(o['status'] != 'ok' for o in later)
    sub.failures = failures
    return sub


def derived(cx, tag, eng, s, G, view):
    """the fields without a role still hold what they are to hold, or no query
    tells the difference"""
    m = meanings(cx)
    for i, n, t in cx.m.dg_aux():
        if i in m and not means(eng, s, m[i][0], G[3][i], view):
            break
    else:
        if m:
            cx.ob(tag, True)
        return
    x, y = fresh(), fresh()
    seen = []
    ask(cx, G, s, view, x, y, tag, seen)
    bad = [q for q in seen if not q[1]]
    if not bad:
        cx.ob(tag, True)
    for name, good, e, s2, vals in bad:
        if cx.aux_new:
            cx.ob('%s/%s' % (tag, name), False, e, s2, vals, 'afterwards %s must return %s, which field %s makes it miss' % (name, show(vals[1]), n))
        else:
            cx.put('%s/%s' % (tag, name), 'undecided', 'the meaning of field %s is not known' % n, s2)


def means(eng, s, what, v, view):
    """does field value v have its meaning in the graph that view describes"""
    z, w = fresh(), fresh()
    if what == 'size':
        return C.same_int(eng, s, v, length(view.edges))
    if what == 'order':
        return C.same_int(eng, s, v, length(view.nodes))
    if what == 'degrees':
        if not C.same_int(eng, s, length(v), length(view.nodes)):
            return False
        return all(same(eng, s3, d, length(eng.norm(s3, r))) for s2, p, r in view.rows(eng, s) for s3, d in eng.op_at(s2, v, p))
    if what == 'members':
        f, h = has(v, z), view.member(z)
    else:
        h = {'both': view.adjacent(z, w), 'given': has(view.edges, tup(z, w)), 'least': f_and(le(z, w), view.adjacent(z, w))}[what]
        f = has(v, tup(z, w))
    return all(x == y for s2, x in eng.branch(s, f) for _, y in eng.branch(s2, h))


def new_graph(cx):
    eng, outs = cx.run(cx.m.inherent(DG, 'new'), [], raw={DG})
    for k, s, v in outs:
        r = roles(cx, v) if k == 'ret' else None
        cx.ob('new/empty', r is not None and all(eng.eval3(s, isempty(r[x[0]])) is True for x in ROLES), eng, s, [v], 'a new graph must be empty')
        if r is not None:
            derived(cx, 'new/later', eng, s, v, EMPTY_VIEW)


def try_from_path(cx, pred, what):
    return cx.m.trait_impl(DG, 'TryFrom', 'try_from', lambda t: pred(tystr(t[-1])))


def from_adjacency(cx):
    A = ('var', 'A')
    eng, outs = cx.run(try_from_path(cx, lambda t: t == 'Vec<Vec<usize>>', 'adjacency'), [A], raw={DG})
    n = length(A)
    for k, s, v in cx.rets(eng, outs, 'adjacency'):
        if v[0] != 'agg':
            cx.ob('adjacency/result', False, eng, s, [v], 'the result is neither Ok nor Err')
            continue
        if v[2] == 0:
            adjacency_ok(cx, eng, s, v[3][0], A, n)
        else:
            adjacency_err(cx, eng, s, v[3][0], A, n)


def bad_conds(A, n, i, j, x):
    row = at(A, i)
    missing = le(n, x)
    dup = has(slice_(row, add(j, I(1)), length(row)), x)
    lonely = f_not(has(at(A, x), i))
    return missing, dup, lonely


def adjacency_ok(cx, eng, s, v, A, n):
    r = roles(cx, v)
    if r is None:
        cx.ob('adjacency/ok/value', False, eng, s, [v])
        return
    want = ('range', I(0), n)
    cx.ob('adjacency/ok/nodes', same_list(eng, s, r['nodes'], want), eng, s, [r['nodes'], want], 'the nodes must be 0..n in order')
    cx.ob('adjacency/ok/neighbors', same_list(eng, s, r['adjacency'], A), eng, s, [r['adjacency'], A], 'the neighbor lists must be those given, in order')
    z = fresh()
    m = r['indices']
    good = True
    for s2, w in eng.branch(s, has(m, z)):
        for s3, w2 in eng.branch(s2, lt(z, n)):
            if w != w2:
                good = False
            elif w:
                for s4, i in eng.op_mget(s3, m, z):
                    good = good and (same(eng, s4, i, z) or mget_id(eng, s4, m, z, n))
    cx.ob('adjacency/ok/index', good, eng, s, [m], 'the member ids must be exactly 0..n, each mapped to its position')
    b1, b2 = ('bv', 801), ('bv', 800)
    i, row = fld(b1, 0), fld(b1, 1)
    inner = fmap(row, b2, (((((le(i, b2)), True),), (tup(i, b2),)), (((le(i, b2), False),), ())))
    want = fmap(('enum', A), b1, (((), (('spread', inner),)),))
    cx.ob('adjacency/ok/edges', same_list(eng, s, r['edges'], want), eng, s, [r['edges'], want], 'the edges must be (i, j) for every entry j >= i of list i, in reading order')
    derived(cx, 'adjacency/ok/later', eng, s, v, lists_view(A, n, r['edges']))
    loose = same_list(eng, s, r['edges'], want, unordered=True)
    if not loose:
        inner2 = fmap(row, b2, (((((le(i, b2)), True),), (tup(b2, i),)), (((le(i, b2), False),), ())))
        loose = same_list(eng, s, r['edges'], fmap(('enum', A), b1, (((), (('spread', inner2),)),)), unordered=True)
    cx.ob('adjacency/ok/edge-set', loose, eng, s, [r['edges'], want], 'the edge list must have each adjacent pair exactly once')
    # every accepted entry is well formed
    good, why = True, None
    cnt = 0
    for s2, e in elements(eng, s, ('enum', A)):
        i, row = fld(e, 0), fld(e, 1)
        for s3, f in elements(eng, s2, ('enum', row)):
            j, x = fld(f, 0), fld(f, 1)
            cnt += 1
            for nm, c in zip(('missing', 'duplicate', 'one-sided'), bad_conds(A, n, i, j, x)):
                if not eng.entails(s3, f_not(c)):
                    good, why = False, nm
                    cx.ob('adjacency/ok/well-formed/' + nm, False, eng, s3, [c], 'adjacency lists with a %s entry are accepted' % nm)
                else:
                    cx.ob('adjacency/ok/well-formed/' + nm, True)


def mget_id(eng, s, m, z, n):
    """a map extended by (i, i) for each i of a range"""
    if m[0] == 'mext' and m[1] == EMPTYMAP and m[2][0] == 'fmap':
        d, bv, cases = m[2][1:]
        return all(len(r) == 1 and r[0] == tup(bv, bv) for _, r in cases)
    return False


def position_of(eng, s, x, A):
    """(i, j) with x = A[i][j]"""
    x = eng.norm(s, x)
    if x[0] == 'at' and x[1][0] == 'at' and x[1][1] == A:
        return x[1][2], x[2]
    return None


def adjacency_err(cx, eng, s, e, A, n):
    if e[0] != 'agg' or e[1] != ERR:
        cx.ob('adjacency/error/value', False, eng, s, [e])
        return
    kind = cx.m.variants_of(ERR)[e[2]]
    args = [eng.norm(s, x) for x in e[3]]
    ent = {'MissingNode': 0, 'DuplicateEdge': 1, 'MissingEdge': 0}.get(kind)
    own = {'DuplicateEdge': 0, 'MissingEdge': 1}.get(kind)
    if ent is None:
        cx.ob('adjacency/error/kind', False, eng, s, [e], 'adjacency lists are refused with %s' % kind)
        return
    p = position_of(eng, s, args[ent], A)
    cx.ob('adjacency/error/%s/args' % kind, p is not None and (own is None or same(eng, s, args[own], p[0])), eng, s, [e],
          'the error must carry the bad entry' + ('' if own is None else ' and the id of its list'))
    if p is None:
        return
    i, j = p
    x = args[ent]
    missing, dup, lonely = bad_conds(A, n, i, j, x)
    want = {'MissingNode': missing, 'DuplicateEdge': f_and(f_not(missing), dup), 'MissingEdge': f_and(f_not(missing), f_not(dup), lonely)}[kind]
    outer = [bf for bf in s.befores if same(eng, s, bf[1], i)]
    inner = [bf for bf in s.befores if same(eng, s, bf[1], j) and bf not in outer]
    if eng.eval3(s, has(slice_(at(A, i), I(0), j), x)) is True and any(before_ok(eng, s, bi, A, n, i, j) for bi in inner):
        return              # the same entry before this one would have been refused: this cannot happen
    cx.ob('adjacency/error/%s/justified' % kind, eng.entails(s, want), eng, s, [want], 'well-formed lists, or lists with an earlier fault of the entry, are refused with %s' % kind)
    # every earlier entry is fine
    good = False
    for bi in inner or [None]:
        for bo in outer or [None]:
            if before_ok(eng, s, bo, A, n, i, None) and before_ok(eng, s, bi, A, n, i, j):
                good = True
    cx.ob('adjacency/error/%s/first' % kind, good, eng, s, [i, j], 'the error must be for the first bad entry in reading order')


def before_ok(eng, s, bf, A, n, i, j):
    if bf is None:
        return False
    dom, K, bv, fc, rid = bf
    k = fresh('k')
    cases = tuple((c, ()) for c, u in fc)
    limit = eng.norm(s, K)
    for s1 in eng.assume(s, [(lt(k, limit), True)]):
        for s2, x in eng.op_at(s1, dom, k):
            for c, _ in cases:
                for s3 in eng.assume(s2, [(subst(f, {bv: x}), v) for f, v in c]):
                    if j is not None:
                        y = at(at(A, i), k)
                        if any(not eng.entails(s3, f_not(q)) for q in bad_conds(A, n, i, k, y)):
                            return False
                    else:
                        for s4, f in elements(eng, s3, ('enum', at(A, k))):
                            if any(not eng.entails(s4, f_not(q)) for q in bad_conds(A, n, k, fld(f, 0), fld(f, 1))):
                                return False
    return True


def add_case(eng, s, ND, ED, e):
    """expected node and edge lists after an edge e=(x, y)"""
    x, y = e
    out = []
    for s1, w in eng.branch(s, has(ND, x)):
        nd = ND if w else push(ND, x)
        for s2, w2 in eng.branch(s1, has(nd, y)):
            out.append((s2, nd if w2 else push(nd, y), push(ED, tup(x, y))))
    return out


def from_edges(cx):
    L = ('var', 'E')
    eng, outs = cx.run(try_from_path(cx, lambda t: t == 'Vec<tuple(usize,usize)>', 'edges'), [L])
    recs = [r for r in eng.recs.values() if any(p for p in r.phis)]
    rec = None
    for k, s, v in cx.rets(eng, outs, 'edges'):
        if v[0] == 'agg' and v[2] == 0:
            r = graph_fold(eng, v[3][0])
            cx.ob('edges/ok/value', r is not None, eng, s, [v], 'the result must be the graph that the loop over the edges builds')
            if r is None:
                continue
            rec, pn, pe = r
            dom = C.segs(rec.dom) and rec.dom
            d = dom[1] if dom[0] == 'enum' else dom
            cx.ob('edges/ok/all', d == L, eng, s, [rec.dom], 'every listed edge must be added, in list order')
            cx.ob('edges/ok/start', rec.inits[pn] == NIL and rec.inits[pe] == NIL, eng, s, [rec.inits[pn], rec.inits[pe]])
    if rec is None:
        cx.ob('edges/ok', False, None, None, [], 'no way to succeed')
        return
    e = elem(rec)
    x, y = fld(e, 0), fld(e, 1)
    for c, u in rec.backs:
        for s in eng.assume(St(), list(c)):
            nd, ed = u.get(pn, pn), u.get(pe, pe)
            for s2, wn, we in add_case(eng, s, pn, pe, (x, y)):
                cx.ob('edges/step/nodes', same_list(eng, s2, nd, wn), eng, s2, [nd, wn], 'an edge must add its unknown ends, left before right')
                cx.ob('edges/step/edges', same_list(eng, s2, ed, we), eng, s2, [ed, we], 'each edge must be listed as given')
                cx.ob('edges/step/unique', eng.entails(s2, f_not(f_or(has(pe, tup(x, y)), has(pe, tup(y, x))))), eng, s2, [], 'a repeated edge is accepted')
    for k, s, v in outs:
        if k == 'ret' and v[0] == 'agg' and v[2] == 1:
            want = err(cx.m.error('DuplicateEdge', x, y))
            cx.ob('edges/error/value', same(eng, s, v, want), eng, s, [v, want], 'only a repeated edge is an error: DuplicateEdge with its ends in order')
            cx.ob('edges/error/justified', eng.entails(s, f_or(has(pe, tup(x, y)), has(pe, tup(y, x)))), eng, s, [], 'an edge that is not a repetition is refused')


def elem(rec):
    """the element handled by iteration k of a loop"""
    d = rec.dom
    if d[0] == 'enum':
        d = d[1]
    if d[0] == 'slice':
        return at(d[1], add(d[2], rec.k))
    return at(d, rec.k)


def graph_fold(eng, v):
    """the record and node and edge phis of a graph built by one loop"""
    if v[0] != 'gr':
        return None
    out = []
    for x in v[1:]:
        if x[0] != 'fold':
            return None
        out.append(x)
    if out[0][1] != out[1][1]:
        return None
    rec = eng.recs[out[0][1]]
    if rec.dom is None:
        return None
    return rec, out[0][2], out[1][2]


def equality(cx):
    G, H = start(cx, g), start(cx, h)
    eng, outs = cx.run(cx.m.trait_impl(DG, 'PartialEq', 'eq'), [G, H], raw={DG})
    # the position map has an entry for each node
    keys = {('unord', ('gidx', G_), 'k'): ('nodes', G_) for G_ in (g, h)}
    for k, s, v in cx.rets(eng, outs, 'eq'):
        ss = [(s, v)]
        if any(mentions(f, lambda t: t in keys) for f, _ in s.path) or mentions(v, lambda t: t in keys):
            ss = [(s1, subst(v, keys)) for s1 in eng.assume(St(), [(subst(f, keys), w) for f, w in s.path])]
        for s2, w in (x for s1, v1 in ss for x in eng.branch(s1, v1)):
            unread = [f for f, t in s2.path if not readable(f)]
            if w:
                n1, n2 = all_in(eng, s2, g, h, 'n'), all_in(eng, s2, h, g, 'n')
                e1, e2 = all_in(eng, s2, g, h, 'e'), all_in(eng, s2, h, g, 'e')
                nn = eng.eval3(s2, eq(length(('nodes', g)), length(('nodes', h)))) is True
                ee = eng.eval3(s2, eq(length(('edges', g)), length(('edges', h)))) is True
                good_n, good_e = (n1 and n2) or (nn and (n1 or n2)), (e1 and e2) or (ee and (e1 or e2))
                verdict(cx, 'eq/true/nodes', good_n, eng, s2, v, unread, 'graphs with different node sets compare equal')
                verdict(cx, 'eq/true/edges', good_e, eng, s2, v, unread, 'graphs with different edge sets compare equal')
            else:
                verdict(cx, 'eq/false', differ(eng, s2), eng, s2, v, unread, 'graphs compare unequal without a differing node or edge')


def verdict(cx, name, good, eng, s, v, unread, text):
    """comparisons of whole contents that the rule cannot read leave it undecided"""
    if not good and unread:
        cx.put(name, 'undecided', 'compares %s' % show(unread[0])[:300], s)
    else:
        cx.ob(name, good, eng, s, [v], text)


def contents(t):
    """(list, is a set) of a term that stands for the contents of a list, in
    no order"""
    if t[0] == 'sext' and t[1] == ('nilset',):
        return t[2], True
    if t[0] == 'fn' and t[1] in ('sort', 'sort_unstable') and len(t[2]) == 1:
        return t[2][0], False
    return None


def compared(f):
    """the two lists whose contents a condition compares"""
    if f[0] != 'eq':
        return None
    x, y = contents(f[1]), contents(f[2])
    if x is None or y is None or x[1] != y[1]:
        return None
    for u, w in ((x[0], y[0]), (y[0], x[0])):
        p, q = side(u), side(w)
        if p and q and p[0] == q[0] and p[1] == g and q[1] == h:
            return p[0], u, w, x[1]
    return None


def side(l):
    d = C.parts(l)[0]
    return d if d[0] in ('nodes', 'edges') and d[1] in (g, h) else None


CONTAINER = ('sext', 'ins', 'srem', 'nilset', 'nilmap', 'mins', 'mrem', 'mext', 'fn', 'fmap', 'filter')


def readable(f):
    """not a comparison of whole contents, or one that the rule reads"""
    if f[0] == 'eq' and (f[1][0] in CONTAINER or f[2][0] in CONTAINER):
        return compared(f) is not None
    return True


def entries(eng, s, l, k=None):
    """states with an arbitrary entry of what a list is made from, and the items
    that stand for it; None when they cannot be told one by one"""
    d, bv, cases = C.parts(l)
    for s1, x in elements(eng, s, d, k):
        for c, items in cases:
            for s2 in eng.assume(s1, [(subst(f, {bv: x}), t) for f, t in c]):
                u = subst(items, {bv: x})
                yield s2, x, (u if u and all(i[0] != 'spread' for i in u) else None)


def all_in(eng, s, p, q, what):
    """every node or edge of p is one of q"""
    goal = (lambda x: hasnode(q, x)) if what == 'n' else (lambda x: adj(q, fld(x, 0), fld(x, 1)))
    l = ('nodes' if what == 'n' else 'edges', p)
    for f, t in s.path:
        r = compared(f)
        if r and t and r[0] == l[0] and matched(eng, s, r, p, goal):
            return True
    for s1, x in elements(eng, s, l):
        for s2 in ([s1] if what == 'n' else beside(eng, s1, p, x)):
            if not eng.entails(s2, goal(x)):
                return False
    return True


def beside(eng, s, p, x):
    """what is known of all nodes and of all neighbors, for the ends of edge x"""
    sts = [s]
    for y, z in ((fld(x, 0), fld(x, 1)), (fld(x, 1), fld(x, 0))):
        sts = [s2 for s1 in sts for s2 in instantiate(eng, s1, ('nodes', p), y)]
        sts = [s2 for s1 in sts for s2 in instantiate(eng, s1, ('N', p, y), z)]
    return sts


def matched(eng, s, r, p, goal):
    """the contents of the two lists are the same: an entry of p has a
    counterpart with the same item, which must make it one of the other"""
    _, lg, lh, _ = r
    mine, other = (lg, lh) if p == g else (lh, lg)
    for s1, x, u in entries(eng, s, mine):
        if u is None:
            return False
        for s2, y, w in entries(eng, s1, other):
            if w is None:
                return False
            for i in w:
                for s3 in eng.assume(s2, [(eq(u[0], i), True)]):
                    if not eng.entails(s3, goal(x)):
                        return False
    return True


def differ(eng, s):
    for l in ('nodes', 'edges'):
        if eng.eval3(s, eq(length((l, g)), length((l, h)))) is False:
            return True
        if {eng.eval3(s, isempty((l, x))) for x in (g, h)} == {True, False}:
            return True
    for t in {t for f, _ in s.path for t in T.subterms(f) if t[0] == 'at'}:
        if t[1][0] in ('nodes', 'edges') and t[1][1] in (g, h):
            o = h if t[1][1] == g else g
            f = hasnode(o, t) if t[1][0] == 'nodes' else adj(o, fld(t, 0), fld(t, 1))
            if eng.eval3(s, f) is False:
                return True
    for f, v in list(s.facts.items()):
        if v is False and f[0] == 'hasnode' and f[1] in (g, h):
            o = h if f[1] == g else g
            if eng.eval3(s, hasnode(o, f[2])) is True:
                return True
        if v is False and f[0] == 'adj' and f[1] in (g, h):
            o = h if f[1] == g else g
            if eng.eval3(s, adj(o, f[2], f[3])) is True:
                return True
    for f, v in s.path:
        if v is False and f[0] == 'eq' and f[1][0] == f[2][0] == 'len':
            x, y = f[1][1], f[2][1]
            if x[0] == y[0] == 'N' and {x[1], y[1]} == {g, h} and eng.eval3(s, eq(x[2], y[2])) is True:
                return True                 # a node of another degree
        r = compared(f)
        if r and not v and faithful(eng, r):
            return True
        if not v and f[0] in ('eq', 'isempty'):
            found = [counted(l, cases) for l, cases in eng.filtered(s, f)]
            if found and all(found):
                return True
    return False


def counted(l, cases):
    """a count of the nodes or edges says that some are not in the other graph"""
    d, bv = l[1], l[2]
    if d[0] not in ('nodes', 'edges') or d[1] not in (g, h):
        return False
    o = h if d[1] == g else g
    f = hasnode(o, bv) if d[0] == 'nodes' else adj(o, fld(bv, 0), fld(bv, 1))
    rest = [c for c, _ in l[3] if (tuple(c), ()) not in cases]
    return all((f, False) in c or d[0] == 'edges' and any((hasnode(o, fld(bv, i)), False) in c for i in (0, 1)) for c in rest)


def faithful(eng, r):
    """do the two lists have the same contents when the graphs are equal: the
    entry for a node, or for an edge either way round, is the same"""
    what, lg, lh, isset = r
    for mine, other in ((lg, lh), (lh, lg)):
        for s1, x, u in entries(eng, St(), mine):
            for s2, y, w in entries(eng, s1, other):
                if u is None or w is None or not isset and not len(u) == len(w) == 1:
                    return False
                ways = [[(eq(x, y), True)]]
                if what == 'edges':
                    ways = [[(eq(fld(x, i), fld(y, 0)), True), (eq(fld(x, 1 - i), fld(y, 1)), True)] for i in (0, 1)]
                for c in ways:
                    for s3 in eng.assume(s2, c):
                        if not all(eng.entails(s3, f_or(*[eq(i, j) for j in w])) for i in u):
                            return False
    return True
