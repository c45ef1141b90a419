"""Obligations on the traversals and on component extraction."""
from engine.terms import *
from engine import terms as T
from engine.interp import St, Unsupported
from engine.model import *
from engine.contract import hasnode, graph_axiom, origin
from engine.compare import same, same_list, same_set, elements, fresh, segs, lists, base_differs
from engine import compare as C

g = ('var', 'g')
V, P, r = ('var', 'V'), ('var', 'P'), ('var', 'r')


def trav_roles(cx, ty):
    ix = {
        'seen': cx.m.field_index(ty, lambda f: tystr(f['ty']) in ('HashSet<usize>', 'BTreeSet<usize>'), 'the set of seen nodes'),
        'pending': cx.m.field_index(ty, lambda f: tystr(f['ty']) in ('Vec<tuple(usize,usize)>', 'VecDeque<tuple(usize,usize)>'), 'the pending edges'),
        'graph': cx.m.field_index(ty, lambda f: f['ty'].get('k') == 'ref', 'the graph'),
    }
    return ix


def fixed_root(cx, ty):
    """the fields that a traversal is given its root in, and never changes"""
    ix = trav_roles(cx, ty)
    rest = {i for i in range(len(cx.m.fields(ty))) if i not in ix.values()}
    if not rest:
        return rest
    fn = cx.fn
    eng, outs = cx.run(cx.m.inherent(ty, 'new'), [g, r], raw={ty})
    for k, s, v in outs:
        if k == 'ret' and v[0] == 'agg' and v[2] == 0:
            rest = {i for i in rest if v[3][0][0] == 'agg' and same(eng, s, v[3][0][3][i], r)}
    v0 = make(cx, ty, V, P)
    st = St()
    me = cell(st, 'self', v0)
    eng, outs = cx.run(next_fn(cx, ty), [me], st, raw={ty}, axioms=[pending_axiom])
    for k, s, v in outs:
        after = s.mem[me[1]]
        rest = {i for i in rest if after[0] == 'agg' and after[3][i] == v0[3][i]}
    cx.fn = fn
    return rest


def make(cx, ty, seen, pending):
    ix = trav_roles(cx, ty)
    return ('agg', ty, 0, cx.m.blank(ty, {ix['seen']: seen, ix['pending']: pending, ix['graph']: g}))


def part(cx, ty, v, role):
    return v[3][trav_roles(cx, ty)[role]] if v[0] == 'agg' else ('app', 'field', (v,))


def pending_axiom(eng, st, a):
    """what holds of every pending edge (x, y): x has been seen, y is a
    neighbor of x"""
    def ispend(t):
        return t[0] == 'at' and any(l == P or l[0] == 'phi' for l in origin(t)) and any(l == P for l in origin(t))
    def source(x):
        return any(y[0] == 'fld' and y[2] == 0 and ispend(y[1]) for y in cands(st, x))
    if a[0] == 'hasnode' and a[1] == g:
        x = a[2]
        if any(y[0] == 'fld' and ispend(y[1]) for y in cands(st, x)):
            return True
        if eng.lookup(st, has(V, x)) is True:
            return True
    if a[0] == 'adj' and a[1] == g:
        for x, y in ((a[2], a[3]), (a[3], a[2])):
            cy = list(cands(st, y))
            for z in cands(st, x):
                if z[0] == 'fld' and z[2] == 0 and fld(z[1], 1) in cy and ispend(z[1]):
                    return True
    if a[0] == 'isempty' and a[1] == V:
        return False                        # the root has been seen
    if a[0] == 'has' and a[1] == V:
        x = a[2]
        if source(x):
            return True
        if st.facts.get(hasnode(g, x)) is False:
            return False
    return None


def step_fields(cx, v):
    i = cx.m.step_roles()
    return v[3][i['sid']], v[3][i['tid']], v[3][i['cut']]


def next_fn(cx, ty):
    return cx.m.trait_impl(ty, 'Iterator', 'next')


def pops_back(cx, ty):
    """does next take the pending edge at the back (True) or the front"""
    if not hasattr(cx, 'popend'):
        cx.popend = {}
    if ty in cx.popend:
        return cx.popend[ty]
    st = St()
    me = cell(st, 'self', make(cx, ty, V, P))
    fn = cx.fn
    eng, outs = cx.run(next_fn(cx, ty), [me], st, raw={ty}, axioms=[pending_axiom])
    ends = set()
    for k, s, v in outs:
        if k == 'ret' and v[0] == 'agg' and v[2] == 1 and v[3][0][0] == 'agg':
            b, f = (mentions(v, lambda t: t == at(P, i)) for i in (sub(length(P), I(1)), I(0)))
            ends.add(b if b != f else None)
    cx.fn = fn
    if ends == {True, False}:
        # no end is the one: judged for each
        cx.nexts = getattr(cx, 'nexts', {})
        cx.nexts[ty] = (eng, outs, me)
        raise BothEnds()
    if len(ends) != 1 or None in ends:
        raise Missing('%s::next takes pending edges neither from the front nor from the back only' % ty)
    cx.popend[ty] = ends.pop()
    cx.nexts = getattr(cx, 'nexts', {})
    cx.nexts[ty] = (eng, outs, me)
    return cx.popend[ty]


class BothEnds(Exception):
    pass


def judged(cx, ty, tag):
    try:
        pops_back(cx, ty)
        ends = [cx.popend[ty]]
    except BothEnds:
        ends = [True, False]
    tries = []
    obs = cx.obs
    for end in ends:
        cx.popend[ty], cx.obs = end, []
        new(cx, ty, tag)
        nexts(cx, ty, tag)
        tries.append(cx.obs)
    # if it works out for one end all is well
    obs.extend(min(tries, key=lambda os: (sum(o['status'] == 'fail' for o in os), sum(o['status'] == 'undecided' for o in os))))
    cx.obs = obs


def new(cx, ty, tag):
    back = pops_back(cx, ty)
    eng, outs = cx.run(cx.m.inherent(ty, 'new'), [g, r], raw={ty})
    for k, s, v in cx.rets(eng, outs, tag + '/new'):
        for s2, w in eng.branch(s, hasnode(g, r)):
            if not w:
                want = err(cx.m.error('MissingNode', r))
                cx.ob(tag + '/new/missing-root', same(eng, s2, v, want), eng, s2, [v, want], 'a traversal from an unknown root must be refused with MissingNode(root)')
                continue
            good = v[0] == 'agg' and v[1] == 'Result' and v[2] == 0
            cx.ob(tag + '/new/ok', good, eng, s2, [v], 'a traversal from a node of the graph must start')
            if not good:
                continue
            t = v[3][0]
            cx.ob(tag + '/new/seen', same_set(eng, s2, part(cx, ty, t, 'seen'), ins(EMPTYSET, r)), eng, s2, [part(cx, ty, t, 'seen')], 'exactly the root has been seen at the start')
            cx.ob(tag + '/new/graph', same(eng, s2, part(cx, ty, t, 'graph'), g), eng, s2, [part(cx, ty, t, 'graph')])
            p = part(cx, ty, t, 'pending')
            x = rev(p) if back else p
            b1 = ('bv', 700)
            want = fmap(('N', g, r), b1, (((), (tup(r, b1),)),))
            cx.ob(tag + '/new/pending', same_list(eng, s2, x, want, unordered=True), eng, s2, [x, want], 'every edge at the root must be pending at the start, and nothing else')
            cx.ob(tag + '/new/order', same_list(eng, s2, x, want), eng, s2, [x, want], 'the edges at the root must be taken in neighbor order')


def nexts(cx, ty, tag):
    back = pops_back(cx, ty)
    cx.fn = next_fn(cx, ty)
    eng, outs, me = cx.nexts[ty]
    i = sub(length(P), I(1)) if back else I(0)
    e = at(P, i)
    p, n = fld(e, 0), fld(e, 1)
    rest = slice_(P, I(0), i) if back else slice_(P, I(1), length(P))
    for k, s, v in cx.rets(eng, outs, tag + '/next'):
        if eng.eval3(s, isempty(P)) is False:
            s = seen_source(eng, s, e)
        after = s.mem[me[1]]
        if after[0] != 'agg':
            cx.ob(tag + '/next/more', False, eng, s, [after, v])
            continue
        seen, pend = part(cx, ty, after, 'seen'), part(cx, ty, after, 'pending')
        for s2, empty in eng.branch(s, isempty(P)):
            if empty:
                cx.ob(tag + '/next/end', same(eng, s2, v, NONE), eng, s2, [v], 'with nothing pending the traversal must end')
                continue
            some_ = v[0] == 'agg' and v[1] == 'Option' and v[2] == 1
            cx.ob(tag + '/next/more', some_, eng, s2, [v], 'with edges pending the traversal must not end')
            if not some_:
                continue
            sid, tid, cut = step_fields(cx, v[3][0])
            cx.ob(tag + '/next/edge', lambda e, x, *y: same(e, x, y[0], p) and same(e, x, y[1], n), eng, s2, [sid, tid], 'the step must be the pending edge that was taken')
            cx.ob(tag + '/next/graph', same(eng, s2, part(cx, ty, after, 'graph'), g), eng, s2, [part(cx, ty, after, 'graph')])
            for s3, w in eng.branch(s2, has(V, n)):
                cx.ob(tag + '/next/cut', lambda e, x, c, _: same(e, x, c, B(w)), eng, s3, [cut, has(V, n)], 'a step is a cut exactly when its target has been seen')
                want = V if w else ins(V, n)
                cx.ob(tag + '/next/seen', lambda e, x, a, b: a == b or same_set(e, x, a, b), eng, s3, [seen, want], 'the target of a step has been seen, and no other node in addition')
                if w:
                    cx.ob(tag + '/next/cut/pending', same_list(eng, s3, pend, rest), eng, s3, [pend, rest], 'a cut must leave the other pending edges alone')
                else:
                    pending(cx, eng, s3, tag, back, ty == DFS, rest, pend, p, n)


def seen_source(eng, s, e):
    """the source of a pending edge has been seen"""
    f = eng.norm(s, has(V, fld(e, 0)))
    if f[0] == 'has' and f not in s.facts and eng.lookup(s, f) is True:
        s = s.copy()
        eng.add(s, f, True)
    return s


def pending(cx, eng, s, tag, back, deep, rest, pend, p, n):
    """the pending edges after a new node n was found from p"""
    flip = back != deep             # orientation in which the new edges come last
    o = rev if flip else (lambda l: l)
    X, base = o(pend), o(rest)
    try:
        kept, purged, pushes = decompose(eng, s, X, base, p, n, flip)
    except NoForm as x:
        for f in ('kept', 'found', 'exact', 'order') + (('purged',) if deep else ()):
            cx.ob('%s/next/new/%s' % (tag, f), False, eng, s, [X], 'the pending edges are not the former ones followed by edges of the new node: %s' % x)
        return
    N = ('N', g, n)
    b1 = ('bv', 700)
    cx.ob(tag + '/next/new/kept', kept, eng, s, [X], 'pending edges to other nodes must stay pending, in their order', True)
    if deep:
        cx.ob(tag + '/next/new/purged', purged, eng, s, [X], 'pending edges into the new node must be dropped, as the new node reports them', True)
        want = fmap(N, b1, ((((eq(b1, p), False),), (tup(n, b1),)), (((eq(b1, p), True),), ())))
    else:
        keep = ((eq(b1, p), False), (has(V, b1), False))
        want = fmap(N, b1, ((keep, (tup(n, b1),)), (((eq(b1, p), True),), ()), (((eq(b1, p), False), (has(V, b1), True)), ())))
    want = rev(want) if deep else want
    exact = same_list(eng, s, pushes, want, unordered=True)
    order = same_list(eng, s, pushes, want)
    base = not order and base_differs(eng, s, pushes, want)
    cx.ob(tag + '/next/new/exact', exact, eng, s, [pushes, want],
          'exactly the edges of the new node must become pending, but for the one it was found by' + ('' if deep else ' and those to seen nodes'), base)
    cx.ob(tag + '/next/new/order', order, eng, s, [pushes, want], 'the edges of the new node must be explored in neighbor order', base)
    cx.ob(tag + '/next/new/found', exact or found(eng, s, pushes, n), eng, s, [pushes], 'every unseen neighbor of the new node must become pending, and only its neighbors')


class NoForm(Exception):
    pass


def found(eng, s, pushes, n):
    ss = C.live_segs(eng, s, pushes)
    if len(ss) != 1 or ss[0][0] == 'one':
        return False
    d, bv, cases = C.parts(ss[0])
    d = C.strip_order(d)
    if d != ('N', g, n):
        return False
    for s2, x in elements(eng, s, d):
        for c, items in cases:
            for s3 in eng.assume(s2, [(subst(f, {bv: x}), v) for f, v in c]):
                its = [subst(y, {bv: x}) for y in items]
                if any(not same(eng, s3, y, tup(n, x)) for y in its):
                    return False
                for s4, w in eng.branch(s3, f_or(has(V, x), eq(x, n))):
                    if not w and not its:
                        return False
    return True


def decompose(eng, s, X, base, p, n, flip):
    """X = filtered base followed by pushes: (kept, purged, pushes)"""
    ss = list(C.live_segs(eng, s, X))
    head, tail = (ss[0], ss[1:]) if ss else (NIL, [])
    if head == base or eng.eval3(s, isempty(base)) is True and (not ss or not mentions(head, lambda t: t == base)) and head[0] != 'fold':
        if head != base:
            tail = ss
        return True, False, mkL(tail)
    if head[0] == 'rev' and head[1][0] == 'fold':
        return from_fold(eng, s, head[1], tail, base, p, n, True)
    if head[0] == 'fold':
        return from_fold(eng, s, head, tail, base, p, n, False)
    if head[0] == 'fmap' and head[1] == base:
        kept, purged = filtered(eng, s, head, base, p, n, None)
        return kept, purged, mkL(tail)
    raise NoForm(show(head)[:80])


def refuted(eng, s, N, y):
    """can y, a neighbor of the new node (a pending edge leads there from it), not be so,
    by what is said of all its neighbors"""
    for l, bv, cases in s.foralls:
        if eng.norm(s, C.strip_order(l)) != eng.norm(s, N):
            continue
        if not any(True for c, _ in cases for _s in eng.assume(s, [(subst(f, {bv: y}), v) for f, v in c])):
            return True
    return False


def filtered(eng, s, fm, base, p, n, nb):
    """does the filter fm keep exactly the right elements e: (keeps every e with
    e.1 != n, drops every e with e.1 == n).  With nb: exactly e != (nb, n)"""
    d, bv, cases = fm[1:]
    kept = purged = True
    k = fresh('k')
    N = ('N', g, n)
    for s1 in eng.assume(s, [(lt(k, length(d)), True)]):
        x = at(d, k)
        s1 = seen_source(eng, s1, x)
        if any(i not in ((), (bv,)) for _, i in cases):
            return False, False
        for c, items in cases:
            for s2 in eng.assume(s1, [(subst(f, {bv: x}), v) for f, v in c]):
                if nb is None:
                    f = f_and(eq(fld(x, 1), n), f_not(eq(fld(x, 0), p)))
                    for s3, hit in eng.branch(s2, eq(fld(x, 1), n)):
                        if hit and eng.eval3(s3, eq(fld(x, 0), p)) is True:
                            continue        # the edge just taken is not pending twice
                        if hit and items:
                            for s4, w in eng.branch(s3, eq(fld(x, 0), p)):
                                if not w and not refuted(eng, s4, N, fld(x, 0)):
                                    purged = False
                        if not hit and not items:
                            kept = False
                else:
                    for s3, hit in eng.branch(s2, f_and(eq(fld(x, 0), nb), eq(fld(x, 1), n))):
                        if hit and items:
                            purged = False
                        if not hit and not items:
                            kept = False
    return kept, purged


def from_fold(eng, s, fold, tail, base, p, n, flipped):
    rec = eng.recs[fold[1]]
    phi, init = fold[2], fold[3]
    if rec.dom is None:
        raise NoForm('a loop whose range is unknown')
    o = rev if flipped else (lambda l: l)
    init = o(init)
    beta = o(phi)
    kept = purged = True
    early = False
    if init != base:
        ss = list(segs(init))
        if ss and ss[0][0] == 'fmap' and ss[0][1] == base and len(ss) == 1:
            kept, early = filtered(eng, s, ss[0], base, p, n, None)
        elif ss and ss[0][0] in ('fold', 'rev'):
            kept, early, t0 = decompose(eng, s, init, base, p, n, flipped)
            if t0 != NIL:
                raise NoForm('several loops that push')
        else:
            raise NoForm(show(init)[:80])
    dom = rec.dom[1] if rec.dom[0] == 'enum' else rec.dom
    N = ('N', g, n)
    x = rec_elem(rec)
    over = dom[1] if dom[0] == 'fmap' else dom
    if strip_part(over) != N:
        raise NoForm('a loop over %s' % show(dom)[:300])
    pc = []
    for c, u in rec.backs:
        up = o(u.get(phi, phi))
        ss = list(segs(up))
        items = []
        while ss and ss[-1][0] == 'one':
            items.insert(0, ss.pop()[1])
        b = mkL(ss)
        for s1 in eng.assume(s, [(f, v) for f, v in c]):
            if b == beta:
                k1, p1 = True, False
            elif b[0] == 'fmap' and b[1] == beta:
                k1, p1 = filtered(eng, s1, b, beta, p, n, x)
            elif removal(eng, s1, b, beta, x, n):
                k1, p1 = True, True
            elif b[0] in ('slice', 'upd', 'L', 'rev', 'fmap') and mentions(b, lambda t: t == phi) and not mentions(b, lambda t: t[0] in ('app', 'havoc', 'const', 'fold', 'rec')):
                k1 = p1 = False         # keeps neither all nor all but the element
            else:
                raise NoForm(show(b)[:120])
            kept = kept and k1
            if not p1 and eng.lookup(s1, has(phi, tup(x, n))) is False:
                p1 = True
            for s2, w in eng.branch(s1, f_and(has(V, x), f_not(eq(x, p)))):
                if w and not p1:
                    purged = False
        bv = ('bv', 600)
        m = {x: bv}
        pc.append((tuple((subst(f, m), v) for f, v in c if not mentions(f, lambda t: t == rec.k and False) and not T_trip(f, v, rec)), tuple(subst(i, m) for i in items)))
    # iterations with a neighbor left out beforehand never purge
    if C.strip_order(over) != N:
        purged = False
    elif dom[0] == 'fmap':
        for s1, y in elements(eng, s, C.strip_order(dom[1])):
            for c, items in dom[3]:
                for s2 in eng.assume(s1, [(subst(f, {dom[2]: y}), v) for f, v in c]):
                    if not items:
                        for s3, w in eng.branch(s2, f_and(has(V, y), f_not(eq(y, p)))):
                            if w:
                                purged = False
    pushes = fmap(dom, ('bv', 600), tuple(pc))
    return kept, purged or early, mkL(list(segs(pushes)) + tail)


def T_trip(f, v, rec):
    from engine.interp import trip_of
    return trip_of(f, v, rec.k) is not None


def rec_elem(rec):
    d = rec.dom
    if d[0] == 'enum':
        d = d[1]
    return at(d, rec.k)


def strip_part(l):
    while l[0] in ('rev', 'slice') or C.sorted_ids(l):
        l = l[2][0] if l[0] == 'fn' else l[1]
    return l


def removal(eng, s, b, beta, x, n):
    """b is beta without the element at a position known to hold (x, n)"""
    ss = segs(b)
    if len(ss) == 2 and ss[0][0] == 'slice' and ss[1][0] == 'slice' and ss[0][1] == beta == ss[1][1]:
        i = ss[0][3]
        if ss[0][2] == I(0) and ss[1][2] == add(i, I(1)) and ss[1][3] == length(beta):
            y = eng.norm(s, at(beta, i))
            return same(eng, s, fld(y, 0), x) and same(eng, s, fld(y, 1), n)
    return False


# ------------------------------------------------------------ conversions
S = ('steps', 'd', g, r)


def step_axiom(eng, st, a):
    """what a depth-first traversal's steps guarantee to a loop over them that
    has listed the nodes and edges so far (phis of that loop, by induction):
    the source of a step has been listed, its target exactly if it is a cut,
    and its edge has not"""
    h = a[0]
    s0 = at(S, I(0))
    r0, t0 = fld(s0, 0), fld(s0, 1)
    cut0 = st.facts.get(fld(s0, 2))

    def isstep(t):
        return t[0] == 'at' and t[1] == S

    def eq3(x, y):
        x, y = eng.norm(st, x), eng.norm(st, y)
        f = eq(x, y)
        if f[0] == 'b':
            return f[1]
        v = st.facts.get(f)
        return False if v is None and differ(x, y) else v

    def differ(x, y):
        ks = {t for z in (x, y) for t in T.subterms(z) if isstep(t)} | {t for z in st.rep for t in T.subterms(z) if isstep(t)}
        for k in ks:
            if k == s0:
                continue
            new = st.facts.get(fld(k, 2)) is False
            k0, k1 = eng.norm(st, fld(k, 0)), eng.norm(st, fld(k, 1))
            n0, n1 = eng.norm(st, r0), eng.norm(st, t0)
            if {x, y} == {n0, k1} and new:
                return True                 # the root is never found anew
            if {x, y} == {k0, k1} and new:
                return True
            if {x, y} == {n1, k1} and cut0 is False and new:
                return True                 # a node is found anew once
            m = lambda t: subst(t, {y: x})
            A = (m(n0), m(n1))
            B_ = (m(k0), m(k1))
            if A == B_ or A == B_[::-1]:
                return True                 # distinct steps report distinct edges
        return False

    def listed(x):
        """has x been listed before step k, of which it is an end"""
        for y in cands(st, x):
            if y[0] == 'fld' and isstep(y[1]) and y[1] != s0:
                if y[2] == 0:
                    return True
                if y[2] == 1 and st.facts.get(fld(y[1], 2)) is not None:
                    return st.facts[fld(y[1], 2)]
        return None

    def inphi(x):
        """is x among what the loop has listed since the first step"""
        v = None
        for y in cands(st, x):
            if y[0] == 'fld' and y[1] == at(S, I(1)):
                v = False
        for f, w in st.facts.items():
            if f[0] == 'has' and f[1][0] == 'phi' and f[2] == x:
                if w:
                    return True
                v = False
        return v

    def second(x):
        """is x the target of the first step, found anew by it"""
        return False if cut0 else eq3(t0, x)
    if h == 'has' and a[1][0] == 'phi':
        x = eng.norm(st, a[2])
        if x[0] == 'agg' and x[1] == 'tuple':
            p, q = x[3]
            if p[0] == 'fld' and isstep(p[1]) or q[0] == 'fld' and isstep(q[1]):
                return False                # an edge is reported once
            return None
        v = listed(x)
        if v is False:
            return False
        if v and eq3(r0, x) is False and second(x) is False:
            return True
        return None
    if h == 'eq':
        x, y = a[1], a[2]
        if differ(x, y):
            return False
        if {x, y} == {r0, t0} and cut0 is not None:
            return cut0                     # the first step is a cut iff it is a self-loop
        if {x, y} == {r0, r}:
            return True
        n0, n1 = eng.norm(st, r0), eng.norm(st, t0)
        for u, w in ((x, y), (y, x)):
            if u in (n0, n1) and listed(w) and inphi(w) is False:
                if u == n0 and second(w) is False:
                    return True
                if u == n1 and cut0 is False and eq3(r0, w) is False:
                    return True
        return None
    if a == fld(s0, 2):
        return eq3(r0, t0)
    if h == 'fld' and a[2] == 2 and isstep(a[1]):
        x, y = eng.norm(st, fld(a[1], 0)), eng.norm(st, fld(a[1], 1))
        if x == y:
            return True                     # a self-loop is a cut
        vs = (eq3(r0, y), second(y), inphi(y))
        if True in vs:
            return True
        if vs == (False, False, False):
            return False
    return None


def table_axiom(eng, st, a):
    """a traversal's edges connect its nodes"""
    if a[0] == 'has' and a[1][0] == 'dnodes':
        for l in (l for y in cands(st, a[2]) if y[0] == 'fld' for l in origin(y[1])):
            if l == ('dedges',) + a[1][1:]:
                return True


def cands(st, x):
    yield x
    for k, v in st.rep.items():
        if v == x:
            yield k


def conversion(cx, path, tag, graph):
    cx.m.roots = {DFS: fixed_root(cx, DFS)}
    cx.m.pending = DFS, trav_roles(cx, DFS)['pending']
    eng = cx.engine(axioms=[step_axiom, table_axiom])
    eng, outs = cx.run(path, [('dfs', g, r)], eng=eng)
    via = graph and eng.contract.used.get('DepthFirst::into_table')
    if not via:
        # the first step is told apart from the others
        eng = cx.engine(axioms=[step_axiom])
        eng.peel = lambda key, fr: True
        eng, outs = cx.run(path, [('dfs', g, r)], eng=eng)
    b1 = ('bv', 500)
    for k, s, v in cx.rets(eng, outs, tag):
        if graph:
            good = v[0] == 'agg' and v[1] == 'Result' and v[2] == 0
            cx.ob(tag + '/ok', good, eng, s, [v], 'the conversion of a traversal must succeed')
            if not good:
                continue
            v = v[3][0]
        parts = v[1:] if v[0] == 'gr' else v[3] if v[0] == 'agg' and v[1] == 'tuple' else None
        if parts is None:
            cx.ob(tag + '/value', False, eng, s, [v])
            continue
        if via:
            for i, w, n in ((0, ('dnodes', g, r), 'nodes'), (1, ('dedges', g, r), 'edges')):
                cx.ob('%s/%s' % (tag, n), same_list(eng, s, parts[i], w), eng, s, [parts[i], w], 'the %s must be those of the traversal\'s table' % n)
            continue
        for s2, empty in eng.branch(s, isempty(S)):
            if empty:
                cx.ob(tag + '/empty', all(eng.eval3(s2, isempty(x)) is True for x in parts), eng, s2, [v], 'a traversal without steps has no nodes and no edges')
                continue
            tids = fmap(S, b1, ((((fld(b1, 2), True),), ()), (((fld(b1, 2), False),), (fld(b1, 1),))))
            pairs = fmap(S, b1, (((), (tup(fld(b1, 0), fld(b1, 1)),)),))
            s0 = at(S, I(0))
            for s3, w in eng.branch(s2, fld(s0, 2)):
                nodes = ('peeled', [('one', fld(s0, 0))] + ([] if w else [('one', fld(s0, 1))]), tids)
                edges = ('peeled', [('one', tup(fld(s0, 0), fld(s0, 1)))], pairs)
                for i, w, n, d in ((0, nodes, 'nodes', 'the nodes must be the root and then the target of each step that is not a cut, in step order'),
                                   (1, edges, 'edges', 'the edges must be those of the steps, in step order and direction')):
                    good = peeled(eng, s3, parts[i], w)
                    cx.ob('%s/%s' % (tag, n), good or (lambda e, x, l, _, w=w: peeled(e, x, l, w)), eng, s3, [parts[i], w[2]], d,
                          not good and (base_differs(eng, s3, parts[i], mkL(w[1] + [rest_of(w[2])])) or step_differs(eng, s3, parts[i], n)))


def rest_of(full):
    return fmap(slice_(S, I(1), length(S)), full[2], full[3])


def peeled(eng, s, l, want):
    _, first, full = want
    rest = rest_of(full)
    l = eng.norm(s, l)
    opts = [mkL(first + [rest])]
    if len(first) == 1 and full[3][0][0] == ():
        opts.append(full)
    for o in opts:
        if same_list(eng, s, close(eng, s, l), o):
            return True
    # not peeled: [root] ++ items of all steps
    return same_list(eng, s, l, mkL([first[0], full])) if len(full[3]) > 1 else False


def close(eng, s, l):
    """folds of the loop over the steps whose updates are guarded by what the
    steps guarantee"""
    out = []
    for x in segs(l):
        if x[0] == 'fold':
            c = close_fold(eng, s, x)
            if c is not None:
                out.extend(segs(c))
                continue
        out.append(x)
    return mkL(out)


def close_fold(eng, s, x):
    rec, phi, init = eng.recs[x[1]], x[2], x[3]
    if rec.dom is None:
        return None
    d = rec.dom[1] if rec.dom[0] == 'enum' else rec.dom
    if d != S and not (d[0] == 'slice' and d[1] == S):
        return None
    e = at(d, rec.k)
    bv = ('bv', 400)
    cases = []
    for c, u in rec.backs:
        up = segs(u.get(phi, phi))
        if up.count(phi) != 1 or up[0] != phi or any(y[0] != 'one' for y in up[1:]):
            return None
        for s1 in eng.assume(before_loop(eng, s), list(c)):
            for s2, w in eng.branch(s1, fld(e, 2)):
                items = tuple(subst(origin_form(eng, s2, y[1], e), {e: bv}) for y in up[1:])
                cases.append((((fld(bv, 2), w),), items))
    if any(mentions(i, lambda t: t[0] == 'phi') for _, i in cases):
        return None
    return cat(init, fmap(d, bv, tuple(dict.fromkeys(cases))))


def step_differs(eng, s, l, what):
    """on some way through the loop over the steps, which is open to a step of
    any shape, what is listed for the step is not what the step says"""
    for x in segs(eng.norm(s, l)):
        if x[0] != 'fold':
            continue
        rec, phi = eng.recs[x[1]], x[2]
        if rec.dom is None:
            continue
        d = rec.dom[1] if rec.dom[0] == 'enum' else rec.dom
        if d != S and not (d[0] == 'slice' and d[1] == S):
            continue
        e = at(d, rec.k)
        for c, u in rec.backs:
            up = list(segs(u.get(phi, phi)))
            if up[:1] != [phi] or any(y[0] != 'one' for y in up[1:]) or not all(shape(f, v, e, rec) for f, v in c):
                continue
            for s1 in eng.assume(before_loop(eng, s), list(c)):
                for s2, w in eng.branch(s1, fld(e, 2)):
                    for s3, loop in eng.branch(s2, eq(fld(e, 0), fld(e, 1))):
                        if loop and any(f[0] != 'fld' for f, _ in c):
                            continue
                        want = [tup(fld(e, 0), fld(e, 1))] if what == 'edges' else [] if w else [fld(e, 1)]
                        got = [y[1] for y in up[1:]]
                        if len(got) != len(want) or not all(same(eng, s3, y, z) for y, z in zip(got, want)):
                            return True
    return False


def shape(f, v, e, rec):
    """a condition that says no more about a step than whether it is a cut, how
    its ends compare, and that enough has been listed"""
    from engine.interp import trip_of
    if trip_of(f, v, rec.k) is not None or f == fld(e, 2):
        return True
    ends = {fld(e, 0), fld(e, 1)}
    if f[0] == 'eq':
        return not v and set(f[1:3]) == ends
    if f[0] == 'isempty' and f[1][0] == 'phi':
        return not v
    if f[0] == 'pos':
        d = dict(f[2])
        if set(d) == ends:
            return sorted(d.values()) == [-1, 1]
        if len(d) == 1:
            (t, n), = d.items()
            if t[0] == 'len' and t[1][0] == 'phi':
                return v == (n > 0)         # at least so many
    return False


def origin_form(eng, s, y, e):
    """the step component that the pushed value equals"""
    for i in (0, 1):
        if y == fld(e, i):
            return y
    for i in (0, 1):
        if eng.norm(s, y) == eng.norm(s, fld(e, i)):
            return fld(e, i)
    return y


def before_loop(eng, s):
    """what s knows that does not come from loops"""
    t = eng.assume(St(), [(f, v) for f, v in s.path if f[0] != 'all' and not mentions(f, lambda x: x[0] in ('fold', 'phi', 'k'))])
    return t[0] if len(t) == 1 else St()


# -------------------------------------------------------------- components
I_ = ('var', 'I')


def comp_roles(cx):
    ix = {
        'seen': cx.m.field_index(COMPS, lambda f: tystr(f['ty']) in ('HashSet<usize>', 'BTreeSet<usize>'), 'the set of visited nodes'),
        'iter': cx.m.field_index(COMPS, lambda f: f['ty'].get('k') == 'adt' and f['ty']['path'].split('::')[-1] == 'Box', 'the node iterator'),
        'graph': cx.m.field_index(COMPS, lambda f: f['ty'].get('k') == 'ref', 'the graph'),
    }
    return ix


def comp_axiom(eng, st, a):
    """the iterator runs over nodes of the graph"""
    if a[0] == 'hasnode' and a[1] == g and a[2][0] == 'at' and any(l == I_ for l in origin(a[2])):
        return True
    if a[0] == 'has' and a[1][0] == 'dnodes' and a[1][1] == g and a[2] == a[1][2]:
        return eng.eval3(st, f_not(isempty(('N', g, a[2]))))
    if a[0] == 'isempty' and a[1][0] == 'N' and a[1][1] == g:
        listed = st.facts.get(has(('dnodes', g, a[1][2]), a[1][2]))
        if listed is not None:
            return not listed
    if a[0] == 'eq':
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if st.facts.get(has(('dnodes', g, x), y)) is False and st.facts.get(isempty(('N', g, x))) is False:
                return False            # a traversal that takes a step lists its root
    return None


def components(cx):
    ix = comp_roles(cx)
    eng, outs = cx.run(cx.m.free(COMPFN), [g], raw={COMPS})
    for k, s, v in cx.rets(eng, outs, 'components'):
        if v[0] != 'agg' or v[1] != COMPS:
            cx.ob('components/start', False, eng, s, [v])
            continue
        f = v[3]
        cx.ob('components/start/seen', eng.eval3(s, isempty(f[ix['seen']])) is True, eng, s, [f[ix['seen']]], 'no node is covered at the start')
        cx.ob('components/start/nodes', same(eng, s, f[ix['iter']], ('it', ('nodes', g), ())), eng, s, [f[ix['iter']]], 'the listing must run over all nodes in node order')
        cx.ob('components/start/graph', same(eng, s, f[ix['graph']], g), eng, s, [f[ix['graph']]])
    st = St()
    me = cell(st, 'self', ('agg', COMPS, 0, cx.m.blank(COMPS, {ix['seen']: V, ix['iter']: ('it', I_, ()), ix['graph']: g})))
    eng, outs = cx.run(cx.m.trait_impl(COMPS, 'Iterator', 'next'), [me], st, raw={COMPS}, axioms=[comp_axiom])
    for k, s, v in cx.rets(eng, outs, 'components/next'):
        after = s.mem[me[1]]
        if after[0] != 'agg':
            cx.ob('components/next/value', False, eng, s, [after, v])
            continue
        after = after[3]
        it = after[ix['iter']]
        if v == NONE:
            good = all(eng.eval3(s2, has(V, x)) is True for s2, x in elements(eng, s, I_))
            cx.ob('components/next/end', good, eng, s, [], 'the listing may end only when every remaining node is covered')
            continue
        val = v[3][0] if v[0] == 'agg' and v[1] == 'Option' and v[2] == 1 else None
        if val is None:
            cx.ob('components/next/value', False, eng, s, [v])
            continue
        # the root: the iterator stands behind it
        lst_ = it[1] if it[0] == 'it' and not it[2] else None
        root = None
        if lst_ == NIL or lst_ is not None and eng.eval3(s, isempty(lst_)) is True and lst_[0] != 'slice':
            root = at(I_, sub(length(I_), I(1)))
        elif lst_ is not None and lst_[0] == 'slice' and lst_[1] == I_ and lst_[3] == length(I_):
            root = at(I_, sub(lst_[2], I(1)))
        cx.ob('components/next/advance', root is not None, eng, s, [it], 'the node iterator must stand behind the chosen node')
        if root is None:
            continue
        k0 = root[2]
        root = eng.norm(s, root)
        cx.ob('components/next/uncovered', eng.eval3(s, has(V, root)) is False, eng, s, [has(V, root)], 'a component must start from a node that is not covered')
        first = before(eng, s, k0)
        cx.ob('components/next/first', first, eng, s, [], 'a component must start from the first uncovered node')
        Dn, De = ('dnodes', g, root), ('dedges', g, root)
        seen = after[ix['seen']]
        for s2, alone in eng.branch(s, isempty(('N', g, root))):
            if alone:
                good = val[0] == 'gr' and same_list(eng, s2, val[1], lst(root)) and eng.eval3(s2, isempty(val[2])) is True
                cx.ob('components/next/single', good, eng, s2, [val], 'a node without edges must form a component of its own')
                # the listing never comes back to a node that it has passed, so covering it is optional
                cx.ob('components/next/single/seen', same_set(eng, s2, seen, ins(V, root)) or same_set(eng, s2, seen, V), eng, s2, [seen], 'the component, and nothing else, may be covered afterwards')
            else:
                good = val[0] == 'gr' and same_list(eng, s2, val[1], Dn) and same_list(eng, s2, val[2], De)
                cx.ob('components/next/graph', good, eng, s2, [val], 'the component must be what a traversal from its first node reaches')
                if eng.eval3(s2, has(seen, root)) is True:
                    # the first of the component's nodes is its root
                    seen = subst(seen, {('slice', Dn, I(1), length(Dn)): Dn})
                cx.ob('components/next/seen', same_set(eng, s2, seen, sext(ins(V, root), Dn)), eng, s2, [seen], 'exactly the nodes of the component must be covered afterwards')


def before(eng, s, k0):
    if k0 == I(0):
        return True
    for dom, K, bv, fc, rid in s.befores:
        lo = dom[2] if dom[0] == 'slice' and dom[1] == I_ else I(0)
        if not same(eng, s, add(lo, K), k0) or dom != I_ and (dom[0] != 'slice' or dom[1] != I_):
            continue
        # the nodes before those that the loop looks at
        good = lo[0] == 'i' and all(eng.eval3(s, has(V, at(I_, I(j)))) is True for j in range(lo[1]))
        k = fresh('k')
        for s1 in eng.assume(s, [(lt(k, k0), True)]):
            x = at(I_, k)
            for c, u in fc:
                for s2 in eng.assume(s1, [(subst(f, {bv: x}), v) for f, v in c]):
                    if eng.eval3(s2, has(V, x)) is not True:
                        good = False
        if good:
            return True
    return False


def dfs(cx):
    judged(cx, DFS, 'dfs')


def bfs(cx):
    judged(cx, BFS, 'bfs')


def into_table(cx):
    conversion(cx, cx.m.inherent(DFS, 'into_table'), 'table', False)


def from_dfs(cx):
    p = cx.m.trait_impl(DG, 'TryFrom', 'try_from', lambda t: tystr(t[-1]).startswith('DepthFirst'))
    conversion(cx, p, 'convert', True)
