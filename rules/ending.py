"""Obligations on maximum matching coming to an end: each turn of a loop and each
call of itself makes progress, and nothing is asked of the forest, the marker and
the pairing that they refuse."""
from engine.terms import *
from engine import terms as T
from engine.interp import St
from engine.model import *
from engine.contract import plog, pparts, pvalue, marked, markede, infor
from .maxmatch import search_fn, search_term, roles, facts_axiom, Look, owner, ask_marker, raw_state, blossoms, g, p


def opaque(x):
    return mentions(x, lambda t: t[0] in ('app', 'havoc', 'const', 'rec'))


def rotated(q, x):
    """x is the list q turned around"""
    return x[0] == 'rot' and x[1] == q or x[0] in ('upd', 'L') and any(t[0] == 'rot' and t[1] == q for t in T.subterms(x))


def augmented(x, q):
    """x is the pairing q with pairs added"""
    x, n = pvalue(x), 0
    while x != q:
        if x[0] == 'aug':
            x, n = x[1], n + 1
        elif x[0] == 'maxed':
            x = x[2]
        elif pparts(x)[1] != NIL and pparts(x)[0] != x:
            x, n = pparts(x)[0], n + 1
        else:
            return False
        x = pvalue(x)
    return n > 0


def progress(L, cs, u):
    """what a turn of a loop without a list to run over gets done: True;
    False if the next turn finds everything as this one did; None"""
    eng = L.eng
    changed = {q: x for q, x in u.items() if x != q}
    if not changed:
        return False
    idle = True
    for q, x in changed.items():
        kd = L.kind(q)
        ls, base = L.layers(x, q)
        if kd in ('marker', 'forest'):
            if base != q:
                idle = False
            elif any(t[0] in ('mkn', 'mke', 'froot', 'fedge') for t in ls):
                return True         # never twice: the marker and the forest refuse
            elif kd == 'marker' and any(mentions(f, lambda t: t[0] == 'marke' and t[1] == q) or f[0] == 'all' for f, _ in cs if q in set(T.subterms(f))):
                idle = False        # the turn started from something not marked, maybe
            continue
        if x[0] == 'slice' and x[1] == q or augmented(x, q):
            return True
        if rotated(q, x):
            return True
        d = sub(x, q) if x[0] in ('i', 'lin', 'sum') else None
        if d is not None and d[0] == 'i' and d[1] != 0 and any(mentions(f, lambda t: t == q) for f, _ in cs):
            return True
        if x[0] in ('var', 'k') and not any(mentions(f, lambda t: t == q) for f, _ in cs):
            continue
        idle = False
    return False if idle else None


def turning(cx, L, recs, name):
    """each turn of a loop that runs over no list makes progress"""
    eng = L.eng
    for r in recs:
        if r.dom is not None:
            cx.ob(name, True)
            continue
        for cs, u in r.backs:
            for s in eng.assume(St(), cs)[:1]:
                w = progress(L, cs, u)
                if w is None:
                    continue
                cx.ob(name, w, eng, s, [], 'a turn of the loop leaves everything as it was, so that it is repeated for ever')


# ------------------------------------------------------------------ the search
def search(cx):
    sp = search_fn(cx)
    f = cx.m.fns[sp]
    gi, pi = roles(f)
    st = St()
    c = ('c', 'self')
    st.mem[c] = plog(p, NIL)
    args = [('var', 'x%d' % i) for i in range(len(f['inputs']))]
    args[gi], args[pi] = g, ('ref', c, ())
    eng = cx.engine(inline={sp}, axioms=[facts_axiom])
    eng.contract.recurse[sp] = search_term(cx, sp)
    eng, outs = cx.run(sp, args, st, eng=eng)
    L = Look(cx, eng)
    terms = [t for k, s, v in outs for t in [f for f, _ in s.path] + ([v] if k == 'ret' else [])]
    recs = [r for r in L.records(terms)]
    turning(cx, L, recs, 'end/search/turn')
    for k, s, v in outs:
        if k == 'ret':
            for t in T.subterms(v) if isinstance(v, tuple) else ():
                if t[0] == 'search':
                    smaller(cx, L, s, t)
            for ff, _ in s.path:
                for t in T.subterms(ff):
                    if t[0] == 'search':
                        smaller(cx, L, s, t)
            continue
        refuses(cx, L, s, v)
    backwards(cx, L, recs)


def smaller(cx, L, s, t):
    """the search calls itself on a collapsed graph only"""
    G = t[1]
    cx.ob('end/search/smaller', G != g and not (G[0] == 'cgraph' and G[2] != g), L.eng, s, [G], 'the search may call itself only on a smaller problem')


def refuses(cx, L, s, info):
    """a panic of the search: it must be one that cannot come about"""
    eng = L.eng
    facts = list(s.path)
    for f, w in facts + [(('all',) + x, True) for x in s.foralls]:
        k = known(L, s, f)
        if k is not None and k != w:
            cx.ob('end/search/refused', True)
            return
    if blossoms(s, True) and any(f[0] == 'haspair' and not w and f[1][0] == 'aug' and mentions(f, lambda t: t[0] == 'lift') for f, w in facts):
        return                      # see M12
    what = 'this must not come about: %s at %s' % (info[0], info[1])
    if any(opaque(f) for f, _ in facts):
        cx.put('end/search/refused', 'undecided', what, s)
        return
    cx.ob('end/search/refused', False, eng, s, [], what)


def chain(L, F):
    """the earlier states of a forest or marker"""
    out = [F]
    ls, end = L.layers(F, None)
    out += ls
    out += [t[1] for t in ls if t[0] in ('froot', 'fedge', 'mkn', 'mke')]
    out.append(end)
    return out


def known(L, s, f):
    """facts of every run of the search"""
    eng = L.eng
    h = f[0]
    if h == 'infor' and L.kind(f[1]) == 'forest':
        F, x = f[1:3]
        older = chain(L, F)
        if x[0] == 'at' and x[1][0] == 'evens' and x[1][1] in older:
            return True             # nothing is ever taken out
        for f2, w in s.path:
            if w and f2[0] == 'infor' and f2[1] in older and f2[1] != F and f2[2] == x:
                return True
        rooted = [t for t in older if t[0] in ('phi', 'fold') and roots(L, t)]
        r = owner(eng, F) if F[0] == 'phi' else None
        if r is not None and r.dom is not None and x[0] == 'at' and x[1] == r.dom and x[2] == r.k and distinct(r.dom):
            new = [t for _, u in r.backs for t in L.layers(u.get(F, F), F)[0]]
            if r.inits.get(F) == ('fnil',) and all(t[0] == 'froot' and t[2] == x for t in new):
                return False        # each node is listed once
        if rooted and any(t != F for t in rooted):
            if eng.eval3(s, ('haspair', p, x)) is False and eng.eval3(s, ('hasnode', g, x)) is True:
                return True         # unpaired nodes are roots
            if x[0] == 'mate' and x[1] == p:
                # mates come in together
                return eng.lookup(s, ('infor', F, x[2]))
        return None
    if h == 'hasnode' and f[1] == g:
        x = f[2]
        if x[0] == 'at' and x[1][0] == 'evens' and L.kind(x[1][1]) == 'forest':
            return True
        if x[0] == 'mate' and x[1] == p and eng.lookup(s, ('haspair', p, x[2])) is True:
            return True
        return None
    if h == 'eq':
        for x, y in (f[1:3], f[2:0:-1]):
            if y == ('mate', p, x):
                return False
        return None
    if h == 'haspair' and f[1] == p and f[2][0] == 'mate' and f[2][1] == p:
        return True
    if h == 'mark' and L.kind(f[1]) == 'marker':
        older = chain(L, f[1])
        for f2, w in s.path:
            if not w and f2[0] == 'mark' and f2[1] in older and f2[2] == f[2] and f2[1] != f[1] and kept(L, f[1], f2[1]):
                return False
        return None
    if h == 'marke' and L.kind(f[1]) == 'marker':
        r = owner(eng, f[1]) if f[1][0] == 'phi' else None
        if r is not None and r.dom is not None and r.dom[0] == 'pedges' and r.inits.get(f[1]) == ('mknil',):
            e = at(r.dom, r.k)
            if {f[2], f[3]} <= {fld(e, 0), fld(e, 1)} and all({t[2], t[3]} == {f[2], f[3]} for _, u in r.backs for t in L.layers(u.get(f[1], f[1]), f[1])[0] if t[0] == 'mke'):
                return False        # each pair is listed once
        return None
    if h == 'all':
        d, bv, cases = f[1:4]
        ns = ('nodes', g)
        n = sub(subst(length(d), {length(sext(EMPTYSET, ns)): length(ns)}), length(ns)) if d[0] == 'range' else I(0)
        more = n[0] == 'i' and n[1] > 0
        if more and cases and all(any(w and f2[0] == 'hasnode' and f2[1] == g and mentions(f2[2], lambda t: t == bv) for f2, w in c) for c, _ in cases):
            return False            # there are more numbers than nodes
        return None
    if h == 'odd' and len(f[1]) == 1 and f[1][0][0] == 'len' and f[1][0][1][0] == 'lift':
        return False
    return None


def distinct(l):
    """a list of different nodes"""
    while True:
        if l == ('nodes', g):
            return True
        if l[0] in ('rev', 'slice', 'rot', 'stepby') or l[0] == 'fmap' and all(r in ((), (l[2],)) for _, r in l[3]):
            l = l[1]
        elif l[0] == 'fn' and l[1].startswith('sort'):
            l = l[2][0]
        else:
            return False


def kept(L, new, old):
    """no node is marked between two states of the marker"""
    ls, base = L.layers(new, old)
    if base != old or any(t[0] == 'mkn' for t in ls):
        return False
    for t in ls:
        r = L.eng.recs[t[1]] if t[0] == 'fold' else owner(L.eng, t) if t[0] == 'phi' else None
        if r is None:
            continue
        q = t[2] if t[0] == 'fold' else t
        for _, u in r.backs:
            l2, b2 = L.layers(u.get(q, q), q)
            if b2 != q or any(x[0] == 'mkn' or x[0] in ('fold', 'phi') for x in l2):
                return False
    return True


def roots(L, t):
    """a state of the forest after a loop that plants roots"""
    r = L.eng.recs.get(t[1]) if t[0] == 'fold' else owner(L.eng, t)
    q = t[2] if t[0] == 'fold' else t
    if r is None or q not in r.inits:
        return False
    return any(x[0] == 'froot' for _, u in r.backs for x in L.layers(u.get(q, q), q)[0])


def backwards(cx, L, recs):
    """does the search look for (v, w) and mark (w, v)?"""
    cx.m.backwards = False
    for r in recs:
        if r.dom is not None:
            continue
        for q in r.phis:
            if L.kind(q) != 'marker':
                continue
            for cs, u in r.backs:
                for t in L.layers(u.get(q, q), q)[0]:
                    if t[0] == 'mke' and any(f[0] == 'marke' and not w and f[2:4] == (t[3], t[2]) for f, w in cs):
                        cx.m.backwards = True


# ------------------------------------------------------------------ the driver
def driver(cx):
    top = cx.m.free(MAXMATCH)
    sp = search_fn(cx)
    gi, pi = roles(cx.m.fns[top])
    st = St()
    c = ('c', 'self')
    st.mem[c] = plog(p, NIL)
    args = [('var', 'x%d' % i) for i in range(len(cx.m.fns[top]['inputs']))]
    args[gi], args[pi] = g, ('ref', c, ())
    eng = cx.engine(inline={top}, axioms=[facts_axiom])
    eng.contract.special[sp] = search_term(cx, sp)
    calls = []

    def again(eng, a, st, cs, span):
        out = []
        for s, G in eng.deref(st, a[gi]):
            for s2, P in eng.deref(s, a[pi]):
                calls.append((s2, pvalue(P)))
                out.extend(('ret', s3, UNIT) for s3 in eng.write_ref(s2, a[pi], plog(('maxed', G, pvalue(P)), NIL)))
        return out
    eng.contract.recurse[top] = again
    eng, outs = cx.run(top, args, st, eng=eng)
    L = Look(cx, eng)
    for s, P in calls:
        if P == p or P[0] == 'phi':
            cx.ob('end/driver/again', False, eng, s, [P], 'maximum matching may call itself only after a path has been applied')
        else:
            cx.ob('end/driver/again', True)
    terms = [t for k, s, v in outs for t in [f for f, _ in s.path] + [x for x in s.mem.values() if isinstance(x, tuple)]]
    turning(cx, L, L.records(terms), 'end/driver/turn')


# ------------------------------------------------------------------ the marker
def marker(cx):
    """what is marked counts as marked, for good"""
    a, b, y, z = ('var', 'a'), ('var', 'b'), ('var', 'y'), ('var', 'z')
    m0 = raw_state(cx, MARKER, 'mk')
    search(cx) if not hasattr(cx.m, 'backwards') else None
    for op, args in (('mark_node', [a]), ('mark_edge', [a, b])):
        st = St()
        me = cell(st, 'self', m0)
        query = 'has_node' if op == 'mark_node' else 'has_edge'
        eng, outs = cx.run(cx.m.inherent(MARKER, op), [me] + args, st, raw={MARKER})
        for k, s, v in outs:
            if k != 'ret':
                for s2, r0 in ask_marker(cx, eng, s, m0, query, args):
                    if eng.eval3(s2, r0) is not True:
                        cx.ob('end/marker/' + op, False, eng, s2, [r0], 'what has not been marked must be accepted')
                continue
            m1 = s.mem[me[1]]
            for s2, r1 in ask_marker(cx, eng, s, m1, query, args):
                cx.ob('end/marker/' + op, eng.eval3(s2, r1) is True, eng, s2, [m1, r1], 'what has just been marked must count as marked')
            if cx.m.backwards and op == 'mark_edge':
                for s2, r1 in ask_marker(cx, eng, s, m1, query, args[::-1]):
                    cx.ob('end/marker/' + op, eng.eval3(s2, r1) is True, eng, s2, [m1, r1], 'what has just been marked must count as marked')
            for name, qs in (('has_node', [z]), ('has_edge', [y, z])):
                for s2, r0 in ask_marker(cx, eng, s, m0, name, qs):
                    for s3, w in eng.branch(s2, r0):
                        if w:
                            for s4, r1 in ask_marker(cx, eng, s3, m1, name, qs):
                                cx.ob('end/marker/' + op, eng.eval3(s4, r1) is True, eng, s4, [m1, r1], 'what has been marked must stay marked')
