"""Obligations on calls coming to an end: no turn of a loop, and no call of
itself, leaves everything it depends on as it was."""
from engine.terms import *
from engine import terms as T
from engine.harness import Cx, NEAR, tainted
from engine.interp import St
from .blossom import steps


def depends(eng, r, n):
    """what the choice of the n-th way round the loop depends on"""
    out, todo, seen = set(), [], set()
    cs, _ = r.backs[n]
    todo = [f for f, _ in cs]
    fa, be = r.rest[n]
    todo += list(fa) + [b[:4] for b in be]
    subs = list(r.subs[n])
    while todo or subs:
        if subs:
            i = subs.pop()
            q = eng.recs.get(i)
            if q is None or i in seen:
                continue
            seen.add(i)
            todo += list(q.inits.values()) + list(q.all_inits.values()) + [f for c, _ in q.backs for f, _ in c] + [x for _, u in q.backs for x in u.values()]
            if q.dom is not None:
                todo.append(q.dom)
            for s in q.subs:
                subs.extend(s)
            continue
        t = todo.pop()
        if not isinstance(t, tuple):
            continue
        for x in T.subterms(t):
            out.add(x)
            if x[0] == 'fold':
                subs.append(x[1])
    return out


def turn(eng, r, n):
    """'repeats' if the next turn must go the same way as the n-th, and so on for
    ever; 'ends' if something runs out; None"""
    cs, u = r.backs[n]
    if r.trip is not None or r.dom is not None:
        return 'ends'
    on = depends(eng, r, n)
    if r.k in on:
        return 'repeats' if stays(eng, r, n) else None
    changed = {q: x for q, x in u.items() if x != q}
    for q, x in changed.items():
        if x[0] == 'slice' and x[1] == q:
            return 'ends'
    if any(q in on for q in changed):
        return 'repeats' if stays(eng, r, n) else None
    return 'repeats'


def stays(eng, r, n):
    """whatever leads the n-th way round the loop still holds afterwards"""
    cs, u = r.backs[n]
    fa, be = r.rest[n]
    if r.trip is not None or r.dom is not None or fa or be or r.subs[n] or not cs:
        return False
    m = dict(u)
    m[r.k] = add(r.k, I(1))
    if any(mentions(x, lambda t: t[0] in ('fold', 'havoc')) for x in u.values()):
        return False
    sts = eng.assume(St(), cs)
    return bool(sts) and all(eng.eval3(s, subst(f, m)) is v for s in sts for f, v in cs)


def comes(eng, r, cs):
    """does a way round the loop come about in one of its first turns"""
    front = [tuple(cs)]
    for _ in range(3):
        m = {r.k: I(0)}
        m.update(r.inits)
        for fs in front:
            if any(not tainted(eng, s, []) for s in eng.assume(St(), [(subst(f, m), v) for f, v in fs])):
                return True
        nxt = []
        for fs in front:
            for c, u in r.backs:
                m = dict(u)
                m[r.k] = add(r.k, I(1))
                nxt.append(tuple(c) + tuple((subst(f, m), v) for f, v in fs))
        front = [x for x in nxt if sum(T.size(f) if hasattr(T, 'size') else len(str(f)) for f, _ in x) < 20000][:30]
    return False


def loops(cx, engines, name):
    seen = set()
    for eng in engines:
        for r in eng.recs.values():
            if r.fn:
                cx.fn = r.fn
            for n, (cs, u) in enumerate(r.backs):
                w = turn(eng, r, n)
                if w is None:
                    s = (eng.assume(St(), cs) or [None])[0]
                    cx.open.add((r.fn, r.key)) if hasattr(cx, 'open') else None
                    continue
                if w == 'ends':
                    cx.put(name, 'ok')
                    continue
                for s in eng.assume(St(), cs)[:1]:
                    what = 'a turn of the loop leaves everything it depends on as it was, so that it is repeated for ever'
                    s.notes = r.notes[n]
                    if any(mentions(f, lambda t: t in r.inits or t == r.k) for f, _ in s.path) and not tainted(eng, s, []) and not comes(eng, r, cs):
                        cx.put(name, 'undecided', what + ', if it comes about', s)
                    else:
                        cx.ob(name, False, eng, s, [], what)
        for path, s in eng.spins:
            cx.fn = path
            cx.ob(name, False, eng, s, [], 'calls itself with everything as it was, and so for ever')


FAR = ('search', 'collapse', 'forest', 'marker', 'driver')


def runs(cx, names, tag):
    from . import RULES
    groups = {}
    for pid, r in RULES.items():
        for n, g in r[0]:
            if n in names:
                groups[n] = g
    for n, g in sorted(groups.items()):
        c = Cx(cx.dump)
        c.group(n, g)
        cx.paths += c.paths
        cx.engines.extend(c.engines)
        for o in c.obs:
            if o['name'].endswith(('/analysis', '/anchor')):
                cx.fn = o['fn']
                cx.put(tag + n + '/analysis', 'undecided', o['detail'])
        yield n, c


def halting(cx):
    for n, c in runs(cx, NEAR, 'halts/'):
        loops(cx, c.engines, 'halts/turn')


def matching(cx):
    """the loops that maximum matching is made of"""
    for n, c in runs(cx, FAR, 'end/'):
        loops(cx, c.engines, 'end/turn')
        for eng in c.engines:
            for r in eng.recs.values():
                if r.dom is not None or r.trip is not None:
                    continue
                cx.fn = r.fn
                for ab in steps(r):
                    # the list is a cycle of odd length: by powers of two each node gets its turn
                    n = [x[1] for x in ab if x[0] == 'i']
                    if n:
                        cx.ob('end/turn', n[0] > 0 and n[0] & (n[0] - 1) == 0, eng, St(), [], 'a cycle is turned around by %d places at a time, and may never come round to the node looked for' % n[0])
                    else:
                        cx.put('end/turn', 'undecided', 'a cycle is turned around by %s places at a time' % T.show(ab[0])[:200])
