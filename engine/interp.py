"""Path-sensitive dataflow over the dumped MIR.

Abstract state: a map from memory cells (locals, heap boxes) to value terms and
a set of facts (atoms of engine.terms with a truth value).  Branches split the
state on the facts they test; calls of local functions and closures are
analysed in line; a loop is analysed once, with every cell that it changes
generalised to a phi term (and iteration counters, iterators and appended lists
recognised as inductions), and summarised by a LoopRecord.  Nothing is executed
and no solver is involved: facts are decided by lookup, term rewriting and the
domain axioms."""
from .terms import *
from . import terms as T

BUDGET = 400000


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('mem', 'facts', 'path', 'rep', 'foralls', 'befores', 'loops', 'notes', 'calls')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.path = ()
        self.rep = {}
        self.foralls = ()
        self.befores = ()
        self.loops = ()
        self.notes = ()
        self.calls = ()

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.path = self.path
        s.rep = dict(self.rep)
        s.foralls = self.foralls
        s.befores = self.befores
        s.loops = self.loops
        s.notes = self.notes
        s.calls = self.calls
        return s


def size(t):
    if not isinstance(t, tuple):
        return 1
    return 1 + sum(size(x) for x in t)


class Record:
    """summary of one loop: trip (iteration count or None), k, phis with their
    initial values, backs (per way round the body: conditions, phi updates),
    before (exit conditions)"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Frame:
    __slots__ = ('fn', 'cs', 'loops', 'eng', 'gen')

    def __init__(self, fn, cs):
        self.fn = fn
        self.cs = cs
        self.gen = None

    def cell(self, l):
        return ('c', self.cs, l)


class Cfg:
    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = []
        for b in self.blocks:
            t = b['term']
            k = t['k']
            s = []
            if k in ('goto', 'drop', 'assert'):
                s = [t['t']]
            elif k == 'switch':
                s = [x[1] for x in t['targets']] + [t['otherwise']]
            elif k == 'call' and t['t'] is not None:
                s = [t['t']]
            self.succ.append([x for x in s if not self.blocks[x]['cleanup']])
        # dominators (simple iterative)
        pred = [[] for _ in range(n)]
        for i in range(n):
            for j in self.succ[i]:
                pred[j].append(i)
        reach = set()
        stack = [0]
        while stack:
            x = stack.pop()
            if x in reach:
                continue
            reach.add(x)
            stack.extend(self.succ[x])
        dom = {i: set(reach) for i in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for i in reach:
                if i == 0:
                    continue
                ps = [dom[p] for p in pred[i] if p in reach]
                d = set.intersection(*ps) | {i} if ps else {i}
                if d != dom[i]:
                    dom[i] = d
                    ch = True
        self.loops = {}
        for i in reach:
            for j in self.succ[i]:
                if j in dom[i]:
                    body_ = self.loops.setdefault(j, {j})
                    st = [i]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st.extend(p for p in pred[x] if p in reach)


def short(path):
    if path.startswith('gamma::'):
        return path
    return path.split('::')[-1]


class Engine:
    def __init__(self, dump, contract=None, axioms=()):
        self.unsafe_op, self.unsafe_seen = False, set()
        self.dump = dump
        self.fns = {f['path']: f for f in dump['fns']}
        self.adts = {a['path']: a for a in dump['adts']}
        self.contract = contract          # object with .call(eng, callee, args, st, cs) -> outcomes or None
        self.axioms = list(axioms)
        self.cfgs = {}
        self.csids = {}
        self.recs = {}
        self.steps = 0
        self.stack = []
        self.frames = []
        self.spins = []
        self.unmodelled = set()
        self.analysed = set()
        self.sites = {}
        self.peel = False             # predicate on loop keys, or False
        self.peelctx = ()
        self.exdepth = 0
        self.nested_loops = []
        from . import stdmodel
        self.std = stdmodel

    # ------------------------------------------------------------- facts
    def norm(self, st, f):
        if st.rep:
            for _ in range(4):
                g = subst(f, st.rep)
                if g == f:
                    break
                f = g
        return f

    def eval3(self, st, f):
        """True, False or None (unknown)"""
        f = self.norm(st, f)
        return self._eval3(st, f)

    def _eval3(self, st, f):
        h = f[0]
        if h == 'b':
            return f[1]
        if h == 'not':
            v = self._eval3(st, f[1])
            return None if v is None else not v
        if h == 'and':
            a = self._eval3(st, f[1])
            if a is False:
                return False
            b = self._eval3(st, f[2])
            if b is False:
                return False
            return True if a and b else None
        if h == 'or':
            a = self._eval3(st, f[1])
            if a is True:
                return True
            b = self._eval3(st, f[2])
            if b is True:
                return True
            return False if a is False and b is False else None
        return self.lookup(st, f)

    def linfacts(self, st):
        """known linear facts as list of (const, dict) meaning value >= 1"""
        out = []
        for a, v in st.facts.items():
            if a[0] == 'pos':
                d = dict(a[2])
                if v:
                    out.append((a[1], d))
                else:
                    out.append((1 - a[1], {k: -c for k, c in d.items()}))
            elif a[0] == 'isempty':
                if v:
                    out.append((1, {('len', a[1]): -1}))
                else:
                    out.append((0, {('len', a[1]): 1}))
        for a, v in st.facts.items():
            if v is False and a[0] == 'eq':     # at least, and not equal: more
                c, d = T._lin(sub(a[1], a[2]))
                for i, (c1, d1) in enumerate(out):
                    if d and (c1 - 1, d1) in ((c, d), (-c, {k: -w for k, w in d.items()})):
                        out[i] = (c1 - 1, d1)
        return out

    def halves(self, st, c, d, fact):
        """(c, d) without halves such that c + d >= 1 follows from what it stands
        for (fact) or implies it"""
        for k in [k for k in d if k[0] == 'half']:
            a = d[k]
            v = self._eval3(st, odd(k[1]))
            p = int(v) if v is not None else int((a > 0) != fact)
            c0, d0 = T._lin(k[1])
            c = 2 * c + a * (c0 - p) - (1 if fact else 0)
            d = {q: 2 * w for q, w in d.items() if q != k}
            for q, w in d0.items():
                d[q] = d.get(q, 0) + a * w
            d = {q: w for q, w in d.items() if w}
        return c, d

    def linear(self, st, c, d):
        """decide c + d > 0 from known linear facts"""
        def nonneg(c, d):
            return c >= 0 and all(v >= 0 for v in d.values())

        def diff(c, d, e):
            x = dict(d)
            for k, v in e[1].items():
                x[k] = x.get(k, 0) - v
            return c - e[0], {k: v for k, v in x.items() if v}
        F = self.linfacts(st)
        if any(k[0] == 'half' for k in d) or any(k[0] == 'half' for f in F for k in f[1]):
            yes = self.halves(st, c, d, False)
            no = self.halves(st, 1 - c, {k: -v for k, v in d.items()}, False)
            F = [self.halves(st, c1, d1, True) for c1, d1 in F]
            goals = ((yes, True), (no, False))
        else:
            goals = (((c, d), True), ((1 - c, {k: -v for k, v in d.items()}), False))
        for k in list(d):
            if k[0] == 'ix':
                n = self.norm(st, ('len', ('nodes', k[1])))
                c0, d0 = T._lin(n)
                d0[k] = d0.get(k, 0) - 1
                F.append((c0, {q: v for q, v in d0.items() if v}))
            elif k[0] == 'op' and k[1] == 'Rem':
                # a remainder exists, so it is less than what was divided by,
                # and no more than what was divided
                for c0, x in ((0, k[3]), (1, k[2])):
                    c1, d1 = T._lin(self.norm(st, x))
                    d1 = dict(d1)
                    d1[k] = d1.get(k, 0) - 1
                    F.append((c0 + c1, {q: v for q, v in d1.items() if v}))
        for (cc, dd), res in goals:             # want cc + dd >= 1
            if nonneg(cc - 1, dd):
                return res
            for f in F:
                c1, d1 = diff(cc, dd, f)
                if nonneg(c1, d1):          # L = f + r, f>=1, r>=0
                    return res
            for i, f in enumerate(F):
                c1, d1 = diff(cc, dd, f)
                for g in F[i:]:
                    c2, d2 = diff(c1, d1, g)
                    if nonneg(c2 + 1, d2):  # L = f + g + r >= 2 + r
                        return res
        return None

    def parity(self, st, c, d):
        """decide L = c + d > 0 from the parity of L when L is known to be within
        one of the bound"""
        o = odd(T._mk(c, d))
        v = self._eval3(st, o)
        if v is True and self.linear(st, c + 1, d) is True:
            return True
        if v is False and self.linear(st, c - 1, d) is False:
            return False
        return None

    def lookup(self, st, a):
        v = st.facts.get(a)
        if v is not None:
            return v
        h = a[0]
        for ax in self.axioms:
            v = ax(self, st, a)
            if v is not None:
                return v
        if h == 'odd':
            vs = [st.facts.get(('odd', (x,))) for x in a[1]]
            if len(vs) > 1 and None not in vs:
                return sum(vs) % 2 == 1
        if h == 'pos':
            v = self.linear(st, a[1], dict(a[2]))
            return v if v is not None else self.parity(st, a[1], dict(a[2]))
        if h == 'isempty':
            v = self.linear(st, 0, {('len', a[1]): 1})
            if v is None:
                v = self.parity(st, 0, {('len', a[1]): 1})
            if v is not None:
                return not v
        if h == 'eq':
            x, y = a[1], a[2]
            v = self.eq_by_facts(st, x, y)
            if v is not None:
                return v
        if h == 'ovf':
            if self.small(st, a[2]) and self.small(st, a[3]):
                return False
        if h == 'all':
            if a[1:] in st.foralls or self._eval3(st, isempty(a[1])) is True:
                return True
            return None
        if st.foralls and self.excluded(st, a):
            return False
        if h == 'has' and a[1][0] == 'slice':
            _, l, lo, hi = a[1]
            for p, q in list(st.rep.items()) + [(a[2], a[2])]:
                if p[0] == 'at' and p[1] == l and q == a[2]:
                    if self._eval3(st, le(lo, p[2])) is True and self._eval3(st, lt(p[2], hi)) is True:
                        return True
        if h == 'has':
            if st.facts.get(isempty(a[1])) is True:
                return False
            if listed_key(a[1], a[2]):
                return True
        return None

    def refuted(self, st, conds):
        return flat_conds(conds) is None or any(self._eval3(st, f) is (not v) for f, v in conds)

    def excluded(self, st, a):
        """does a loop over the list show that the element is not in it"""
        if self.exdepth >= 2:
            return False
        self.exdepth += 1
        try:
            return self.excluded1(st, a)
        finally:
            self.exdepth -= 1

    def excluded1(self, st, a):
        for l, x in memberships(a):
            for (dom, bv, cases) in st.foralls:
                y = x if dom == l else tup(('anyk',), x) if dom == ('enum', l) else None
                if y is not None and all(self.refuted(st, subst(cs, {bv: y})) for cs, _ in cases):
                    return True
        return False

    def eq_by_facts(self, st, x, y):
        # numeric: x < y or y < x known
        if x[0] in ('i', 'sum', 'len', 'k') or y[0] in ('i', 'sum', 'len', 'k') or True:
            c, d = T._lin(sub(x, y))
            if d:
                for sign in (1, -1):
                    f = pos(_mkt(c * sign, {k: v * sign for k, v in d.items()}))
                    if f[0] == 'pos':
                        if self.linear(st, f[1], dict(f[2])) is True:
                            return False
                    elif f[0] == 'not' and f[1][0] == 'pos':
                        if self.linear(st, f[1][1], dict(f[1][2])) is False:
                            return False
                    elif f[0] == 'isempty' or (f[0] == 'not' and f[1][0] == 'isempty'):
                        at_ = f if f[0] == 'isempty' else f[1]
                        v = st.facts.get(at_)
                        if v is not None and (v if f[0] == 'isempty' else not v):
                            return False
            if self.linear(st, c, d) is False and self.linear(st, -c, {k: -v for k, v in d.items()}) is False:
                return True
        # congruence: a fact about x whose counterpart about y is opposite
        for f, v in st.facts.items():
            if f[0] in ('has', 'hasnode', 'adj', 'edged', 'isvar', 'app', 'haspair', 'fld', 'vfld', 'isempty') and _mention(f, x):
                g = subst(f, {x: y})
                if g != f:
                    w = st.facts.get(g)
                    if w is None:
                        w = self._eval3_shallow(st, g)
                    if w is not None and w != v:
                        return False
        return None

    def _eval3_shallow(self, st, f):
        h = f[0]
        if h == 'b':
            return f[1]
        if h == 'not':
            v = self._eval3_shallow(st, f[1])
            return None if v is None else not v
        if h == 'or':
            a, b = self._eval3_shallow(st, f[1]), self._eval3_shallow(st, f[2])
            if a or b:
                return True
            return False if a is False and b is False else None
        if h == 'and':
            a, b = self._eval3_shallow(st, f[1]), self._eval3_shallow(st, f[2])
            if a is False or b is False:
                return False
            return True if a and b else None
        return st.facts.get(f)

    def small(self, st, t):
        """an index or length: adding two of them cannot overflow a usize"""
        h = t[0]
        if h == 'i':
            return t[1] < 2 ** 32
        if h in ('len', 'k', 'ix', 'op'):
            return h != 'op' or t[1] in ('Rem', 'Div')
        if h == 'half':
            return self.small(st, t[1])
        if h == 'sum':
            return abs(t[1]) < 2 ** 32 and all(self.small(st, k) and abs(c) < 2 ** 16 for k, c in t[2])
        if h == 'fld' and t[1][0] in ('at',) and t[1][1][0] == 'enum':
            return t[2] == 0
        if h == 'idx' or h == 'count':
            return True
        if h == 'phi':
            return t in getattr(self, 'smallphis', ())
        # bounded above by a length
        for a, v in st.facts.items():
            if a[0] == 'pos':
                d = dict(a[2])
                if d.get(t) is not None and ((d[t] < 0) == v):
                    if all(self.small0(k) for k in d if k != t):
                        return True
        return False

    def small0(self, t):
        return t[0] in ('i', 'len', 'k', 'ix')

    def filtered(self, st, a):
        """lists of which a says that a filter keeps all or nothing: the list
        with the cases that each of its elements then satisfies"""
        def plain(l):
            return l[0] == 'fmap' and all(len(r) <= 1 and not any(x[0] == 'spread' for x in r) for _, r in l[3])
        if a[0] == 'isempty':
            if plain(a[1]):
                yield a[1], tuple((c, ()) for c, r in a[1][3] if not r)
            return
        for x, y in ((a[1], a[2]), (a[2], a[1])):
            if x[0] == 'sum' and y == I(0):
                c, d = T._lin(x)
                if c == 0 and all(v > 0 and t[0] == 'len' and plain(t[1]) for t, v in d.items()):
                    for t in d:
                        yield t[1], tuple((c, ()) for c, r in t[1][3] if not r)
            if x[0] == 'len' and plain(x[1]) and (y == length(x[1][1]) or self._eval3(st, eq(y, length(x[1][1]))) is True):
                yield x[1], tuple((c, ()) for c, r in x[1][3] if r)

    def forall_of(self, st, l, bv, cases):
        f = forall(l, bv, cases)
        if f[1:] in st.foralls:
            return True
        st.foralls = st.foralls + (f[1:],)
        return self.forall_has(st, *f[1:])

    def add(self, st, a, val):
        """add a fact (in place); False if contradictory"""
        st.facts[a] = val
        st.path = st.path + ((a, val),)
        h = a[0]
        if h == 'all':
            del st.facts[a]
            if val:
                st.foralls = st.foralls + (a[1:],)
                return self.forall_has(st, *a[1:])
            return True
        if h == 'has' and val:
            i = ('ins', a[1], a[2])         # inserting a member changes nothing
            for c, v in st.mem.items():
                if mentions(v, lambda t: t == i):
                    st.mem[c] = subst(v, {i: a[1]})
            e = isempty(a[1])
            w = self._eval3(st, e)
            if w is True:
                return False
            if w is None and e[0] == 'isempty':
                st.facts[e] = False
        if h == 'isempty' and val and a[1][0] == 'N':
            for l in (('steps', 'd'), ('steps', 'b'), ('dnodes',), ('dedges',)):
                st.rep.setdefault(l + a[1][1:], NIL)
        if h == 'eq' and val or h == 'isempty' and val and a[1][0] == 'fmap':
            for l, cases in self.filtered(st, a):
                if not self.forall_of(st, l[1], l[2], cases):
                    return False
        if h == 'eq' and val:
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if p[0] == 'fld' and p[1][0] == 'at':
                    l = p[1][1]
                    f = has(l, tup(fld(p[1], 0), fld(p[1], 1))) if l[0] == 'edges' else adj(l[2], fld(p[1], 0), fld(p[1], 1)) if l[0] == 'steps' else TRUE
                    if f[0] in ('edged', 'adj') and f not in st.facts:
                        st.facts[f] = True
                if p[0] == 'at':
                    f = has(p[1], q)
                    if f[0] not in ('b', 'and', 'or', 'not'):
                        w = self.lookup(st, f)
                        if w is False:
                            return False
                        if w is None:
                            st.facts[f] = True
                            st.path = st.path + ((f, True),)
            if not self.merge(st, x, y):
                return False
        return True

    def merge(self, st, x, y):
        def rank(t):
            return (0 if t[0] == 'i' else 1 if t[0] == 'var' else 2, size(t), t[0] == 'var' and t[1][:1] == '#', repr(t))
        if rank(x) > rank(y):
            x, y = y, x
        # y := x
        if x[0] == 'sum' or y[0] == 'sum':
            # isolate a term if possible
            if y[0] == 'sum':
                for k, c in y[2]:
                    if abs(c) == 1 and not _mention(x, k) and k[0] != 'len':
                        rest = sub(y, scale(k, c))
                        y, x = k, scale(sub(x, rest), c)
                        break
                else:
                    return True
            else:
                return True
        if _mention(x, y):
            return True
        rep = {k: subst(v, {y: x}) for k, v in st.rep.items()}
        for k, v in list(rep.items()):
            k2 = subst(k, {y: x})
            if k2 != k:
                rep.setdefault(k2, v)
        rep[y] = x
        st.rep = rep
        if y[0] == 'len':
            pass
        facts = {}
        for f, v in list(st.facts.items()):
            if f[0] == 'eq' and {f[1], f[2]} == {x, y}:
                continue
            g = subst(f, st.rep)
            while g[0] == 'not':
                g, v = g[1], not v
            if g[0] == 'b':
                if g[1] != v:
                    return False
                continue
            if g[0] in ('and', 'or'):
                w = self._eval3(st, g)
                if w is not None and w != v:
                    return False
                continue
            if g in facts and facts[g] != v:
                return False
            facts[g] = v
        st.facts = facts
        for f, v in facts.items():
            if f[0] == 'eq' and v is False and f[1] == f[2]:
                return False
        if st.foralls:
            st.foralls = tuple(subst(x, st.rep) for x in st.foralls)
            for f, v in facts.items():
                if v and self.excluded(st, f):
                    return False
        return True

    def branch(self, st, f):
        """split the state on a formula: list of (state, bool)"""
        f = self.norm(st, f)
        h = f[0]
        if h == 'b':
            return [(st, f[1])]
        if h == 'not':
            return [(s, not v) for s, v in self.branch(st, f[1])]
        if h == 'and':
            v = self._eval3(st, f)
            if v is not None:
                return [(st, v)]
            out = []
            for s, v in self.branch(st, f[1]):
                if v:
                    out.extend(self.branch(s, f[2]))
                else:
                    out.append((s, False))
            return out
        if h == 'or':
            v = self._eval3(st, f)
            if v is not None:
                return [(st, v)]
            out = []
            for s, v in self.branch(st, f[1]):
                if v:
                    out.append((s, True))
                else:
                    out.extend(self.branch(s, f[2]))
            return out
        v = self.lookup(st, f)
        if v is not None:
            return [(st, v)]
        out = []
        for val in (True, False):
            s = st.copy()
            if self.add(s, f, val):
                out.append((s, val))
        return out

    def assume(self, st, conds):
        """states in which all (formula, bool) hold"""
        sts = [st]
        for f, v in conds:
            sts = [s for t in sts for s, w in self.branch(t, f) if w == v]
        return sts

    def entails(self, st, f):
        return all(v for _, v in self.branch(st, f))

    # --------------------------------------------------------- reading terms
    def op_at(self, st, l, i):
        i = self.norm(st, i)
        h = l[0]
        if h == 'upd':
            out = []
            for s, v in self.branch(st, eq(l[2], i)):
                if v:
                    out.append((s, l[3]))
                else:
                    out.extend(self.op_at(s, l[1], i))
            return out
        if h == 'L':
            t = at(l, i)
            if not (t[0] == 'at' and t[1] == l):
                return [(st, t)]
            acc = I(0)
            out = []
            cur = [st]
            for s in l[1]:
                w = I(1) if s[0] == 'one' else length(s)
                nxt = []
                for c in cur:
                    for s2, v in self.branch(c, lt(i, add(acc, w))):
                        if v:
                            if s[0] == 'one':
                                out.append((s2, s[1]))
                            else:
                                out.extend(self.op_at(s2, s, sub(i, acc)))
                        else:
                            nxt.append(s2)
                cur = nxt
                acc = add(acc, w)
            return out
        if h == 'slice':
            return self.op_at(st, l[1], add(l[2], i))
        if h == 'rev':
            return self.op_at(st, l[1], sub(sub(length(l[1]), I(1)), i))
        if h == 'enum':
            return [(s, tup(i, v)) for s, v in self.op_at(st, l[1], i)]
        if h == 'zip':
            return [(s2, tup(v, w)) for s, v in self.op_at(st, l[1], i) for s2, w in self.op_at(s, l[2], i)]
        if h == 'stepby':
            return self.op_at(st, l[1], scale(i, l[2]))
        if h == 'windows':
            return [(st, at(l, i))]
        if h == 'chunks':
            lo, hi, n = scale(i, l[2]), add(scale(i, l[2]), I(l[2])), length(l[1])
            if l[3] == 'chunks_exact':
                return [(st, slice_(l[1], lo, hi))]
            return [(s, slice_(l[1], lo, n if v else hi)) for s, v in self.branch(st, lt(n, hi))]
        return [(st, at(l, i))]

    def op_mget(self, st, m, k):
        h = m[0]
        if h == 'mins':
            out = []
            for s, v in self.branch(st, eq(m[2], k)):
                if v:
                    out.append((s, m[3]))
                else:
                    out.extend(self.op_mget(s, m[1], k))
            return out
        if h in ('mrem', 'mret'):
            return self.op_mget(st, m[1], k)
        if h == 'mext' and m[2][0] == 'fmap' and len(m[2][3]) == 1 and not m[2][3][0][0] and len(m[2][3][0][1]) == 1:
            dom, bv, item = m[2][1], m[2][2], m[2][3][0][1][0]
            x = k if fld(item, 0) == bv else tup(k, at(dom[1], k)) if dom[0] == 'enum' and fld(item, 0) == fld(bv, 0) else None
            if x is not None and item[0] == 'agg':
                out = []
                for s, v in self.branch(st, has(T.fmap_fst(m[2]), k)):
                    out.extend([(s, subst(item[3][1], {bv: x}))] if v else self.op_mget(s, m[1], k))
                return out
        if h == 'gidx':
            return [(st, ('ix', m[1], k))]
        return [(st, ('mget', m, k))]

    # ----------------------------------------------------------------- memory
    def read_proj(self, st, v, proj):
        outs = [(st, v)]
        for p in proj:
            nxt = []
            for s, x in outs:
                if x[0] == 'ref' and p[0] != 'mval':
                    for s2, y in self.read_ref(s, x):
                        nxt.extend(self._read1(s2, y, p))
                else:
                    nxt.extend(self._read1(s, x, p))
            outs = nxt
        return outs

    def _read1(self, s, x, p):
        if p[0] == 'f':
            if x[0] == 'it' and self.contract:
                y = self.contract.part(x, p[1])
                if y is not None:
                    return [(s, y)]
            if x[0] in ('it', 'heapval'):
                return [(s, x)]
            return [(s, self.fld(x, p[1]))]
        if p[0] == 'vf':
            return [(s, vfld(x, p[1], p[2]))]
        if p[0] == 'idx':
            return self.op_at(s, x, p[1])
        if p[0] == 'mval':
            return self.op_mget(s, x, p[1])
        if p[0] == 'sl':
            return [(s, slice_(x, p[1], p[2]))]
        raise Unsupported('projection %r' % (p,))

    def fld(self, x, i):
        if x[0] == 'gr' and self.contract:
            return self.contract.graph_field(x, i)
        if x[0] in ('dfs', 'bfs', 'compit') and self.contract:
            return self.contract.part(x, i)
        return fld(x, i)

    def read_ref(self, st, r):
        v = st.mem.get(r[1])
        if v is None:
            raise Unsupported('read of an unset cell')
        return self.read_proj(st, v, r[2])

    def deref(self, st, v):
        """value behind any number of references"""
        outs = [(st, v)]
        while any(x[0] == 'ref' for _, x in outs):
            nxt = []
            for s, x in outs:
                if x[0] == 'ref':
                    nxt.extend(self.read_ref(s, x))
                else:
                    nxt.append((s, x))
            outs = nxt
        return outs

    def write_ref(self, st, r, val):
        """-> list of states"""
        cur = st.mem.get(r[1])
        outs = []
        for s, nv in self._write(st, cur, r[2], val):
            if nv is None:
                outs.append(s)
                continue
            if s is st:
                s = s.copy()
            s.mem[r[1]] = nv
            outs.append(s)
        return outs

    def _write(self, st, cur, proj, val):
        if not proj:
            return [(st, val)]
        p = proj[0]
        if cur is not None and cur[0] == 'ref':
            return [(s, None) for s in self.write_ref(st, (cur[0], cur[1], cur[2] + tuple(proj)), val)]
        if cur is None or cur[0] == 'uninit':
            if p[0] in ('f', 'vf') and all(q[0] in ('f', 'vf') for q in proj):
                return [(st, val)]
            raise Unsupported('write into an uninitialised cell')
        out = []
        if p[0] in ('f', 'vf'):
            i = p[1] if p[0] == 'f' else p[2]
            if cur[0] == 'gr' and cur[1:] == (NIL, NIL) and len(proj) == 1 and val in (NIL, EMPTYMAP):
                return [(st, cur)]              # an empty field of an empty graph stays empty
            if cur[0] != 'agg':
                cur = self.explode(cur)
            for s, nv in self._write(st, cur[3][i], proj[1:], val):
                if nv is None:
                    out.append((s, None))
                    continue
                fs = list(cur[3])
                fs[i] = nv
                out.append((s, ('agg', cur[1], cur[2], tuple(fs))))
            return out
        if p[0] == 'idx':
            for s, old in self.op_at(st, cur, p[1]):
                for s2, nv in self._write(s, old, proj[1:], val):
                    out.append((s2, None if nv is None else upd(cur, p[1], nv)))
            return out
        if p[0] == 'mval':
            for s, old in self.op_mget(st, cur, p[1]):
                for s2, nv in self._write(s, old, proj[1:], val):
                    out.append((s2, None if nv is None else mins(cur, p[1], nv)))
            return out
        if p[0] == 'sl':
            if len(proj) == 1:
                n = length(cur)
                return [(st, cat(slice_(cur, I(0), p[1]), val, slice_(cur, p[2], n)))]
        raise Unsupported('write through projection %r' % (p,))

    def explode(self, v):
        raise Unsupported('write to a field of an opaque value %s' % show(v))

    def place_ref(self, fr, st, place):
        """-> list of (st, ('ref', cell, proj))"""
        cell, proj = fr.cell(place[0]), ()
        variant = None
        for e in place[1]:
            k = e[0]
            if k == 'deref':
                vs = self.read_proj(st, st.mem[cell], proj) if cell in st.mem else []
                if len(vs) != 1:
                    if not vs:
                        raise Unsupported('deref of unset place')
                    # forks: handle each separately
                    rest = place[1][place[1].index(e) + 1:]
                    out = []
                    for s, v in vs:
                        if v[0] == 'ref':
                            out.append((s, v))
                        else:
                            out.append((s, ('ref', cell, proj)))
                    if rest:
                        raise Unsupported('forked dereference')
                    return out
                st, v = vs[0]
                if v[0] == 'ref':
                    cell, proj = v[1], v[2]
                elif e is place[1][0]:
                    t = fr.fn['body']['locals'][place[0]]['ty']
                    if t.get('k') == 'ref' and t.get('mut') and v[0] not in ('it', 'dfs', 'bfs'):
                        raise Unsupported('change through a reference that is not followed, in %s' % fr.fn['path'])
            elif k == 'field':
                # fields of boxes are looked through
                if cell in st.mem:
                    vs = self.read_proj(st, st.mem[cell], proj) if self._readable(st, cell, proj) else []
                    if len(vs) == 1 and vs[0][1][0] == 'ref' and vs[0][1][1][0] == 'heap':
                        cell, proj = vs[0][1][1], vs[0][1][2]
                        variant = None
                        continue
                    if len(vs) == 1 and vs[0][1][0] == 'ref' and variant is None:
                        cell, proj = vs[0][1][1], vs[0][1][2]
                proj = proj + ((('vf', variant, e[1])) if variant is not None else ('f', e[1]),)
                variant = None
            elif k == 'downcast':
                variant = e[1]
            elif k == 'index':
                (st2, i), = self.one_read(fr, st, [e[1], []])
                proj = proj + (('idx', i),)
            elif k == 'cindex':
                if e[3] in (True, 'true'):
                    vs = self.read_proj(st, st.mem[cell], proj)
                    proj = proj + (('idx', sub(length(vs[0][1]), I(e[1]))),)
                else:
                    proj = proj + (('idx', I(e[1])),)
            else:
                raise Unsupported('place %r' % (e,))
        return [(st, ('ref', cell, proj))]

    def _readable(self, st, cell, proj):
        return st.mem.get(cell) is not None and st.mem[cell][0] != 'uninit'

    def one_read(self, fr, st, place):
        r = self.read_place(fr, st, place)
        return r

    def read_place(self, fr, st, place):
        cell = fr.cell(place[0])
        v = st.mem.get(cell)
        if v is None:
            if not place[1]:
                return [(st, UNIT)]
            raise Unsupported('use of an unset local _%d in %s' % (place[0], fr.fn['path']))
        outs = [(st, v)]
        variant = None
        for e in place[1]:
            k = e[0]
            nxt = []
            if k == 'downcast':
                variant = e[1]
                continue
            for s, x in outs:
                if k == 'deref':
                    if x[0] == 'ref':
                        nxt.extend(self.read_ref(s, x))
                    else:
                        nxt.append((s, x))
                elif k == 'field':
                    if x[0] == 'ref':
                        if x[1][0] == 'heap':
                            nxt.append((s, x))
                            continue
                        for s2, y in self.read_ref(s, x):
                            nxt.append((s2, vfld(y, variant, e[1]) if variant is not None else self.fld(y, e[1])))
                    elif x[0] == 'it':
                        nxt.append((s, x))
                    else:
                        nxt.append((s, vfld(x, variant, e[1]) if variant is not None and x[0] != 'agg' else self.fld(x, e[1])))
                elif k == 'index':
                    for s2, i in self.read_place(fr, s, [e[1], []]):
                        nxt.extend(self.op_at(s2, x, i))
                elif k == 'cindex':
                    i = I(e[1])
                    if e[3] in (True, 'true'):
                        i = sub(length(x), I(e[1]))
                    nxt.extend(self.op_at(s, x, i))
                elif k == 'subslice':
                    n = length(x)
                    b = sub(n, I(e[2])) if e[3] in (True, 'true') else I(e[2])
                    nxt.append((s, slice_(x, I(e[1]), b)))
                else:
                    raise Unsupported('place %r' % (e,))
            variant = None
            outs = nxt
        return outs

    def operand(self, fr, st, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read_place(fr, st, o['p'])
        if k == 'int':
            v = o['v']
            return [(st, B(v) if isinstance(v, bool) else I(v))]
        if k == 'unit':
            return [(st, UNIT)]
        if k == 'fn':
            return [(st, ('fnitem', o['fn']['path'], o['fn'].get('resolved') or '', _j(o['fn'])))]
        if k == 'promoted':
            f = self.fns.get(o['path'])
            for p in (f or {}).get('promoted', []):
                if str(p.get('promoted', '')) == str(o['i']):
                    sub_ = {'path': o['path'] + '{promoted}', 'body': p, 'promoted': []}
                    outs = self.run_body(sub_, [], st, self.cs(fr.cs, ('prom', o['path'], o['i'])))
                    return [(s, v) for kk, s, v in outs if kk == 'ret']
            return [(st, ('const', o['path'], o['i']))]
        if k == 'const':
            ty = o.get('ty') or {}
            if ty.get('k') == 'closure':
                return [(st, ('agg', 'closure:' + ty['path'], 0, ()))]
            c = next((c for c in self.dump.get('consts', []) if isinstance(c, dict) and c.get('path') and c['path'].split('::')[-1] == o['s'].split('::')[-1] and 'v' in c), None)
            if c:
                return [(st, I(c['v']))]
            if ty.get('k') == 'adt' and ty['path'] in self.adts and len(self.adts[ty['path']]['variants']) == 1 and not self.adts[ty['path']]['variants'][0]['fields']:
                return [(st, ('agg', short(ty['path']), 0, ()))]
            return [(st, ('const', o['s']))]
        raise Unsupported('operand %r' % (o,))

    def operands(self, fr, st, ops):
        outs = [(st, ())]
        for o in ops:
            outs = [(s2, vs + (v,)) for s, vs in outs for s2, v in self.operand(fr, s, o)]
        return outs

    # ---------------------------------------------------------------- rvalues
    def arith(self, st, op, a, b):
        if op in ('Add', 'AddUnchecked'):
            return add(a, b)
        if op in ('Sub', 'SubUnchecked'):
            return sub(a, b)
        if op in ('Mul', 'MulUnchecked'):
            if a[0] == 'i':
                return scale(b, a[1])
            if b[0] == 'i':
                return scale(a, b[1])
            return ('op', 'Mul', a, b)
        if op == 'Rem':
            if a[0] == 'i' and b[0] == 'i' and b[1]:
                return I(a[1] % b[1])
            return ('op', 'Rem', a, b)
        if op == 'Div':
            if a[0] == 'i' and b[0] == 'i' and b[1]:
                return I(a[1] // b[1])
            if b == I(2):
                return half(a)
            return ('op', 'Div', a, b)
        return ('op', op, a, b)

    def binop(self, st, op, a, b):
        isb = a[0] in T_FORM or b[0] in T_FORM
        if op in ('Eq', 'Ne'):
            f = self.eq_term(a, b)
            return f if op == 'Eq' else f_not(f)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        if op == 'BitAnd':
            if isb:
                return f_and(a, b)
            if b == I(1):
                return ('op', 'Rem', a, I(2))
            if a == I(1):
                return ('op', 'Rem', b, I(2))
        if op == 'BitOr' and isb:
            return f_or(a, b)
        if op == 'BitXor' and isb:
            return f_or(f_and(a, f_not(b)), f_and(f_not(a), b))
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            r = self.arith(st, base, a, b)
            if base == 'Sub':
                o = lt(a, b)
            elif base == 'Add':
                o = FALSE if self.small(st, a) and self.small(st, b) else ('ovf', 'Add', a, b)
            else:
                o = FALSE if self.small(st, a) and self.small(st, b) and (a[0] == 'i' or b[0] == 'i') else ('ovf', base, a, b)
            return tup(r, o)
        return self.arith(st, op, a, b)

    def eq_term(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'op' and x[1] == 'Rem' and x[3] == I(2) and y[0] == 'i':
                if y[1] == 1:
                    return odd(x[2])
                if y[1] == 0:
                    return f_not(odd(x[2]))
                return FALSE
        ba, bb = a[0] in T_FORM, b[0] in T_FORM
        if ba or bb:
            if a[0] == 'b' or b[0] == 'b':
                return eq(a, b)
            return f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
        return eq(a, b)

    def rvalue(self, fr, st, r):
        k = r['k']
        if k == 'use':
            return self.operand(fr, st, r['o'])
        if k == 'ref':
            if r['mut']:
                return self.place_ref(fr, st, r['p'])
            return self.read_place(fr, st, r['p'])
        if k == 'rawptr':
            return self.place_ref(fr, st, r['p'])
        if k == 'cast':
            out = []
            ty = r['ty'].get('name') if r['ty']['k'] == 'prim' else None
            for s, v in self.operand(fr, st, r['o']):
                if 'IntToInt' in r['ck'] and ty not in ('usize', 'u64', 'u128'):
                    if v[0] in T_FORM:
                        pass
                    elif v[0] != 'i':
                        v = ('op', 'cast', v, ('ty', ty))
                elif 'IntToInt' in r['ck'] and v[0] in T_FORM:
                    v = ('op', 'boolint', v, UNIT) if v[0] != 'b' else I(int(v[1]))
                out.append((s, v))
            return out
        if k == 'bin':
            return [(s2, self.binop(s2, r['op'], a, b)) for s, a in self.operand(fr, st, r['a']) for s2, b in self.operand(fr, s, r['b'])]
        if k == 'un':
            out = []
            for s, v in self.operand(fr, st, r['o']):
                if r['op'] == 'Not' and (v[0] in T_FORM or r['ty'].get('name') == 'bool'):
                    v = f_not(v)
                elif r['op'] == 'PtrMetadata':
                    vs = self.deref(s, v)
                    out.extend((s2, length(x)) for s2, x in vs)
                    continue
                else:
                    v = ('op', r['op'], v, UNIT)
                out.append((s, v))
            return out
        if k == 'discr':
            out = []
            a = self.adts.get(r.get('ty', {}).get('path', ''))
            n = len(a['variants']) if a else 2
            for s, v in self.read_place(fr, st, r['p']):
                for s2, x in self.deref(s, v):
                    out.append((s2, I(x[2]) if x[0] == 'agg' else ('discr', x, n)))
            return out
        if k == 'agg':
            out = []
            for s, vs in self.operands(fr, st, r['ops']):
                ak = r['ak']
                if ak == 'tuple':
                    v = tup(*vs) if vs else UNIT
                elif ak == 'array':
                    v = lst(*vs)
                elif ak == 'closure':
                    v = ('agg', 'closure:' + r['path'], 0, vs)
                elif ak == 'adt':
                    nm = short(r['path'])
                    if nm == 'Range':
                        v = ('range', vs[0], vs[1])
                    elif nm == 'RangeFrom':
                        v = ('range', vs[0], INF)
                    else:
                        v = ('agg', nm, r['variant'], vs)
                else:
                    raise Unsupported('aggregate %r' % r)
                out.append((s, v))
            return out
        if k == 'repeat':
            return [(s, mkL([('one', v)] * r['n']) if r['n'] is not None and r['n'] <= 16 else ('app', 'repeat', (v,))) for s, v in self.operand(fr, st, r['o'])]
        raise Unsupported('rvalue %r' % (r.get('s', k),))

    # -------------------------------------------------------------- execution
    def cs(self, parent, item):
        key = (parent, item)
        if key not in self.csids:
            self.csids[key] = len(self.csids) + 1
        return self.csids[key]

    def cfg(self, fn):
        p = (fn['path'], fn['body'].get('promoted'))
        if p not in self.cfgs:
            self.cfgs[p] = Cfg(fn['body'])
        return self.cfgs[p]

    def call_path(self, path, args, st, cs=0):
        return self.run_body(self.fns[path], args, st, self.cs(cs, ('entry', path)))

    def run_body(self, fn, args, st, cs):
        """analyse a function body: list of ('ret'|'panic', st, value)"""
        if len(self.stack) > 40:
            raise Unsupported('call depth')
        self.analysed.add(fn['path'])
        fr = Frame(fn, cs)
        st = st.copy()
        # clear stale cells of an earlier activation at the same call string
        for i in range(len(fn['body']['locals'])):
            st.mem.pop(fr.cell(i), None)
        for i, a in enumerate(args):
            st.mem[fr.cell(i + 1)] = a
        self.stack.append(fn['path'])
        self.frames.append((fn['path'], list(args), st))
        try:
            outs = self.run_region(fr, 0, st, None)
        finally:
            self.stack.pop()
            self.frames.pop()
        res = []
        for o in outs:
            if o[0] in ('ret', 'panic'):
                res.append(o)
            else:
                raise Unsupported('control leaves %s by %s' % (fn['path'], o[0]))
        return res

    def run_region(self, fr, bb, st, loop):
        """run from block bb; loop = (header, blocks) when analysing a loop body.
        Outcomes: ('ret',st,v) ('panic',st,info) ('back',st,None) ('exit',st,bb)"""
        cfg = self.cfg(fr.fn)
        work = [(bb, st, True)]
        outs = []
        while work:
            bb, st, first = work.pop()
            if loop and not first:
                if bb == loop[0]:
                    outs.append(('back', st, None))
                    continue
                if bb not in loop[1]:
                    outs.append(('exit', st, bb))
                    continue
            if bb in cfg.loops and not (loop and bb == loop[0]):
                hdr, blocks = bb, cfg.loops[bb]

                def runner(s, hdr=hdr, blocks=blocks):
                    return self.run_region(fr, hdr, s, (hdr, blocks))
                for o in self.loop(('loop', fr.cs, hdr), st, runner, fr):
                    if o[0] == 'exit':
                        work.append((o[2], o[1], False))
                    else:
                        outs.append(o)
                continue
            bouts = self.block(fr, bb, st)
            if any(o[0] == 'skip' and not (loop and bb == loop[0] and self.same_but(o[2], o[1], fr)) for o in bouts):
                bouts = self.skip_loop(fr, bb, st)
            for o in bouts:
                if o[0] == 'go':
                    work.append((o[2], o[1], False))
                elif o[0] == 'skip':
                    # a lazily filtered item was dropped: the call that asked
                    # for the next item is made again from the loop header
                    outs.append(('back', o[1], None))
                else:
                    outs.append(o)
        return outs

    def skip_loop(self, fr, bb, st):
        """a block whose call advances a filtered iterator, as a loop of its own"""
        def runner(s):
            res = []
            for o in self.block(fr, bb, s):
                if o[0] == 'skip':
                    res.append(('back', o[1], None))
                elif o[0] == 'go':
                    res.append(('exit', o[1], o[2]))
                else:
                    res.append(o)
            return res
        out = []
        for o in self.loop(('skip', fr.cs, bb), st, runner, fr):
            out.append(('go', o[1], o[2]) if o[0] == 'exit' else o)
        return out

    def same_but(self, cell, s, fr):
        gen = self.nested_loops[-1][1] if self.nested_loops else None
        if gen is None:
            return False
        for c, v in gen.items():
            if c != cell and s.mem.get(c) != v and self.live(c):
                return False
        return True

    def live(self, c):
        return True

    def block(self, fr, bb, st):
        self.steps += 1
        if self.steps > BUDGET:
            raise Unsupported('analysis budget exhausted')
        b = fr.fn['body']['blocks'][bb]
        sts = [st]
        for stmt in b['stmts']:
            if stmt['k'] == 'assign':
                nxt = []
                for s in sts:
                    for s2, v in self.rvalue(fr, s, stmt['r']):
                        nxt.extend(self.assign(fr, s2, stmt['p'], v))
                sts = nxt
            elif stmt['k'] == 'setdiscr':
                raise Unsupported('set discriminant')
            else:
                raise Unsupported('statement %s' % stmt.get('s'))
        out = []
        for s in sts:
            out.extend(self.term(fr, bb, b['term'], s))
        return out

    def assign(self, fr, st, place, v):
        if not place[1]:
            st = st.copy()
            st.mem[fr.cell(place[0])] = v
            return [st]
        out = []
        if place[1] == [['deref']] and fr.cell(place[0]) in st.mem and st.mem[fr.cell(place[0])][0] != 'ref':
            st = st.copy()
            st.mem[fr.cell(place[0])] = v
            return [st]
        for s, r in self.place_ref(fr, st, place):
            out.extend(self.write_ref(s, r, v))
        return out

    def term(self, fr, bb, t, st):
        k = t['k']
        if k in ('goto', 'drop'):
            return [('go', st, t['t'])]
        if k == 'return':
            return [('ret', st, st.mem.get(fr.cell(0), UNIT))]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'switch':
            return self.switch(fr, t, st)
        if k == 'assert':
            out = []
            for s, f in self.operand(fr, st, t['o']):
                for s2, v in self.branch(s, f):
                    if v == t['expected']:
                        out.append(('go', s2, t['t']))
                    else:
                        out.append(('panic', s2, (t['kind'], t['span'], fr.fn['path'])))
            return out
        if k == 'call':
            out = []
            for s, fv in self.operand(fr, st, t['f']):
                for s2, args in self.operands(fr, s, t['args']):
                    for o in self.call(fr, fv, args, s2, self.cs(fr.cs, (fr.fn['path'], bb)), t['span']):
                        if o[0] == 'ret':
                            if t['t'] is None:
                                continue
                            for s3 in self.assign(fr, o[1], t['dest'], o[2]):
                                out.append(('go', s3, t['t']))
                        else:
                            out.append(o)
            return out
        raise Unsupported('terminator %s' % t.get('s', k))

    def switch(self, fr, t, st):
        out = []
        for s, v in self.operand(fr, st, t['o']):
            if v[0] in T_FORM or (v[0] not in ('i', 'discr') and t['ty'].get('name') == 'bool'):
                fb = next((x[1] for x in t['targets'] if x[0] == 0), t['otherwise'])
                tb = next((x[1] for x in t['targets'] if x[0] == 1), t['otherwise'])
                for s2, w in self.branch(s, v):
                    out.append(('go', s2, tb if w else fb))
                continue
            rest = [s]
            blk = fr.fn['body']['blocks']
            for val, tb in t['targets']:
                nxt = []
                for s2 in rest:
                    if v[0] == 'discr':
                        f = isvar(v[1], 'Option' if v[2] == 2 else 'enum', val)
                    else:
                        f = self.eq_term(v, I(val))
                    for s3, w in self.branch(s2, f):
                        if w:
                            out.append(('go', s3, tb))
                        else:
                            nxt.append(s3)
                rest = nxt
            for s2 in rest:
                out.append(('go', s2, t['otherwise']))
        return out

    # ------------------------------------------------------------------ calls
    def call(self, fr, fv, args, st, cs, span):
        """outcomes ('ret',st,v) ('panic',st,info) ('skip',st,cell)"""
        if fv[0] == 'ref':
            outs = []
            for s, v in self.deref(st, fv):
                outs.extend(self.call(fr, v, args, s, cs, span))
            return outs
        if fv[0] == 'agg' and fv[1].startswith('closure:'):
            path = fv[1][8:]
            f = self.fns.get(path)
            if not f:
                raise Unsupported('closure %s' % path)
            return self.run_body(f, [fv] + list(args), st, self.cs(cs, path))
        if fv[0] != 'fnitem':
            raise Unsupported('indirect call of %s' % show(fv))
        callee = _uj(fv[3])
        path = callee.get('resolved') if callee.get('resolved_local') else callee['path']
        if self.contract:
            r = self.contract.call(self, callee, path, args, st, cs, span)
            if r is not None:
                return r
        if path in self.fns and self.fns[path].get('body') and (callee.get('local') or callee.get('resolved_local')):
            f = self.fns[path]
            if path != callee['path'] and callee['path'].startswith('core::ops::function::Fn') and len(args) == 2 and args[1][0] == 'agg' and args[1][1] == 'tuple':
                # the body of a closure takes the arguments one by one
                args = [args[0]] + list(args[1][3])
            if path in self.stack:
                return self.recursive(path, args, st, cs)
            return self.run_body(f, list(args), st, self.cs(cs, path))
        # constructor used as a function
        par, _, nm = path.rpartition('::')
        a = self.adts.get(par)
        if a:
            for i, v in enumerate(a['variants']):
                if v['name'] == nm:
                    return [('ret', st, ('agg', short(par), i, tuple(args)))]
        a = self.adts.get(path)
        if a and len(a['variants']) == 1:
            return [('ret', st, ('agg', short(path), 0, tuple(args)))]
        r = self.std.call(self, callee, path, args, st, cs, span)
        if r is not None:
            return r
        return self.opaque(path, args, st, cs)

    def again(self, path, args, st):
        """does a call find everything as the call of the same function that it is part of"""
        for q, old, s0 in self.frames:
            if q != path or len(old) != len(args):
                continue
            same = True
            for a, b in zip(old, args):
                va, vb = (self.deref(s0, a), self.deref(st, b)) if a[0] == 'ref' and b[0] == 'ref' else ([(s0, a)], [(st, b)])
                same = same and len(va) == len(vb) == 1 and va[0][1] == vb[0][1] and not mentions(va[0][1], lambda t: t[0] == 'ref')
            if same:
                return True
        return False

    def recursive(self, path, args, st, cs):
        if self.again(path, args, st):
            self.spins.append((path, st))
        if self.contract and path in self.contract.recurse:
            return self.contract.recurse[path](self, args, st, cs, '')
        return self.opaque('rec:' + path, args, st, cs)

    def opaque(self, path, args, st, cs):
        self.unmodelled.add(path)
        st = st.copy()
        st.notes = st.notes + (('unmodelled', path),)
        vals = []
        sts = [(st, ())]
        for a in args:
            nxt = []
            for s, vs in sts:
                if a[0] == 'ref':
                    for s2, v in self.deref(s, a):
                        nxt.append((s2, vs + (v,)))
                else:
                    nxt.append((s, vs + (a,)))
            sts = nxt
        out = []
        for s, vs in sts:
            cur = [s]
            refs = [a for a in args if a[0] == 'ref'] + [x for a in args if a[0] == 'agg' for x in subterms(a) if x[0] == 'ref']
            for r in refs:
                cur = [s3 for s2 in cur for s3 in self.write_ref(s2, r, ('havoc', path, vs, cs))]
            for s2 in cur:
                out.append(('ret', s2, ('app', path, vs)))
        return out

    # ------------------------------------------------------------------ loops
    def loop(self, key, S0, runner, fr=None):
        """analyse a loop; outcomes ('exit',st,x) and terminal ones"""
        key = key + self.peelctx
        if self.peel and not self.peelctx and self.peel(key, fr):
            outs = []
            self.peelctx = ('peeled',)
            self.nested_loops.append((key, dict(S0.mem)))
            try:
                first = runner(S0)
            finally:
                self.nested_loops.pop()
                self.peelctx = ()
            for o in first:
                if o[0] == 'back':
                    outs.extend(self.loop_sum(key, o[1], runner, fr))
                else:
                    outs.append(o)
            return outs
        # a loop over a few references is taken turn by turn
        for c, v in S0.mem.items():
            if v[0] == 'it' and not v[2] and v[1][0] == 'L' and len(v[1][1]) <= 4 and all(x[0] == 'one' and x[1][0] == 'ref' for x in v[1][1]):
                r = self.unroll(key, S0, runner, len(v[1][1]), drive=c)
                if r is not None:
                    return r
        return self.loop_sum(key, S0, runner, fr)

    def loop_sum(self, key, S0, runner, fr):
        K = ('k', key)
        pat = {}          # cell -> pattern
        closed = {}       # phi -> closed form
        opened = set()    # phis for which no closed form holds
        base = len(S0.path)

        def inst(p):
            return subst(p, closed) if closed else p

        rounds = 0
        while True:
            rounds += 1
            if rounds > 14:
                raise Unsupported('loop does not stabilise')
            S = S0.copy()
            for c, p in pat.items():
                S.mem[c] = inst(p)
            self.nested_loops.append((key, dict(S.mem)))
            try:
                outs = runner(S)
            finally:
                self.nested_loops.pop()
            backs = [o[1] for o in outs if o[0] == 'back']
            changed = False
            dead = {c for b in backs for c in S0.mem if c not in b.mem}
            if any(c in pat for c in dead):
                for c in dead:
                    pat.pop(c, None)
                changed = True
            for b in backs:
                for c in S0.mem:
                    if c in dead:
                        continue
                    new = b.mem[c]
                    if c not in pat:
                        old = S0.mem[c]
                        if new[0] == 'it' and old[0] != 'it' and self.contract and self.contract.iterable(old) is not None:
                            S0 = S0.copy()
                            S0.mem[c] = ('it', self.contract.iterable(old), ())
                            changed = True
                            continue
                        if new != S0.mem[c]:
                            g = self.generalise(S0.mem[c], new, (key, c))
                            pat[c] = g
                            changed = True
                        continue
                    new = self.renorm_new(new)
                    m = match(pat[c], new, inst, key)
                    if m is None:
                        g = self.generalise_again(pat[c], new, (key, c), inst)
                        if g == pat[c]:
                            raise Unsupported('loop pattern')
                        pat[c] = g
                        changed = True
            if changed:
                closed.clear()
                opened.clear()
                continue
            # transitions per phi
            phis = []
            for c, p in pat.items():
                for t in subterms(p):
                    if t[0] == 'phi' and t[1] == key and t not in phis:
                        phis.append(t)
            inits = {}
            for c, p in pat.items():
                m = match(p, S0.mem[c], lambda x: x, key)
                if m is None:
                    raise Unsupported('loop entry pattern')
                inits.update(m)
            bt = []
            for b in backs:
                d = {}
                for c, p in pat.items():
                    m = match(p, b.mem[c], inst, key)
                    if m is None:
                        raise Unsupported('loop back pattern')
                    d.update(m)
                bt.append(d)
            # verify closed forms
            bad = [p for p in closed if any(d.get(p, closed[p]) != subst(closed[p], {K: add(K, I(1))}) for d in bt)]
            if bad:
                for p in bad:
                    opened.add(p)
                    closed.pop(p)
                continue
            # try to close phis
            new = {}
            for p in phis:
                if p in closed or p in opened or not backs:
                    continue
                v0 = inits[p]
                ts = {d.get(p) for d in bt}
                two = slice_(p, I(2), length(p))
                if len(ts) == 2 and two in ts and slice_(p, I(1), length(p)) in ts | {slice_(p, I(1), length(p)) if NIL in ts else None}:
                    # two by two, if the length is even; verified in the next round
                    ts = {two}
                if len(ts) != 1:
                    continue
                t = ts.pop()
                if t is None:
                    continue
                if t == slice_(p, I(1), length(p)):
                    new[p] = slice_(v0, K, length(v0))
                elif t == slice_(p, I(2), length(p)):
                    new[p] = slice_(v0, scale(K, 2), length(v0))
                elif t == slice_(p, I(0), sub(length(p), I(1))):
                    new[p] = slice_(v0, I(0), sub(length(v0), K))
                elif t[0] == 'range' and v0[0] == 'range':
                    pass
                elif mentions(t, lambda x: x == K) and not mentions(t, lambda x: x[0] == 'phi' and x[1] == key) and subst(t, {K: I(-1)}) == v0:
                    new[p] = subst(t, {K: sub(K, I(1))})
                else:
                    c_, d_ = T._lin(sub(t, p)) if _numeric(t, p) else (None, {1: 1})
                    if not d_:
                        new[p] = add(v0, scale(K, c_))
            if new:
                closed.update(new)
                continue
            break
        r = self.finish(key, K, S0, outs, pat, closed, inits, phis, bt, backs, base, inst, fr)
        if isinstance(r, tuple):
            return self.unroll(key, S0, runner, r[1])
        return r

    def unroll(self, key, S0, runner, n, drive=None):
        """a loop whose iteration count is a small constant, turn by turn; with
        drive, only if each turn takes an item from there"""
        front, outs = [S0], []
        ctx = self.peelctx
        for i in range(n + 1):
            nxt = []
            self.peelctx = ctx + (('turn', key, i),)
            try:
                for s in front:
                    self.nested_loops.append((key, dict(s.mem)))
                    try:
                        for o in runner(s.copy()):
                            if o[0] == 'back':
                                nxt.append(o[1])
                            else:
                                outs.append(o)
                    finally:
                        self.nested_loops.pop()
            finally:
                self.peelctx = ctx
            if drive is not None and any(b.mem.get(drive) == s.mem.get(drive) for b in nxt for s in front):
                return None
            front = nxt
        if front and drive is not None:
            return None
        if front:
            raise Unsupported('loop count')
        return outs

    def relen(self, st, lens):
        st = st.copy()
        st.facts = {subst(f, lens): v for f, v in st.facts.items()}
        st.path = tuple((subst(f, lens), v) for f, v in st.path)
        st.mem = {c: subst(v, lens) for c, v in st.mem.items()}
        return st

    def renorm_new(self, v):
        return v

    def finish(self, key, K, S0, outs, pat, closed, inits, phis, bt, backs, base, inst, fr):
        free = [p for p in phis if p not in closed]
        cases = []
        for b, d in zip(backs, bt):
            conds = tuple(b.path[base:])
            cases.append((conds, {p: d[p] for p in free if d.get(p, p) != p}))
        # a list that every iteration appends m items to has a known length
        lens = {}
        for p in free:
            ms = set()
            for d in bt:
                u = d.get(p, p)
                rest = [x for x in segs(u) if x != p]
                ms.add(len(rest) if segs(u).count(p) == 1 and all(x[0] == 'one' for x in rest) else None)
            if len(ms) == 1 and None not in ms and 0 not in ms and (islist(inits[p])):
                lens[('len', p)] = add(length(inits[p]), scale(K, ms.pop()))
        if lens:
            cases = [(tuple((subst(f, lens), v) for f, v in c), {p: subst(x, lens) for p, x in u.items()}) for c, u in cases]
            outs = [(o[0], self.relen(o[1], lens), subst(o[2], lens) if isinstance(o[2], tuple) else o[2]) for o in outs]
        # trip count: T with T-k > 0 on every way round
        trips = None
        for b in backs:
            ts = set()
            for f, v in b.path[base:]:
                tt = trip_of(f, v, K)
                if tt is not None and not mentions(tt, lambda t: t == K or (t[0] == 'phi' and t[1] == key)):
                    ts.add(tt)
            trips = ts if trips is None else trips & ts
        # preferably one whose end is what leaves the loop
        gone = {trip_of(f, not v, K) for o in outs if o[0] == 'exit' for f, v in o[1].path[base:]}
        trip = sorted(trips, key=lambda t: (t not in gone, size(t), repr(t)))[0] if trips else None
        if trip is not None and trip[0] == 'i' and trip[1] <= 4 and free and any(u for _, u in cases):
            return ('unroll', trip[1])
        rec = Record(key=key, k=K, trip=trip, inits={p: inits[p] for p in free}, backs=cases, phis=free,
                     closed={p: closed[p] for p in closed}, fn=fr.fn['path'] if fr else None,
                     exits=[], span=None, subs=[b.loops[len(S0.loops):] for b in backs], all_inits=dict(inits),
                     rest=[(b.foralls[len(S0.foralls):], b.befores[len(S0.befores):]) for b in backs], notes=[b.notes for b in backs])
        rid = self.intern(rec)
        results = []
        dom, bv, fc = self.domain(cases, trip, K, free, S0)
        rec.dom, rec.bv = dom, bv
        dec = self.decouple(dom, bv, fc, free, inits)
        if dec:
            new = []
            for c, u in fc:
                cs = flat_conds(tuple((subst(f, dec), v) for f, v in c))
                if cs is not None:
                    new.append((cs, {p: subst(x, dec) for p, x in u.items()}))
            fc = new
            e = {bv: at(dom, K)}
            outs = self.decoupled(outs, {subst(f, e): subst(g, e) for f, g in dec.items()}, base)
        for o in outs:
            if o[0] == 'back':
                continue
            s = o[1].copy()
            conds = tuple(s.path[base:])
            if o[0] == 'exit':
                s.loops = s.loops + (rid,)
                exh = trip is not None and self.is_exhausted(conds, trip, K)
                if exh:
                    tripv = trip
                    mp = {K: tripv}
                    for p in free:
                        mp[p] = self.fold(rec, rid, p, inits[p], cases, dom, bv, fc, free, K, trip)
                    # the negated trip test says nothing new once k = trip
                    keep = []
                    drop = []
                    for f, v in conds:
                        if trip_of(f, not v, K) == trip:
                            drop.append(f)
                            continue
                        keep.append((f, v))
                    for f in drop:
                        s.facts.pop(f, None)
                    s.path = s.path[:base] + tuple(keep)
                    # conditions that still mention the loop variables are
                    # re-added in terms of the final values
                    sts = [s]
                    rest = [(f, v) for f, v in keep if mentions(f, lambda t: t in mp)]
                    if rest:
                        s.facts = {f: v for f, v in s.facts.items() if not mentions(f, lambda t: t in mp)}
                        s.path = s.path[:base] + tuple((f, v) for f, v in keep if not mentions(f, lambda t: t in mp))
                        sts = self.assume(s, [(subst(f, mp), v) for f, v in rest])
                    for s in sts:
                        if s is o[1]:
                            s = s.copy()
                        mem = {}
                        for c, v in s.mem.items():
                            mem[c] = subst(v, mp) if mentions(v, lambda t: t in mp) else v
                        s.mem = mem
                        for t in self.boolean_exits(s, dom, bv, fc, rec, rid, inits, free, cases):
                            if self.exit_facts(t, dom, bv, fc) is not False:
                                results.append(('exit', t, o[2]))
                    rec.exits.append(('exhausted', conds))
                    continue
                if dom is not None:
                    s.befores = s.befores + ((dom, K, bv, fc, rid),)
                rec.exits.append(('exit', conds))
                results.extend(self.copied(o[0], s, o[2], rec, rid, inits, cases, dom, bv, fc, free, K, trip, base))
            else:
                s.loops = s.loops + (rid,)
                if dom is not None:
                    s.befores = s.befores + ((dom, K, bv, fc, rid),)
                rec.exits.append((o[0], conds))
                results.extend(self.copied(o[0], s, o[2], rec, rid, inits, cases, dom, bv, fc, free, K, trip, base))
        return results

    def copied(self, kind, s, val, rec, rid, inits, cases, dom, bv, fc, free, K, trip, base):
        """a loop left early has copied the elements it has gone over so far"""
        mp = {}
        for p in free if fc is not None else ():
            if fc and all(segs(u.get(p, p)) == (p, ('one', bv)) for _, u in fc):
                mp[p] = cat(inits[p], slice_(dom, I(0), K))
        if not mp:
            return [(kind, s, val)]
        path = s.path
        s.path = path[:base] + tuple((f, v) for f, v in path[base:] if not mentions(f, lambda t: t in mp))
        s.facts = {f: v for f, v in s.facts.items() if not mentions(f, lambda t: t in mp)}
        out = []
        for t in self.assume(s, [(subst(f, mp), v) for f, v in path[base:] if mentions(f, lambda t: t in mp)]):
            t.mem = {c: subst(v, mp) if mentions(v, lambda t: t in mp) else v for c, v in t.mem.items()}
            out.append((kind, t, subst(val, mp) if isinstance(val, tuple) else val))
        return out

    def intern(self, rec):
        content = (rec.key, rec.trip, tuple((c, tuple(sorted(u.items(), key=repr))) for c, u in rec.backs), tuple(sorted(rec.inits.items(), key=repr)))
        for rid, r in self.recs.items():
            if r.content == content:
                return rid
        rec.content = content
        rid = len(self.recs) + 1
        self.recs[rid] = rec
        return rid

    def is_exhausted(self, conds, trip, K):
        return any(trip_of(f, not v, K) == trip for f, v in conds)

    def domain(self, cases, trip, K, free, S0):
        """(list term over which the loop ranges, bound variable, filtered cases
        with the element replaced by the bound variable)"""
        if trip is None:
            return None, None, None
        allt = tuple((c, tuple(sorted(u.items(), key=repr))) for c, u in cases)
        # find the accesses that involve k
        ats = set()
        other = [False]

        def walk(t):
            if not isinstance(t, tuple):
                return
            if t == K:
                other[0] = True
                return
            if t and t[0] == 'at' and mentions(t[2], lambda x: x == K) and not mentions(t[1], lambda x: x == K):
                ats.add(t)
                return
            for x in t:
                if isinstance(x, tuple):
                    walk(x)
        conds2 = []
        for c, u in cases:
            cc = tuple((f, v) for f, v in c if trip_of(f, v, K) != trip)
            conds2.append((cc, u))
            for f, v in cc:
                walk(f)
            for p, x in u.items():
                walk(x)
        bvn = ('bv', 900)
        doms = set()
        for t in ats:
            off = sub(t[2], K)
            off2 = add(t[2], K)
            if not mentions(off, lambda x: x == K):
                doms.add((t, self.part(S0, t[1], off, add(off, trip)), K))
            elif not mentions(off2, lambda x: x == K):
                # at(l, c - k): reversed access
                r = rev(t[1])
                o = sub(sub(length(t[1]), I(1)), off2)
                doms.add((t, self.part(S0, r, o, add(o, trip)), K))
            else:
                other[0] = True
        if not ats and not other[0]:
            dom = ('range', I(0), trip)
            mp = {K: bvn}
        elif len(doms) == 1 and not other[0]:
            (t, dom, _), = doms
            mp = {t: bvn}
        elif len(doms) == 1:
            (t, d, _), = doms
            dom = ('enum', d)
            mp = {t: fld(bvn, 1), K: fld(bvn, 0)}
        elif not ats:
            dom = ('range', I(0), trip)
            mp = {K: bvn}
        elif len(doms) == 2 and not other[0]:
            (t1, d1, _), (t2, d2, _) = sorted(doms, key=repr)
            dom = ('zip', d1, d2)
            mp = {t1: fld(bvn, 0), t2: fld(bvn, 1)}
        else:
            dom = ('range', I(0), trip)
            mp = {K: bvn}
        fc = []
        for c, u in conds2:
            fc.append((tuple((subst(f, mp), v) for f, v in c), {p: subst(x, mp) for p, x in u.items()}))
        return dom, bvn, fc

    def decouple(self, dom, bv, fc, free, inits):
        """a collection that only ever receives the current element of a list
        without repetitions holds that element iff it did at the start: the
        memberships to replace, with the element written as bv"""
        if fc is None or dom is None:
            return {}
        d, e = (dom[1], fld(bv, 1)) if dom[0] == 'enum' else (dom, bv)
        if not distinct(d):
            return {}
        forms = [e]
        others = []
        if pairs(d):
            forms.append(tup(fld(e, 0), fld(e, 1)))
            others.append(tup(fld(e, 1), fld(e, 0)))
        mp = {}
        for q in free:
            for c, u in fc:
                t = u.get(q, q)
                if t[0] == 'L':
                    if q not in t[1] or any(x != q and (x[0] != 'one' or x[1] not in forms) for x in t[1]):
                        break
                    continue
                while t[0] == 'ins' and t[2] in forms:
                    t = t[1]
                if t != q:
                    break
            else:
                for x in forms + others:
                    f = has(q, x)
                    if f[0] == 'has':
                        mp[f] = has(inits[q], x)
        return mp

    def decoupled(self, outs, dec, base):
        res = []
        for o in outs:
            if o[0] != 'back' and any(mentions(f, lambda t: t in dec) for f, v in o[1].path[base:]):
                s = o[1].copy()
                path = s.path
                s.path = path[:base]
                s.facts = {f: v for f, v in s.facts.items() if not mentions(f, lambda t: t in dec)}
                for s2 in self.assume(s, [(subst(f, dec), v) for f, v in path[base:]]):
                    res.append((o[0], s2) + tuple(o[2:]))
            else:
                res.append(o)
        return res

    def part(self, st, l, lo, hi):
        if st.rep and self.norm(st, hi) == self.norm(st, length(l)):
            hi = length(l)
        return slice_(l, lo, hi)

    def fold(self, rec, rid, p, init, cases, dom, bv, fc, free, K, trip):
        opaque = ('fold', rid, p, init)
        if fc is None:
            return opaque
        is_phi = lambda t: t in free

        # all cases leave p unchanged
        ups = [u.get(p, p) for _, u in fc]
        if all(u == p for u in ups):
            return init
        fc = self.unguard(fc, p)
        ups = [u.get(p, p) for _, u in fc]
        # conditions may not depend on loop-carried values
        for c, u in fc:
            if any(self.depends(f, is_phi) for f, v in c):
                return opaque
        kind = None
        items = []
        for u in ups:
            if u == p:
                items.append(())
                continue
            ss = segs(u)
            if p in ss and ss.count(p) == 1:
                i = ss.index(p)
                it_ = lambda x: x[1] if x[0] == 'one' else ('spread', x)
                if i == 0:
                    kk, xs = 'app', [it_(x) for x in ss[1:]]
                elif i == len(ss) - 1:
                    kk, xs = 'pre', [it_(x) for x in ss[:-1]]
                else:
                    return opaque
            elif u[0] in ('ins', 'sext'):
                kk, xs, t = 'set', [], u
                while t[0] in ('ins', 'sext'):
                    xs.insert(0, t[2] if t[0] == 'ins' else ('spread', t[2]))
                    t = t[1]
                if t != p:
                    return opaque
            elif u[0] == 'mins':
                kk, xs, t = 'map', [], u
                while t[0] == 'mins':
                    xs.insert(0, tup(t[2], t[3]))
                    t = t[1]
                if t != p:
                    return opaque
            elif _numeric(u, p) and T._lin(sub(u, p))[1] == {} and T._lin(sub(u, p))[0] > 0:
                kk, xs = 'cnt', [UNIT] * T._lin(sub(u, p))[0]
            else:
                return opaque
            if any(self.depends(x, is_phi) for x in xs):
                return opaque
            if kind not in (None, kk):
                return opaque
            kind = kk
            items.append(tuple(xs))
        cs = tuple((c, it) for (c, u), it in zip(fc, items))
        F = fmap(dom, bv, cs)
        if kind == 'app':
            return cat(init, F)
        if kind == 'pre':
            rv = lambda x: ('spread', rev(x[1])) if x[0] == 'spread' else x
            return cat(rev(fmap(dom, bv, tuple((c, tuple(rv(x) for x in reversed(it))) for c, it in cs))), init)
        if kind == 'set':
            return sext(init, F)
        if kind == 'map':
            return ('mext', init, F)
        if kind == 'cnt':
            return add(init, length(F))
        return opaque

    def depends(self, x, test, seen=()):
        """does x mention such a term, or the loops it sums up"""
        if mentions(x, test):
            return True
        for t in subterms(x):
            if t[0] == 'fold' and t[1] not in seen:
                rec = self.recs[t[1]]
                parts = list(rec.inits.values()) + [y for c, u in rec.backs for y in [f for f, _ in c] + list(u.values())]
                if any(self.depends(y, test, seen + (t[1],)) for y in parts):
                    return True
        return False

    def unguard(self, fc, p):
        """inserting an element unless it is present is inserting it"""
        out = {}
        for c, u in fc:
            w = u.get(p, p)
            keep = []
            for f, v in c:
                if f[0] == 'has' and f[1] == p and not mentions(f[2], lambda t: t == p):
                    x = f[2]
                    if v and w == p:
                        w = ins(p, x)
                        continue
                    if not v and w == ins(p, x):
                        continue
                keep.append((f, v))
            k = tuple(keep)
            if out.setdefault(k, w) != w:
                return fc
        return [(c, {p: w} if w != p else {}) for c, w in out.items()]

    def boolean_exits(self, st, dom, bv, fc, rec, rid, inits, free, cases):
        """split the state after a loop on boolean flags the loop may set"""
        sts = [st]
        for p in free:
            init = inits[p]
            ft = ('fold', rid, p, init)
            if init[0] != 'b' or fc is None:
                continue
            ups = [u.get(p, p) for _, u in fc]
            is_phi = lambda t: t in free
            if not all(u == p or u[0] == 'b' for u in ups):
                # x |= f  and  x &= f
                ok_ = True
                rew = []
                for (c, u), w in zip(fc, ups):
                    if w == p or w[0] == 'b':
                        rew.append((c, w))
                    elif w[0] == 'or' and w[1] == p and not mentions(w[2], is_phi):
                        rew.append((c + ((w[2], True),), TRUE))
                        rew.append((c + ((w[2], False),), p))
                    elif w[0] == 'and' and w[1] == p and not mentions(w[2], is_phi):
                        rew.append((c + ((w[2], False),), FALSE))
                        rew.append((c + ((w[2], True),), p))
                    else:
                        ok_ = False
                if not ok_:
                    continue
            else:
                rew = [(c, w) for (c, u), w in zip(fc, ups)]
            # conditions on the flag itself: drop those that say "not yet set"
            rew2 = []
            for c, w in rew:
                rew2.append((tuple((f, v) for f, v in c if f != p), w))
            if any(mentions(f, is_phi) for c, w in rew2 for f, v in c):
                continue
            setters = [(c, w) for c, w in rew2 if w != p and w != init]
            keepers = [(c, w) for c, w in rew2 if w == p or w == init]
            vals = {w for c, w in setters}
            if len(vals) != 1:
                continue
            val = vals.pop()
            out = []
            for s in sts:
                a = s.copy()
                a.mem = {c: subst(v, {ft: init}) for c, v in a.mem.items()}
                kc = [(c, ()) for c, w in keepers]
                self.add_forall(a, dom, bv, tuple(kc))
                if self.forall_has(a, dom, bv, kc):
                    out.append(a)
                b = s.copy()
                b.mem = {c: subst(v, {ft: val}) for c, v in b.mem.items()}
                w = ('w', rid, p)
                good = []
                e = ('at', dom, w)
                for c, _ in setters:
                    for b2 in self.assume(b.copy(), [(pos(length(dom)), True)] + [(subst(f, {bv: e}), v) for f, v in c]):
                        good.append(b2)
                out.extend(good)
            sts = out
        return sts

    def forall_has(self, st, dom, bv, cases):
        """every element satisfies one of the cases; derive has(dom, y)=False
        when all cases say e != y.  False if contradictory"""
        cand = None
        for cs, _ in cases:
            ys = set()
            for f, v in cs:
                if f[0] == 'eq' and v is False:
                    if f[1] == bv:
                        ys.add(f[2])
                    elif f[2] == bv:
                        ys.add(f[1])
            cand = ys if cand is None else cand & ys
        for y in cand or ():
            if mentions(y, lambda t: t[0] == 'bv'):
                continue
            f = has(dom, y)
            if f[0] in ('b',):
                if f[1]:
                    return False
                continue
            v = self.eval3(st, f)
            if v is True:
                return False
            if v is None and f[0] not in ('and', 'or', 'not'):
                self.add(st, f, False)
        return True

    def exit_facts(self, st, dom, bv, fc):
        if dom is None:
            return
        dom = any_order(dom)
        cases = tuple((c, ()) for c, u in fc)
        if self.trivial(st, dom, bv, [c for c, _ in cases]):
            return
        self.add_forall(st, dom, bv, cases)
        return self.forall_has(st, dom, bv, cases)

    def trivial(self, st, dom, bv, cases):
        """do the cases cover every element of dom whatever it is"""
        cs = [frozenset(c) for c in map(flat_conds, cases) if c is not None]
        for again in (False, True):
            if any(not c for c, _ in merge_cases(list(dict.fromkeys((c, ()) for c in cs)))):
                return True
            if again or len(cs) < 2:
                return False
            k = ('var', '#triv%d' % len(st.path))
            x = at(dom, k)
            less = []
            for c in cs:
                for f, v in sorted(c, key=repr):
                    if f[0] == 'eq':
                        continue
                    rest = [(subst(g, {bv: x}), w) for g, w in c if g != f] + [(lt(k, length(dom)), True)]
                    y = subst(f, {bv: x})
                    if all(self.eval3(s, y) is v for s in self.assume(st, rest)):
                        c = c - {(f, v)}
                less.append(c)
            cs = less

    def add_forall(self, st, dom, bv, cases):
        st.foralls = st.foralls + ((dom, bv, cases),)
        st.path = st.path + ((forall(dom, bv, cases), True),)

    # generalisation ----------------------------------------------------------
    def generalise(self, old, new, name, path=()):
        if old == new:
            return old
        if old[0] == 'agg' and new[0] == 'agg' and old[1:3] == new[1:3] and len(old[3]) == len(new[3]):
            return ('agg', old[1], old[2], tuple(self.generalise(a, b, name, path + (i,)) for i, (a, b) in enumerate(zip(old[3], new[3]))))
        if old[0] == 'it' and new[0] == 'it' and old[2] == new[2]:
            return ('it', self.generalise(old[1], new[1], name, path + ('b',)), old[2])
        if old[0] == 'gr' and new[0] == 'gr':
            return ('gr',) + tuple(self.generalise(a, b, name, path + (i,)) for i, (a, b) in enumerate(zip(old[1:], new[1:])))
        ph = ('phi', name[0], (name[1], path))
        if (islist(old) or islist(new)) and not any(s[0] == 'phi' for s in segs(old)):
            so, sn = segs(old), segs(new)
            n = 0
            while n < len(so) and n < len(sn) and so[n] == sn[n]:
                n += 1
            if n == len(so) and n < len(sn) and all(s[0] == 'one' or True for s in sn[n:]) and not _tail_of(new):
                return mkL(list(so) + [ph])
            n = 0
            while n < len(so) and n < len(sn) and so[-1 - n] == sn[-1 - n]:
                n += 1
            if n == len(so) and 0 < n < len(sn):
                return mkL([ph] + list(so))
        return ph

    def generalise_again(self, pat, new, name, inst, path=()):
        """weaken a pattern that the value after an iteration does not match"""
        if match(pat, new, inst, name[0]) is not None:
            return pat
        if pat[0] == 'agg' and new[0] == 'agg' and pat[1:3] == new[1:3] and len(pat[3]) == len(new[3]):
            return ('agg', pat[1], pat[2], tuple(self.generalise_again(a, b, name, inst, path + (i,)) for i, (a, b) in enumerate(zip(pat[3], new[3]))))
        if pat[0] == 'it' and new[0] == 'it' and pat[2] == new[2]:
            return ('it', self.generalise_again(pat[1], new[1], name, inst, path + ('b',)), pat[2])
        if pat[0] == 'gr' and new[0] == 'gr':
            return ('gr',) + tuple(self.generalise_again(a, b, name, inst, path + (i,)) for i, (a, b) in enumerate(zip(pat[1:], new[1:])))
        if not mentions(pat, lambda t: t[0] == 'phi' and t[1] == name[0]):
            return self.generalise(pat, new, name, path)
        return ('phi', name[0], (name[1], path, 'w'))


def any_order(l):
    """a list with the same elements"""
    if l[0] == 'rev':
        return any_order(l[1])
    if l[0] == 'slice' and l[1][0] == 'rev':
        n = length(l[1])
        return slice_(l[1][1], sub(n, l[3]), sub(n, l[2]))
    return l


T_FORM = T.FORMS


def listed_key(m, x):
    """x is a key that iterating over the map or set m has yielded"""
    if x[0] == 'fld' and x[2] == 0:
        x, kind = x[1], 'kv'
    else:
        kind = 'k'
    while x[0] == 'at':
        l = x[1]
        while l[0] in ('rev', 'slice', 'fmap') and (l[0] != 'fmap' or all(r in ((), (l[2],)) for _, r in l[3])):
            l = l[1]
        return l[0] == 'unord' and l[1] == m and l[2] == kind
    return False


def memberships(a):
    """(list, element) pairs that the atom says is a member"""
    if a[0] == 'has':
        return ((a[1], a[2]),)
    if a[0] == 'hasnode':
        return ((('nodes', a[1]), a[2]),)
    if a[0] == 'edged':
        return ((('edges', a[1]), tup(a[2], a[3])),)
    if a[0] == 'adj':
        return ((('N', a[1], a[2]), a[3]), (('N', a[1], a[3]), a[2]))
    return ()


def islist(t):
    return t[0] in ('L', 'N', 'nodes', 'edges', 'slice', 'rev', 'fmap', 'upd', 'enum', 'gadj', 'pend')


def _tail_of(t):
    return False


def _mkt(c, d):
    return T._mk(c, d)


def distinct(l):
    """the list is known to have no repeated elements"""
    if l[0] in ('N', 'nodes', 'dnodes', 'range', 'edges', 'dedges'):
        return True
    if l[0] in ('rev', 'slice', 'rot'):
        return distinct(l[1])
    if l[0] == 'fmap':
        return distinct(l[1]) and all(r in ((), (l[2],)) for _, r in l[3])
    return False


def pairs(l):
    """a list of edges, none of which is the reverse of another"""
    if l[0] in ('rev', 'slice', 'rot'):
        return pairs(l[1])
    if l[0] == 'fmap':
        return pairs(l[1]) and all(r in ((), (l[2],)) for _, r in l[3])
    return l[0] in ('edges', 'dedges')


def _mention(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(_mention(y, x) for y in t if isinstance(y, tuple))


def _numeric(t, p):
    """t = p + constant, syntactically"""
    c, d = T._lin(t)
    return d.get(p) == 1 and len(d) == 1


def trip_of(f, v, K):
    """T if (f is v) says T - k > 0"""
    if f[0] == 'pos':
        c, d = f[1], dict(f[2])
        if not v:
            c, d = 1 - c, {k: -x for k, x in d.items()}
        if d.get(K) in (-1, -2):
            n = d.pop(K)
            r = T._mk(c, d)
            return r if n == -1 else half(add(r, I(1)))
    return None


def match(pat, val, inst, key):
    """values of the phis of loop key in pat that make it equal to val, or None.  inst maps
    a phi-pattern to its closed form (identity when open)"""
    if pat[0] == 'phi' and pat[1] == key:
        return {pat: val}
    if pat == val:
        return {t: (inst(t)) for t in subterms(pat) if t[0] == 'phi' and t[1] == key}
    if pat[0] == 'agg' and val[0] == 'agg' and pat[1:3] == val[1:3] and len(pat[3]) == len(val[3]):
        out = {}
        for a, b in zip(pat[3], val[3]):
            m = match(a, b, inst, key)
            if m is None:
                return None
            out.update(m)
        return out
    if pat[0] == 'it' and val[0] == 'it' and pat[2] == val[2]:
        return match(pat[1], val[1], inst, key)
    if pat[0] == 'gr' and val[0] == 'gr':
        out = {}
        for a, b in zip(pat[1:], val[1:]):
            m = match(a, b, inst, key)
            if m is None:
                return None
            out.update(m)
        return out
    if pat[0] == 'L':
        ps = pat[1]
        idx = [i for i, s in enumerate(ps) if s[0] == 'phi' and s[1] == key]
        if len(idx) == 1:
            i = idx[0]
            pre, post = ps[:i], ps[i + 1:]
            vs = segs(val)
            if len(vs) >= len(pre) + len(post) and vs[:len(pre)] == pre and (not post or vs[len(vs) - len(post):] == post):
                return {ps[i]: mkL(vs[len(pre):len(vs) - len(post)])}
    return None


import json as _json
_J = {}


def _j(d):
    s = _json.dumps(d, sort_keys=True)
    _J[s] = d
    return s


def _uj(s):
    return _J.get(s) or _json.loads(s)
