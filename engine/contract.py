"""Assume/guarantee contracts: when a client is analysed, calls into another
part of the crate are replaced by that part's contract, which is itself checked
against the part's code by the rule of the property that states it."""
from .terms import *
from . import terms as T
from .interp import short
from . import model as M
from .stdmodel import iter_method, ret, as_it, pinfo, ensure_list, collect_into


def gnodes(g):
    return g[1] if g[0] == 'gr' else ('nodes', g)


def gedges(g):
    return g[2] if g[0] == 'gr' else ('edges', g)


def hasnode(g, x):
    return has(gnodes(g), x)


def adjf(g, a, b):
    if g[0] == 'gr':
        return f_or(has(g[2], tup(a, b)), has(g[2], tup(b, a)))
    return adj(g, a, b)


def graphlike(v):
    return not (v[0] == 'agg' and v[1] == M.DG)


class Contract:
    """raw: type paths whose own methods are analysed from their code"""

    def __init__(self, model, raw=(), inline=()):
        self.m = model
        self.raw = set(raw)
        self.inline = set(inline)
        self.used = {}
        self.special = {}      # functions taken as what the callable says
        self.recurse = {}      # the same, for calls of a function under analysis

    # which contract handles a callee -----------------------------------
    def call(self, eng, callee, path, args, st, cs, span):
        name = callee.get('name') or path.split('::')[-1]
        if path in self.inline:
            return None
        if path in self.special:
            return self.special[path](eng, args, st, cs, span)
        trait = callee.get('trait') or ''
        selfty = callee.get('self') or {}
        while selfty.get('k') == 'ref':
            selfty = selfty['t']
        sp = selfty.get('path', '')
        r = None
        what = None
        if trait == M.GRAPH and not (sp == M.DG and M.DG in self.raw):
            f = getattr(self, 'g_' + name, None)
            if f is not None:
                what = 'Graph::' + name
                r = f(eng, args, st, cs, span)
        elif sp == M.DG and M.DG not in self.raw and not trait:
            f = getattr(self, 'dg_' + name, None)
            if f is not None:
                what = 'DefaultGraph::' + name
                r = f(eng, args, st, cs, span)
        elif name == 'default' and sp == M.DG and M.DG not in self.raw:
            what = 'DefaultGraph::new'
            r = self.dg_new(eng, args, st, cs, span)
        elif name in ('try_from', 'try_into') and trait.split('::')[-1] in ('TryFrom', 'TryInto'):
            tgt = callee['targs'][0] if name == 'try_from' else callee['targs'][1]
            src = callee['targs'][1] if name == 'try_from' else callee['targs'][0]
            if tgt.get('path') == M.DG and M.DG not in self.raw:
                s = M.tystr(src)
                if s.startswith('DepthFirst'):
                    what = 'DefaultGraph::try_from(DepthFirst)'
                    r = self.tf_dfs(eng, args, st, cs, span)
                elif s == 'Vec<tuple(usize,usize)>':
                    what = 'DefaultGraph::try_from(edges)'
                    r = self.tf_edges(eng, args, st, cs, span)
                elif s == 'Vec<Vec<usize>>':
                    what = 'DefaultGraph::try_from(adjacency)'
                    r = self.tf_adj(eng, args, st, cs, span)
        elif sp in (M.DFS, M.BFS, M.COMPS) and sp not in self.raw and trait.split('::')[-1] in ('Iterator', 'IntoIterator'):
            what = short_type(sp) + '::' + name
            r = iter_method(eng, name, args, st, cs, callee, span)
        elif path == M.COMPFN and M.COMPS not in self.raw:
            what = 'components'
            r = [ret(s, ('compit', g)) for s, g in eng.deref(st, args[0])]
        elif path == M.GREEDY and path not in self.raw:
            what = 'greedy'
            r = [ret(s, ('greedy', g)) for s, g in eng.deref(st, args[0])]
        else:
            for adt, pre in ((M.DFS, 'dfs_'), (M.BFS, 'bfs_'), (M.PAIRING, 'p_'), (M.FOREST, 'f_'), (M.MARKER, 'mk_'), (M.BLOSSOM, 'bl_')):
                if sp == adt and adt not in self.raw and (not trait or name in ('default', 'clone')):
                    nm = 'new' if name == 'default' else name
                    f = getattr(self, pre + nm, None)
                    if f is not None:
                        what = short_type(adt) + '::' + nm
                        r = f(eng, args, st, cs, span)
        if r is not None:
            self.used[what] = self.used.get(what, 0) + 1
        return r

    def iterable(self, v):
        if v[0] == 'dfs':
            return ('steps', 'd', v[1], v[2])
        if v[0] == 'bfs':
            return ('steps', 'b', v[1], v[2])
        if v[0] == 'compit':
            return ('comps', v[1])
        return None

    def graph_field(self, v, i):
        for role, j in self.m.dg_roles().items():
            if i == j:
                return {'nodes': v[1], 'edges': v[2], 'indices': ('gidx', v), 'adjacency': ('gadj', v)}[role]
        return ('app', 'field', (v, I(i)))

    def part(self, v, i):
        """field i of a traversal or listing that is taken by its contract"""
        b = v
        while b[0] in ('it', 'slice'):
            b = b[1]
        rest = v[1] if v[0] == 'it' else v
        if b[0] == 'steps':
            b = ({'d': 'dfs', 'b': 'bfs'}[b[1]],) + b[2:]
        elif b[0] == 'comps':
            b = ('compit',) + b[1:]
        if b[0] not in ('dfs', 'bfs', 'compit'):
            return None
        ty = {'dfs': M.DFS, 'bfs': M.BFS, 'compit': M.COMPS}[b[0]]
        f = self.m.fields(ty)[i]
        if f['ty'].get('k') == 'ref':
            return b[1]
        if i in getattr(self.m, 'roots', {}).get(ty, ()):
            return b[2]
        if (ty, i) == getattr(self.m, 'pending', None) and rest == b:
            return ('pend', ('steps', 'd') + b[1:])
        return ('app', 'field', (v, I(i)))

    # ------------------------------------------------------------- helpers
    def one(self, eng, st, a, fn):
        out = []
        for s, v in eng.deref(st, a):
            out.extend(fn(s, v))
        return out

    def missing(self, x):
        return err(self.m.error('MissingNode', x))

    # --------------------------------------------------------- graph trait
    def g_is_empty(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, isempty(gnodes(g)))])

    def g_order(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, length(gnodes(g)))])

    def g_size(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, length(gedges(g)))])

    def g_nodes(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, ('it', gnodes(g), ()))])

    def g_edges(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, ('it', gedges(g), ()))])

    def g_has_node(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, g: [ret(s, hasnode(g, a[1]))])

    def g_neighbors(self, eng, a, st, cs, span):
        def f(s, g):
            return [ret(s2, ok(('it', ('N', g, a[1]), ())) if w else self.missing(a[1]))
                    for s2, w in eng.branch(s, hasnode(g, a[1]))]
        return self.one(eng, st, a[0], f)

    def g_degree(self, eng, a, st, cs, span):
        def f(s, g):
            return [ret(s2, ok(length(('N', g, a[1]))) if w else self.missing(a[1]))
                    for s2, w in eng.branch(s, hasnode(g, a[1]))]
        return self.one(eng, st, a[0], f)

    def g_has_edge(self, eng, a, st, cs, span):
        def f(s, g):
            out = []
            for s2, w in eng.branch(s, hasnode(g, a[1])):
                if not w:
                    out.append(ret(s2, self.missing(a[1])))
                    continue
                for s3, w2 in eng.branch(s2, hasnode(g, a[2])):
                    out.append(ret(s3, ok(adjf(g, a[1], a[2])) if w2 else self.missing(a[2])))
            return out
        return self.one(eng, st, a[0], f)

    # --------------------------------------------------------- DefaultGraph
    def dg_new(self, eng, a, st, cs, span):
        return [ret(st, ('gr', NIL, NIL))]

    def dg_add_node(self, eng, a, st, cs, span):
        def f(s, g):
            if g[0] != 'gr':
                g = ('gr', gnodes(g), gedges(g))
            out = []
            for s2, w in eng.branch(s, has(g[1], a[1])):
                if w:
                    out.append(ret(s2, err(self.m.error('DuplicateNode', a[1]))))
                else:
                    for s3 in eng.write_ref(s2, a[0], ('gr', push(g[1], a[1]), g[2])):
                        out.append(ret(s3, ok(UNIT)))
            return out
        return self.one(eng, st, a[0], f)

    def dg_add_edge(self, eng, a, st, cs, span):
        def f(s, g):
            if g[0] != 'gr':
                g = ('gr', gnodes(g), gedges(g))
            out = []
            for s2, w in eng.branch(s, has(g[1], a[1])):
                if not w:
                    out.append(ret(s2, self.missing(a[1])))
                    continue
                for s3, w2 in eng.branch(s2, has(g[1], a[2])):
                    if not w2:
                        out.append(ret(s3, self.missing(a[2])))
                        continue
                    for s4, w3 in eng.branch(s3, adjf(g, a[1], a[2])):
                        if w3:
                            out.append(ret(s4, err(self.m.error('DuplicateEdge', a[1], a[2]))))
                        else:
                            for s5 in eng.write_ref(s4, a[0], ('gr', g[1], push(g[2], tup(a[1], a[2])))):
                                out.append(ret(s5, ok(UNIT)))
            return out
        return self.one(eng, st, a[0], f)

    def tf_dfs(self, eng, a, st, cs, span):
        def f(s, t):
            if t[0] != 'dfs':
                return [ret(s, ('app', 'try_from_dfs', (t,)))]
            return [ret(s, ok(('gr', ('dnodes',) + t[1:], ('dedges',) + t[1:])))]
        return self.one(eng, st, a[0], f)

    def tf_edges(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, l: [ret(s, ('app', 'try_from_edges', (l,)))])

    def tf_adj(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, l: [ret(s, ('app', 'try_from_adj', (l,)))])

    # ------------------------------------------------------------ traversal
    def _trav(self, eng, a, st, tag):
        def f(s, g):
            return [ret(s2, ok((tag, g, a[1])) if w else self.missing(a[1]))
                    for s2, w in eng.branch(s, hasnode(g, a[1]))]
        return self.one(eng, st, a[0], f)

    def dfs_new(self, eng, a, st, cs, span):
        return self._trav(eng, a, st, 'dfs')

    def bfs_new(self, eng, a, st, cs, span):
        return self._trav(eng, a, st, 'bfs')

    def dfs_into_table(self, eng, a, st, cs, span):
        def f(s, t):
            if t[0] != 'dfs':
                return [ret(s, ('app', 'into_table', (t,)))]
            return [ret(s, tup(('dnodes',) + t[1:], ('dedges',) + t[1:]))]
        return self.one(eng, st, a[0], f)

    # -------------------------------------------------------------- pairing
    def p_new(self, eng, a, st, cs, span):
        return [ret(st, plog(('pempty',), NIL))]

    def p_order(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, p: [ret(s, porder(pvalue(p)))])

    def p_has_node(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, p: [ret(s, haspair(p, a[1]))])

    def p_edges(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, p: [ret(s, ('it', ('pedges', p), ()))])

    def p_pair(self, eng, a, st, cs, span):
        def f(s, p):
            base, log = pparts(p)
            return [ret(s2, UNIT) for s2 in eng.write_ref(s, a[0], plog(base, push(log, tup(a[1], a[2]))))]
        return self.one(eng, st, a[0], f)

    def p_augment(self, eng, a, st, cs, span):
        def f(s, p):
            out = []
            for s1, path in eng.deref(s, a[1]):
                for s2, w in eng.branch(s1, odd(length(path))):
                    if w:
                        out.append(('panic', s2, pinfo(eng, 'augment', span)))
                    else:
                        out.extend(ret(s3, UNIT) for s3 in eng.write_ref(s2, a[0], plog(('aug', pvalue(p), path), NIL)))
            return out
        return self.one(eng, st, a[0], f)

    def p_mate(self, eng, a, st, cs, span):
        def f(s, p):
            return [ret(s2, mate(p, a[1])) if w else ('panic', s2, pinfo(eng, 'mate', span))
                    for s2, w in eng.branch(s, haspair(p, a[1]))]
        return self.one(eng, st, a[0], f)

    def p_clone(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, p: [ret(s, p)])

    # --------------------------------------------------------------- forest
    # abstract forest: ('fnil',) | ('froot', F, r) | ('fedge', F, p, n) | phi
    def f_new(self, eng, a, st, cs, span):
        return [ret(st, ('fnil',))]

    def f_add_root(self, eng, a, st, cs, span):
        def f(s, F):
            out = []
            for s2, w in eng.branch(s, infor(F, a[1])):
                if w:
                    out.append(('panic', s2, pinfo(eng, 'dup root', span)))
                else:
                    out.extend(ret(s3, UNIT) for s3 in eng.write_ref(s2, a[0], ('froot', F, a[1])))
            return out
        return self.one(eng, st, a[0], f)

    def f_add_edge(self, eng, a, st, cs, span):
        def f(s, F):
            out = []
            for s2, w in eng.branch(s, infor(F, a[1])):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'missing parent', span)))
                    continue
                for s3, w2 in eng.branch(s2, infor(F, a[2])):
                    if w2:
                        out.append(('panic', s3, pinfo(eng, 'dup node', span)))
                    else:
                        out.extend(ret(s4, UNIT) for s4 in eng.write_ref(s3, a[0], ('fedge', F, a[1], a[2])))
            return out
        return self.one(eng, st, a[0], f)

    def f_even_nodes(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, F: [ret(s, ('it', ('evens', F), ()))])

    def f_path(self, eng, a, st, cs, span):
        def f(s, F):
            return [ret(s2, some(('fpath', F, a[1])) if w else NONE) for s2, w in eng.branch(s, infor(F, a[1]))]
        return self.one(eng, st, a[0], f)

    # --------------------------------------------------------------- marker
    def mk_new(self, eng, a, st, cs, span):
        return [ret(st, ('mknil',))]

    def mk_mark_node(self, eng, a, st, cs, span):
        def f(s, m):
            out = []
            for s2, w in eng.branch(s, marked(m, a[1])):
                if w:
                    out.append(('panic', s2, pinfo(eng, 'marked twice', span)))
                else:
                    out.extend(ret(s3, UNIT) for s3 in eng.write_ref(s2, a[0], ('mkn', m, a[1])))
            return out
        return self.one(eng, st, a[0], f)

    def mk_mark_edge(self, eng, a, st, cs, span):
        def f(s, m):
            out = []
            for s2, w in eng.branch(s, markede(m, a[1], a[2])):
                if w:
                    out.append(('panic', s2, pinfo(eng, 'edge marked twice', span)))
                else:
                    out.extend(ret(s3, UNIT) for s3 in eng.write_ref(s2, a[0], ('mke', m, a[1], a[2])))
            return out
        return self.one(eng, st, a[0], f)

    def mk_has_node(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, m: [ret(s, marked(m, a[1]))])

    def mk_has_edge(self, eng, a, st, cs, span):
        return self.one(eng, st, a[0], lambda s, m: [ret(s, markede(m, a[1], a[2]))])

    # -------------------------------------------------------------- blossom
    def bl_new(self, eng, a, st, cs, span):
        return [ret(st, ('blossom', a[0], a[1], a[2]))]

    def bl_contract_graph(self, eng, a, st, cs, span):
        out = []
        for s, b in eng.deref(st, a[0]):
            for s2, g in eng.deref(s, a[1]):
                out.append(ret(s2, ok(('cgraph', b, g))))
        return out

    def bl_contract_pairing(self, eng, a, st, cs, span):
        out = []
        for s, b in eng.deref(st, a[0]):
            for s2, p in eng.deref(s, a[1]):
                out.append(ret(s2, ('cpair', b, p)))
        return out

    def bl_lift(self, eng, a, st, cs, span):
        out = []
        for s, b in eng.deref(st, a[0]):
            for s2, p in eng.deref(s, a[1]):
                for s3, g in eng.deref(s2, a[2]):
                    out.append(ret(s3, ('lift', b, p, g)))
        return out


def short_type(p):
    return p.split('::')[-1]


def plog(base, log):
    """the pairing base after pairing the listed nodes, in order"""
    return ('agg', '#pairing', 0, (base, log))


def pparts(p):
    return p[3] if p[0] == 'agg' and p[1] == '#pairing' else (p, NIL)


def pvalue(p):
    base, log = pparts(p)
    return base if log == NIL else p


def porder(p):
    """how many nodes are paired: a path that was found for a pairing adds two"""
    n = 0
    while p[0] == 'aug' and p[2][0] == 'vfld' and p[2][1][0] == 'search' and p[2][1][2] == p[1]:
        n, p = n + 2, p[1]
    return add(I(0) if p == ('pempty',) else ('porder', p), I(n))


def ends(log):
    """the ends of all listed pairs"""
    out = []
    bv = ('bv', 300)
    for x in segs(log):
        if x[0] == 'one':
            out.extend((('one', fld(x[1], 0)), ('one', fld(x[1], 1))))
        elif x[0] == 'fmap':
            out.append(fmap(x[1], x[2], tuple((c, tuple(y for r in rs for y in end_items(r))) for c, rs in x[3])))
        else:
            out.append(fmap(x, bv, (((), (fld(bv, 0), fld(bv, 1))),)))
    return mkL(out)


def end_items(r):
    if r[0] == 'spread':
        return (('spread', ends(r[1])),)
    return (fld(r, 0), fld(r, 1))


def haspair(p, x):
    """valid when only free nodes have been paired since"""
    base, log = pparts(p)
    if log != NIL:
        return f_or(has(ends(log), x), haspair(base, x))
    if base == ('pempty',):
        return FALSE
    return ('haspair', base, x)


def mate(p, x):
    base, log = pparts(p)
    if log == NIL:
        return ('mate', base, x)
    return ('app', 'mate', (p, x))


def infor(F, x):
    if F[0] == 'fnil':
        return FALSE
    if F[0] == 'froot':
        return f_or(eq(F[2], x), infor(F[1], x))
    if F[0] == 'fedge':
        return f_or(eq(F[3], x), infor(F[1], x))
    return ('infor', F, x)


def marked(m, x):
    if m[0] == 'mknil':
        return FALSE
    if m[0] == 'mkn':
        return f_or(eq(m[2], x), marked(m[1], x))
    if m[0] == 'mke':
        return marked(m[1], x)
    return ('mark', m, x)


def markede(m, a, b):
    if m[0] == 'mknil':
        return FALSE
    if m[0] == 'mke':
        return f_or(f_and(eq(m[2], a), eq(m[3], b)), f_and(eq(m[2], b), eq(m[3], a)), markede(m[1], a, b))
    if m[0] == 'mkn':
        return markede(m[1], a, b)
    return ('marke', m, a, b)


# ------------------------------------------------------------------- axioms
def origin(t):
    """lists that t is known to be an element of"""
    if t[0] == 'at':
        l = t[1]
        while True:
            yield l
            if l[0] == 'fmap' and all(r in ((), (l[2],)) for _, r in l[3]):
                l = l[1]
            elif l[0] in ('rev', 'slice', 'rot', 'stepby'):
                l = l[1]
            else:
                return
    elif t[0] == 'bv':
        return


def graph_axiom(eng, st, a):
    """facts of any graph g: listed nodes, listed neighbors and ends of listed
    edges are nodes; a listed neighbor or edge is an adjacency; positions of
    nodes are below the node count"""
    h = a[0]
    if h == 'hasnode':
        g, x = a[1], a[2]
        for l in origin(x):
            if l == ('nodes', g) or (l[0] == 'N' and l[1] == g) or (l[0] == 'dnodes' and l[1] == g):
                return True
        if x[0] == 'fld':
            for l in origin(x[1]):
                if l == ('edges', g) or (l[0] in ('steps',) and l[2] == g and x[2] in (0, 1)) or (l[0] == 'dedges' and l[1] == g):
                    return True
        for f, v in st.facts.items():
            if v and f[0] in ('adj', 'edged') and f[1] == g and x in f[2:4]:
                return True
        return None
    if h == 'adj':
        g, x, y = a[1], a[2], a[3]
        for p, q in ((x, y), (y, x)):
            for l in origin(p):
                if l == ('N', g, q):
                    return True
            if p[0] == 'fld' and p[2] == 0 and q == ('fld', p[1], 1):
                for l in origin(p[1]):
                    if l == ('edges', g) or (l[0] == 'steps' and l[2] == g) or (l[0] == 'dedges' and l[1] == g):
                        return True
            if st.facts.get(('hasnode', g, p)) is False:
                return False
            if st.facts.get(('isempty', ('N', g, p))) is True:
                return False
        vs = [eng.lookup(st, ('edged', g, p, q)) for p, q in {(x, y), (y, x)}]
        if True in vs:
            return True
        if None not in vs:
            return False
        return None
    if h == 'edged':
        g, x, y = a[1], a[2], a[3]
        j = st.facts.get(adj(g, x, y))
        if j is False:
            return False
        if j and (x == y or st.facts.get(('edged', g, y, x)) is False):
            return True
        if x[0] == 'fld' and x[2] == 0 and y == ('fld', x[1], 1):
            for l in origin(x[1]):
                if l == ('edges', g):
                    return True
        return None
    if h == 'isempty':
        l = a[1]
        if l[0] == 'nodes':
            if l[1][0] == 'at' and l[1][1][0] == 'comps':
                return False
            for f, v in st.facts.items():
                if v and f[0] == 'hasnode' and f[1] == l[1]:
                    return False
                if v and f[0] in ('adj', 'edged') and f[1] == l[1]:
                    return False
        if l[0] == 'edges' and st.facts.get(isempty(('nodes', l[1]))) is True:
            return True
        if l[0] == 'N':
            for f, v in st.facts.items():
                if v and f[0] == 'adj' and f[1] == l[1] and l[2] in f[2:4]:
                    return False
        return None
    return None
