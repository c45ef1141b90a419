"""Roles of the crate's types, functions and fields, found by type rather than
by position, and the abstract values the rules start from."""
from .terms import *
from .interp import short, Engine, St, Unsupported

DG = 'gamma::graph::default_graph::DefaultGraph'
ERR = 'gamma::graph::error::Error'
DFS = 'gamma::traversal::depth_first::DepthFirst'
BFS = 'gamma::traversal::breadth_first::BreadthFirst'
STEP = 'gamma::traversal::step::Step'
COMPS = 'gamma::selection::components::Components'
COMPFN = 'gamma::selection::components::components'
PAIRING = 'gamma::matching::pairing::Pairing'
FOREST = 'gamma::matching::forest::Forest'
MARKER = 'gamma::matching::marker::Marker'
BLOSSOM = 'gamma::matching::blossom::Blossom'
GREEDY = 'gamma::matching::greedy::greedy'
MAXMATCH = 'gamma::matching::maximum_matching::maximum_matching'
GRAPH = 'gamma::graph::graph::Graph'


ROLES = (
    ('indices', ('HashMap<usize,usize>', 'BTreeMap<usize,usize>'), 'a map from id to index'),
    ('adjacency', ('Vec<Vec<usize>>',), 'the neighbor lists'),
    ('nodes', ('Vec<usize>',), 'the node list'),
    ('edges', ('Vec<tuple(usize,usize)>',), 'the edge list'),
)


class Missing(Exception):
    """an anchor (type, field or function) that a rule needs is not there"""


class Model:
    def __init__(self, dump):
        self.dump = dump
        self.adts = {a['path']: a for a in dump['adts']}
        self.fns = {f['path']: f for f in dump['fns']}
        for a in dump['adts']:
            NVARIANTS[a['path']] = len(a['variants'])

    def adt(self, path):
        if path not in self.adts:
            raise Missing('type %s not found' % path)
        return self.adts[path]

    def fields(self, path, variant=0):
        return self.adt(path)['variants'][variant]['fields']

    def field_index(self, path, pred, what, name=None):
        c = [i for i, f in enumerate(self.fields(path)) if pred(f)]
        if len(c) > 1 and name:
            c = [i for i in c if self.fields(path)[i]['name'] == name]
        if len(c) != 1:
            raise Missing('%s: expected one field that is %s, found %d' % (path, what, len(c)))
        return c[0]

    def variant(self, path, name):
        for i, v in enumerate(self.adt(path)['variants']):
            if v['name'] == name:
                return i
        raise Missing('%s::%s not found' % (path, name))

    def variants_of(self, path):
        return [v['name'] for v in self.adt(path)['variants']]

    def error(self, name, *args):
        return ('agg', ERR, self.variant(ERR, name), tuple(args))

    def named(self, path, name):
        return self.field_index(path, lambda f: f['name'] == name, 'named ' + name)

    # functions -----------------------------------------------------------
    def inherent(self, adt, name):
        p = adt + '::' + name
        if p in self.fns:
            return p
        c = [f['path'] for f in self.dump['fns'] if f['kind'] == 'fn' and not f.get('trait') and (f.get('self') or {}).get('path') == adt and f['path'].split('::')[-1] == name]
        if len(c) == 1:
            return c[0]
        raise Missing('function %s::%s not found' % (adt, name))

    def trait_impl(self, adt, trait, name, targ=None):
        c = []
        for f in self.dump['fns']:
            if f['kind'] != 'fn' or (f.get('self') or {}).get('path') != adt or f['path'].split('::')[-1] != name:
                continue
            t = f.get('trait') or ''
            if t.split('::')[-1] != trait:
                continue
            if targ is not None and not targ(f.get('trait_args') or []):
                continue
            c.append(f['path'])
        if len(c) != 1:
            raise Missing('%s as %s::%s: %d found' % (adt, trait, name, len(c)))
        return c[0]

    def graph_method(self, name):
        return self.trait_impl(DG, 'Graph', name)

    def free(self, path):
        if path not in self.fns:
            raise Missing('function %s not found' % path)
        return path

    # raw graph -----------------------------------------------------------
    def dg_roles(self):
        """field index by role: indices, adjacency, nodes, edges"""
        def ty(f):
            return tystr(f['ty'])
        r = {}
        for role, tys, what in ROLES:
            c = [i for i, f in enumerate(self.fields(DG)) if ty(f) in tys]
            if len(c) > 1:
                c = [i for i in c if self.fields(DG)[i]['name'] == role]
            if len(c) != 1:
                raise Missing('%s: expected one field that is %s, found %d' % (DG, what, len(c)))
            r[role] = c[0]
        return r

    def dg_aux(self):
        """fields of a graph that have none of the roles: (index, name, type)"""
        r = self.dg_roles()
        return [(i, f['name'], tystr(f['ty'])) for i, f in enumerate(self.fields(DG)) if i not in r.values()]

    def raw_graph(self, g, aux=None):
        """a graph; the fields without a role hold what aux(index, g) says"""
        r = self.dg_roles()
        fs = [aux and aux(i, g) or ('app', 'field', (g, I(i))) for i in range(len(self.fields(DG)))]
        fs[r['indices']] = ('gidx', g)
        fs[r['adjacency']] = ('gadj', g)
        fs[r['nodes']] = ('nodes', g)
        fs[r['edges']] = ('edges', g)
        return ('agg', DG, 0, tuple(fs))

    def blank(self, adt, roles):
        """field values of a struct of which nothing is known but the roles:
        index -> value"""
        return tuple(roles.get(i, ('app', 'field', (('var', adt.split('::')[-1]), I(i)))) for i in range(len(self.fields(adt))))

    def step_roles(self):
        return {n: self.named(STEP, n) for n in ('sid', 'tid', 'cut')}


def tystr(t):
    k = t.get('k')
    if k == 'adt':
        n = t['path'].split('::')[-1]
        args = [tystr(a) for a in t.get('args', []) if not (a.get('k') == 'adt' and a['path'].split('::')[-1] in ('Global', 'RandomState'))]
        return n + ('<%s>' % ','.join(args) if args else '')
    if k == 'prim':
        return t['name']
    if k == 'tuple':
        return 'tuple(%s)' % ','.join(tystr(x) for x in t['ts'])
    if k == 'ref':
        return '&' + ('mut ' if t.get('mut') else '') + tystr(t['t'])
    if k == 'param':
        return t['name']
    return t.get('s', k or '?')


SELF = ('c', 'self')


def cell(st, name, v):
    c = ('c', name)
    st.mem[c] = v
    return ('ref', c, ())
