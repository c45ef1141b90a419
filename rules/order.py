"""Flow of iteration order: what depends on the order in which a hash map or
set (or, for the second use, an ordered one) lists its contents.

A flow-insensitive taint analysis over the MIR of every function, closures
included, to a fixpoint over the call graph. Kinds of taint:
  O  an iterator or sequence whose order the container's internals determine
  E  the element of the current turn of a loop over such a thing
  C  a value that depends on that order
  U  a value that may depend on it (the analysis cannot tell)
Each carries the call site where the order was observed."""
from engine.model import *
from engine.interp import short

HASH_ITERS = ('std::collections::hash::map::', 'std::collections::hash::set::', 'hashbrown::')
TREE_ITERS = ('alloc::collections::btree::map::', 'alloc::collections::btree::set::', 'alloc::collections::binary_heap::')
CONTAINERS = {'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap', 'Entry', 'OccupiedEntry', 'VacantEntry', 'RandomState', 'OccupiedError', 'DefaultHasher'}
UNORDERED = {'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap'}
FREE = {'count', 'len', 'is_empty', 'any', 'all', 'min', 'max', 'sum', 'product', 'contains', 'contains_key', 'size_hint', 'capacity', 'eq', 'ne', 'for_each', 'reserve', 'drop',
        'with_capacity', 'is_subset', 'is_superset', 'is_disjoint', 'clear'}
SORTS = {'sort', 'sort_unstable'}
UNSURE = {'fold', 'try_fold', 'reduce', 'try_for_each', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key', 'max_by_key', 'min_by_key',
          'max_by', 'min_by', 'cmp', 'partial_cmp', 'dedup', 'retain', 'partition'}
PICKS = {'next', 'next_back', 'find', 'find_map', 'position', 'rposition', 'last', 'nth', 'first', 'pop', 'pop_front', 'pop_back', 'get', 'index', 'front', 'back', 'swap_remove', 'remove',
         'split_first', 'split_last', 'binary_search', 'hash', 'fmt', 'pop_first', 'pop_last', 'peek', 'next_if'}
TAKES = {'next', 'next_back', 'pop', 'pop_front', 'pop_back'}
SLOTS = {'get_mut', 'index_mut', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'or_default', 'into_mut'}
APPENDS = {'push', 'push_back', 'push_front', 'insert', 'extend', 'append', 'extend_from_slice', 'push_str'}


class Flow:
    def __init__(self, dump, order):
        self.dump, self.order = dump, order
        self.iters = HASH_ITERS if order == 'hash' else TREE_ITERS
        self.adts = {a['path']: a for a in dump['adts']}
        self.fns = {f['path']: f for f in dump['fns'] if f.get('body')}
        self.T = {}          # (fn, local) -> {(kind, site)}
        self.F = {}          # (adt, field index) -> taints
        self.slots = set()   # (fn, local): a reference to the place a map keeps for a key
        self.alias = {}      # (fn, local) -> {(fn, local)}: what a reference refers to
        self.sites = {}
        self.loops = {}
        self.changed = True
        self.sources = {}
        self.succ, self.defs, self.sortedkeys = {}, {}, set()
        for p, f in self.fns.items():
            self.prepare(p, f)
        for _ in (0, 1):
            # the first pass finds what is sorted
            self.T, self.F, self.changed = {}, {}, True
            n = 0
            while self.changed and n < 60:
                self.changed = False
                n += 1
                for p, f in self.fns.items():
                    self.function(p, f)

    # ------------------------------------------------------------------ types
    def has_iter(self, t):
        k = t.get('k')
        if k == 'adt':
            if t['path'].startswith(self.iters) and t['path'].split('::')[-1] not in CONTAINERS:
                return True
            return any(self.has_iter(a) for a in t.get('args', []))
        if k in ('ref', 'ptr', 'slice', 'array'):
            return self.has_iter(t['t'])
        if k == 'tuple':
            return any(self.has_iter(a) for a in t['ts'])
        return False

    def ordered(self, t, seen=()):
        """can a value of this type record an order"""
        k = t.get('k')
        if k in ('ref', 'ptr'):
            return self.ordered(t['t'], seen)
        if k in ('slice', 'array', 'dyn', 'alias', 'param'):
            return True
        if k == 'tuple':
            return any(self.ordered(a, seen) for a in t['ts'])
        if k == 'adt':
            n = t['path'].split('::')[-1]
            if n in UNORDERED:
                return any(self.ordered(a, seen) for a in t.get('args', [])[1:2]) if n in ('HashMap', 'BTreeMap') else False
            if n in ('RandomState', 'Global'):
                return False
            if n in ('Option', 'Result', 'Box', 'Rc', 'Arc'):
                return any(self.ordered(a, seen) for a in t.get('args', []))
            a = self.adts.get(t['path'])
            if a and a.get('local'):
                if t['path'] in seen:
                    return False
                return any(self.ordered(f['ty'], seen + (t['path'],)) for v in a['variants'] for f in v['fields'])
            return True
        return False

    def sequence(self, t):
        """is t (behind references) a sequence that keeps its elements in order of arrival"""
        while t.get('k') in ('ref', 'ptr'):
            t = t['t']
        return t.get('k') in ('slice', 'array') or t.get('k') == 'adt' and t['path'].split('::')[-1] in ('Vec', 'VecDeque', 'LinkedList', 'String')

    # ------------------------------------------------------------ preparation
    def prepare(self, p, f):
        b = f['body']
        succ = {}
        for i, bl in enumerate(b['blocks']):
            t = bl['term']
            out = []
            if t['k'] in ('goto', 'drop', 'assert'):
                out = [t['t']]
            elif t['k'] == 'switch':
                out = [x[1] for x in t['targets']] + [t['otherwise']]
            elif t['k'] == 'call' and t['t'] is not None:
                out = [t['t']]
            succ[i] = [x for x in out if x is not None]
        # natural loops by dominators
        n = len(b['blocks'])
        pred = {i: [] for i in range(n)}
        for i, ss in succ.items():
            for s in ss:
                pred[s].append(i)
        order, seen, stack = [], set(), [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in seen:
                    seen.add(w)
                    stack.append((w, iter(succ[w])))
                    break
            else:
                order.append(v)
                stack.pop()
        rpo = order[::-1]
        dom = {v: set(rpo) for v in rpo}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for v in rpo[1:]:
                ps = [dom[q] for q in pred[v] if q in dom]
                d = (set.intersection(*ps) if ps else set()) | {v}
                if d != dom[v]:
                    dom[v] = d
                    ch = True
        loops = {}
        for v in rpo:
            for w in succ[v]:
                if w in dom[v]:
                    body = loops.setdefault(w, {w})
                    st = [v]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(q for q in pred[x] if q in dom)
        self.loops[p] = sorted(loops.values(), key=len)
        self.succ[p] = succ
        defs = {}
        for i, bl in enumerate(b['blocks']):
            for s in bl['stmts']:
                if s['k'] == 'assign' and not s['p'][1]:
                    defs.setdefault(s['p'][0], []).append(i)
            if bl['term']['k'] == 'call' and not bl['term']['dest'][1]:
                defs.setdefault(bl['term']['dest'][0], []).append(i)
        self.defs[p] = defs

    # ---------------------------------------------------------------- access
    def key(self, p, place):
        """the variable a place belongs to: captured variables one by one"""
        l, proj = place
        if l == 1 and self.fns[p]['kind'] == 'closure':
            for e in proj:
                if e[0] == 'field':
                    return (p, ('up', e[1]))
        return (p, l)

    def get(self, k):
        return self.T.get(k, frozenset())

    def put(self, k, ts):
        if not ts:
            return
        if k in self.sortedkeys:
            ts = frozenset(x for x in ts if x[0] != 'O')
        old = self.T.get(k, frozenset())
        if not ts <= old:
            self.T[k] = old | ts
            self.changed = True

    def mutate(self, k, ts):
        """the thing k refers to changes"""
        if not ts:
            return
        todo, seen = [k], set()
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            if k[1] == 'field':
                old = self.F.get(k[2], frozenset())
                if not ts <= old:
                    self.F[k[2]] = old | ts
                    self.changed = True
                continue
            self.put(k, ts)
            todo.extend(self.alias.get(k, ()))

    def link(self, a, b):
        s = self.alias.setdefault(a, set())
        if b not in s:
            s.add(b)
            self.changed = True

    def lty(self, p, l):
        return self.fns[p]['body']['locals'][l]['ty']

    def fields_on(self, p, place):
        """(adt, field) pairs that the place goes through, for the crate's types"""
        l, proj = place
        t = self.lty(p, l)
        out = []
        variant = 0
        for e in proj:
            if e[0] == 'deref':
                while t.get('k') == 'adt' and t['path'].split('::')[-1] == 'Box':
                    t = t['args'][0]
                    break
                else:
                    t = t.get('t', {})
            elif e[0] == 'downcast':
                variant = e[1]
            elif e[0] == 'field':
                if t.get('k') == 'adt':
                    a = self.adts.get(t['path'])
                    if a and a.get('local'):
                        out.append((t['path'], e[1]))
                        vs = a['variants'][variant if variant < len(a['variants']) else 0]['fields']
                        t = vs[e[1]].get('ty', {}) if e[1] < len(vs) else {}
                    else:
                        t = t['args'][0] if t.get('args') else {}
                elif t.get('k') == 'tuple':
                    t = t['ts'][e[1]] if e[1] < len(t['ts']) else {}
                else:
                    t = {}
                variant = 0
            elif e[0] in ('index', 'cindex'):
                t = t.get('t', {})
        return out, t

    def read(self, p, place):
        fs, _ = self.fields_on(p, place)
        ts = set(self.get(self.key(p, place)))
        for f in fs:
            ts |= self.F.get(f, frozenset())
        # an element at some position of a sequence in unknown order
        if any(e[0] in ('index', 'cindex', 'subslice') for e in place[1]):
            ts = {('C' if k == 'O' else k, s) for k, s in ts}
        return frozenset(ts)

    def operand(self, p, o):
        return self.read(p, o['p']) if o['k'] in ('copy', 'move') else frozenset()

    def write(self, p, place, ts):
        fs, _ = self.fields_on(p, place)
        if place[1] and place[1][0][0] == 'deref' and (p, place[0]) in self.slots:
            # what belongs to a key does not record when it came
            ts = frozenset(x for x in ts if x[0] != 'E')
        if fs:
            self.mutate((p, 'field', fs[-1]), ts)
        if place[1]:
            self.mutate(self.key(p, place), ts)
        else:
            self.put((p, place[0]), ts)

    # -------------------------------------------------------------- transfer
    def function(self, p, f):
        b = f['body']
        for i, bl in enumerate(b['blocks']):
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] == 'assign':
                    self.assign(p, i, s)
            t = bl['term']
            if t['k'] == 'call':
                self.call(p, i, t)
            elif t['k'] == 'switch':
                # what is decided by an order
                ts = frozenset((k, s) for k, s in self.at(p, i, t['o']) if k == 'C')
                if ts:
                    self.put((p, 0), ts)
                    for a in range(1, b['args'] + 1):
                        ty = self.lty(p, a)
                        if ty.get('k') == 'ref' and ty.get('mut'):
                            self.mutate((p, a), ts)

    def at(self, p, i, o):
        """taints of an operand read in block i; an element that outlives its
        loop is one that the order picks"""
        ts = self.operand(p, o)
        if not any(k == 'E' for k, _ in ts) or o['k'] not in ('copy', 'move'):
            return ts
        l = o['p'][0]
        ds = self.defs[p].get(l, [])
        out = set()
        for k, s in ts:
            if k == 'E' and ds:
                inner = [lp for lp in self.loops[p] if any(d in lp for d in ds)]
                if inner and not any(i in lp for lp in inner):
                    k = 'U' if len(ds) > 1 else 'C'
            out.add((k, s))
        return frozenset(out)

    def assign(self, p, i, s):
        r, dst = s['r'], s['p']
        k = r['k']
        ts = frozenset()
        if k == 'use' or k in ('repeat', 'un'):
            ts = self.at(p, i, r['o'])
            self.pass_ref(p, dst, r['o'])
        elif k == 'cast':
            ts = self.at(p, i, r['o'])
            self.pass_ref(p, dst, r['o'])
            if r.get('ty', {}).get('k') == 'ptr' and not dst[1] and r['o']['k'] in ('copy', 'move'):
                self.link((p, dst[0]), self.key(p, r['o']['p']))
        elif k in ('ref', 'rawptr'):
            ts = self.read(p, r['p'])
            fs, _ = self.fields_on(p, r['p'])
            if not dst[1]:
                if (p, r['p'][0]) in self.slots:
                    self.slots.add((p, dst[0]))
                if fs:
                    self.link((p, dst[0]), (p, 'field', fs[-1]))
                self.link((p, dst[0]), self.key(p, r['p']))
        elif k == 'bin':
            ts = frozenset(('C' if x == 'O' else x, y) for x, y in self.at(p, i, r['a']) | self.at(p, i, r['b']))
        elif k == 'discr':
            ts = self.read(p, r['p'])
            ts = frozenset((x, y) for x, y in ts if x != 'E')
        elif k == 'agg':
            for n, o in enumerate(r['ops']):
                x = self.at(p, i, o)
                if r['ak'] == 'closure':
                    up = (r['path'], ('up', n))
                    if o['k'] in ('copy', 'move'):
                        self.link(up, self.key(p, o['p']))
                        self.put(up, x)
                elif r['ak'] == 'adt' and self.adts.get(r['path'], {}).get('local'):
                    if x:
                        self.mutate((p, 'field', (r['path'], n)), frozenset(y for y in x if y[0] != 'E'))
                    ts |= x
                    self.pass_ref(p, dst, o)
                else:
                    ts |= x
                    self.pass_ref(p, dst, o)
        self.write(p, dst, ts)

    def pass_ref(self, p, dst, o):
        if o['k'] in ('copy', 'move') and not dst[1]:
            k = self.key(p, o['p'])
            if k in self.slots:
                self.slots.add((p, dst[0]))
            _, t = self.fields_on(p, o['p'])
            if t.get('k') in ('ref', 'ptr', 'closure', 'adt', 'tuple', 'dyn', 'alias') or not t:
                for a in list(self.alias.get(k, ())):
                    self.link((p, dst[0]), a)

    def site(self, p, t):
        return '%s (%s)' % (p, t.get('span', '').strip('"'))

    def in_turns(self, p, i, o):
        """is this call made once per turn of a loop over something made before it"""
        inner = next((lp for lp in self.loops[p] if i in lp), None)
        if inner is None:
            return False
        bases = {self.key(p, o['p'])} if o['k'] in ('copy', 'move') else set()
        todo = list(bases)
        while todo:
            for a in self.alias.get(todo.pop(), ()):
                if a not in bases:
                    bases.add(a)
                    todo.append(a)
        made = [d for q, l in [b for b in bases if len(b) == 2] if q == p and isinstance(l, int) and self.has_iter_or_erased(self.lty(p, l)) for d in self.defs[p].get(l, [])]
        return not any(d in inner for d in made)

    def has_iter_or_erased(self, t):
        return t.get('k') != 'ref'

    def call(self, p, i, t):
        f = t['f']
        if f['k'] != 'fn':
            return
        fn = f['fn']
        name = fn['name']
        args = t['args']
        dst = t['dest']
        dty = self.fields_on(p, dst)[1]
        at = [self.at(p, i, a) for a in args]
        allt = frozenset().union(*at) if at else frozenset()
        site = self.site(p, t)
        path = fn.get('resolved') if fn.get('resolved_local') else fn['path']
        # closures handed over are run on the elements
        for n, a in enumerate(args):
            cl = self.closure_of(p, a)
            if cl and cl in self.fns and path not in self.fns:
                ts = frozenset((('E' if k == 'O' else k), s) for m, x in enumerate(at) if m != n for k, s in x)
                for q in range(2, self.fns[cl]['body']['args'] + 1):
                    self.put((cl, q), ts)
        if path in self.fns:
            self.internal(p, i, t, path, args, at, dst)
            return
        res = set()
        rcv = self.place_ty(p, args[0]) if args else {}
        while rcv.get('k') in ('ref', 'ptr'):
            rcv = rcv['t']
        keyed = rcv.get('k') == 'adt' and rcv['path'].split('::')[-1] in CONTAINERS
        # the order of a container is observed here
        if dty and self.has_iter(dty) and not any(self.has_iter(self.place_ty(p, a)) for a in args) and path not in self.fns:
            res.add(('O', site))
            self.sources.setdefault(site, name)
        if self.order == 'hash' and name in ('build_hasher', 'hash_one') and rcv.get('k') == 'adt' and rcv['path'].endswith('RandomState'):
            res.add(('C', site))
            self.sources.setdefault(site, name)
        mutable = args and self.place_ty(p, args[0]).get('k') == 'ref' and self.place_ty(p, args[0]).get('mut')
        for n, ts in enumerate(at):
            for k, s in ts:
                if k == 'C' or k == 'U':
                    res.add((k, s))
                elif k == 'E':
                    res.add((k, s))
                elif name in FREE:
                    pass
                elif name in SORTS and n == 0:
                    pass
                elif name in UNSURE:
                    res.add(('U', s))
                elif name in TAKES and n == 0 and not keyed:
                    res.add(('E' if self.in_turns(p, i, args[0]) else 'C', s))
                elif name in PICKS and n == 0 and not keyed:
                    res.add(('C', s))
                elif dty and self.ordered(dty):
                    res.add(('O', s))
                elif name in ('collect', 'from_iter', 'from', 'into', 'unzip', 'extend', 'try_from', 'try_into', 'cloned', 'clone'):
                    pass
                elif dty.get('k') == 'prim' and dty.get('name') != '()' or dty.get('k') == 'adt' and not self.ordered(dty) and dty['path'].split('::')[-1] not in UNORDERED:
                    res.add(('U', s))
        if name in SORTS and args and args[0]['k'] in ('copy', 'move'):
            self.sorted(p, args[0])
        if name in FREE and name not in ('for_each',):
            res = {(k, s) for k, s in res if k != 'E' or name in ('min', 'max', 'contains', 'contains_key', 'eq', 'ne', 'any', 'all')}
        self.write(p, dst, frozenset(res))
        for a in args[:1]:
            self.pass_ref(p, dst, a)
        if keyed and name in SLOTS and not dst[1]:
            self.slots.add((p, dst[0]))
        if keyed and name in ('insert', 'replace', 'entry') and len(args) > 1:
            self.visited(p, i, args[0], name, dst, [x for y in at[1:] for x in y if x[0] == 'E'])
        # the receiver takes in what it is given
        if mutable and len(args) > 1 and args[0]['k'] in ('copy', 'move'):
            rty = self.place_ty(p, args[0])
            give = frozenset().union(*at[1:])
            take = set()
            for k, s in give:
                if k in ('C', 'U'):
                    take.add((k, s))
                elif k == 'O' and self.ordered(rty) and name in APPENDS | {'extend', 'append', 'insert'}:
                    take.add(('O', s))
                elif k == 'E' and self.sequence(rty) and name in APPENDS:
                    take.add(('O', s))
            self.mutate(self.key(p, args[0]['p']), frozenset(take))

    def place_ty(self, p, o):
        if o['k'] in ('copy', 'move'):
            return self.fields_on(p, o['p'])[1] or {}
        return o.get('ty', {})

    def closure_of(self, p, o):
        t = self.place_ty(p, o)
        while t.get('k') == 'ref':
            t = t['t']
        return t['path'] if t.get('k') == 'closure' else None

    def sorted(self, p, o):
        """sorting puts a sequence into an order of its own"""
        todo, seen = [self.key(p, o['p'])], set()
        while todo:
            k = todo.pop()
            if k in seen or len(k) != 2:
                continue
            seen.add(k)
            self.sortedkeys.add(k)
            todo.extend(self.alias.get(k, ()))

    def internal(self, p, i, t, path, args, at, dst):
        g = self.fns[path]
        closure = g['kind'] == 'closure'
        for n, a in enumerate(args):
            if closure and n == 1:
                # arguments of a closure call come in a tuple
                for q in range(2, g['body']['args'] + 1):
                    self.put((path, q), at[n])
                continue
            if closure and n == 0:
                continue
            self.put((path, n + 1), at[n])
            if a['k'] in ('copy', 'move'):
                self.link((path, n + 1), self.key(p, a['p'])) if self.place_ty(p, a).get('k') == 'ref' and self.place_ty(p, a).get('mut') else None
        res = self.get((path, 0))
        if not any(k == 'E' for x in at for k, _ in x):
            res = frozenset(x for x in res if x[0] != 'E')
        self.write(p, dst, res)
        if args and not closure and any(k == 'E' for x in at[1:] for k, _ in x):
            self.consulted(p, i, args[0], [x for y in at[1:] for x in y if x[0] == 'E'])

    def bases(self, k):
        todo, seen = [k], set()
        while todo:
            k = todo.pop()
            if k not in seen:
                seen.add(k)
                todo.extend(self.alias.get(k, ()))
        return {k for k in seen if not self.alias.get(k)}

    def consulted(self, p, i, o, es):
        """a value of the crate's own types that a loop both changes and consults"""
        t = self.place_ty(p, o)
        if o['k'] not in ('copy', 'move') or t.get('k') != 'ref' or not t.get('mut') or not (t['t'].get('k') == 'adt' and self.adts.get(t['t']['path'], {}).get('local')):
            return
        loop = next((lp for lp in self.loops[p] if i in lp), None)
        if loop is None:
            return
        mine = self.bases(self.key(p, o['p']))
        for j in loop:
            c = self.fns[p]['body']['blocks'][j]['term']
            if c['k'] != 'call' or j == i or not c['args'] or c['args'][0]['k'] not in ('copy', 'move'):
                continue
            u = self.place_ty(p, c['args'][0])
            if u.get('k') == 'ref' and not u.get('mut') and u['t'] == t['t'] and mine & self.bases(self.key(p, c['args'][0]['p'])):
                self.mutate(self.key(p, o['p']), self.rivals(es))

    def rivals(self, es):
        """of elements that keep each other out the order decides which stays; pairs of a
        pairing do not share nodes"""
        return frozenset(('U' if PAIRING in s else 'C', s) for _, s in es)

    def visited(self, p, i, o, name, dst, es):
        """a set that a loop both fills and consults, and something else that it changes"""
        loop = next((lp for lp in self.loops[p] if i in lp), None)
        if loop is None or not es or o['k'] not in ('copy', 'move'):
            return
        mine = self.bases(self.key(p, o['p']))
        blocks = self.fns[p]['body']['blocks']
        calls = [(j, blocks[j]['term']) for j in loop if blocks[j]['term']['k'] == 'call']
        consults = name == 'entry'
        for j in loop:
            t = blocks[j]['term']
            if t['k'] == 'switch' and t['o']['k'] in ('copy', 'move') and t['o']['p'] == dst:
                consults = True
            if t['k'] == 'call' and t['f']['k'] == 'fn' and t['f']['fn']['name'] in ('contains', 'contains_key', 'get') and t['args'][0]['k'] in ('copy', 'move') \
                    and mine & self.bases(self.key(p, t['args'][0]['p'])):
                consults = True
        if not consults:
            return
        for j, c in calls:
            if j == i or not c['args'] or c['args'][0]['k'] not in ('copy', 'move'):
                continue
            t = self.place_ty(p, c['args'][0])
            if t.get('k') == 'ref' and t.get('mut') and t['t'].get('k') == 'adt' and self.adts.get(t['t']['path'], {}).get('local') and any(k == 'E' for a in c['args'][1:] for k, _ in self.at(p, j, a)):
                self.mutate(self.key(p, c['args'][0]['p']), self.rivals(es))


def derived(dump, f):
    return (f.get('trait') or '').split('::')[-1] == 'Debug'


def reproducible(cx):
    report(cx, 'hash', 'order/', 'the result depends on the order in which a hash map or set lists its contents')


def report(cx, order, tag, what):
    fl = Flow(cx.dump, order)
    cx.extra = getattr(cx, 'extra', {})
    cx.extra['order_sources'] = sorted(fl.sources)
    cx.extra['functions_in_flow_analysis'] = len(fl.fns)
    listing = set()
    for p, f in fl.fns.items():
        if f['name'] == 'edges' and (f.get('self') or {}).get('path') == PAIRING:
            listing.add(p)
    n = 0
    for p, f in sorted(fl.fns.items()):
        if not f.get('exported') or f['kind'] == 'closure' or derived(cx.dump, f):
            continue
        cx.fn = p
        got = set() if p in listing else set(fl.get((p, 0)))
        for a in range(1, f['body']['args'] + 1):
            t = f['body']['locals'][a]['ty']
            if t.get('k') == 'ref' and t.get('mut'):
                got |= fl.get((p, a))
        judge(cx, tag + 'result', got, what)
        n += 1
    for (a, i), ts in sorted(fl.F.items()):
        adt = fl.adts[a]
        if adt.get('exported'):
            cx.fn = a
            judge(cx, tag + 'state', ts, what)
    return fl


def judge(cx, name, ts, what):
    bad = sorted({s for k, s in ts if k in ('O', 'C')})
    if bad:
        cx.ob(name, False, detail='%s; observed in %s' % (what, ', '.join(bad)))
    elif any(k == 'U' for k, _ in ts):
        cx.put(name, 'undecided', '%s, perhaps; observed in %s' % (what, ', '.join(sorted({s for k, s in ts if k == 'U'}))))
    else:
        cx.ob(name, True)
