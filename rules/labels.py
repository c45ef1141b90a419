"""Node ids as opaque labels (M08).

A whole-program flow analysis finds which integers are node ids (I) and which
are counts or positions (N), through containers, tuples, iterators, closures
and the fields of the crate's types. What the numeric value of an id decides is
then a finite list of sites: comparisons by size, arithmetic, casts, use as an
index or bound, comparison with a constant or a count, sorting, and iteration
in key order; likewise every count that is used as an id.

Paths into a value: 'e' element or payload, 'k'/'v' key and value of a map,
digits for tuple components, 'x' the error. References and boxes do not count."""
import re

from engine.model import *
from .order import Flow

SEQ = {'Vec', 'VecDeque', 'LinkedList', 'HashSet', 'BTreeSet', 'BinaryHeap', 'Option', 'Range', 'RangeFrom', 'RangeInclusive', 'RangeTo', 'RangeToInclusive'}
MAPS = {'HashMap', 'BTreeMap'}
ENTRY = {'Entry', 'OccupiedEntry', 'VacantEntry'}
ORD = {'lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'max', 'min', 'clamp'}
SAME = {'iter', 'iter_mut', 'into_iter', 'drain', 'to_vec', 'clone', 'cloned', 'copied', 'to_owned', 'as_slice', 'as_mut_slice', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'deref', 'deref_mut',
        'borrow', 'borrow_mut', 'into_boxed_slice', 'into_vec', 'into', 'from', 'by_ref', 'rev', 'skip', 'take', 'step_by', 'filter', 'peekable', 'fuse', 'skip_while', 'take_while', 'inspect',
        'cycle', 'or', 'or_else', 'xor', 'ok_or', 'ok_or_else', 'ok', 'find', 'last', 'first', 'next', 'next_back', 'nth', 'peek', 'max', 'min', 'max_by_key', 'min_by_key', 'max_by', 'min_by', 'pop',
        'pop_front', 'pop_back', 'pop_first', 'pop_last', 'front', 'back', 'first_mut', 'last_mut', 'front_mut', 'back_mut', 'insert_entry', 'branch', 'from_residual', 'from_output', 'into_sorted_vec',
        'intersection', 'union', 'difference', 'symmetric_difference', 'split_off', 'range', 'new', 'box_assume_init_into_vec_unsafe', 'unwrap_or_default_', 'iter_skip', 'as_slices', 'make_contiguous',
        'retain', 'reduce', 'sorted', 'into_keys_', 'min_', 'read', 'take_mut', 'into_inner', 'map_err', 'identity', 'copied_', 'last_mut_', 'assume_init', 'swap_remove_'}
OPTIONISH = {'first', 'last', 'pop', 'pop_front', 'pop_back', 'front', 'back', 'next', 'next_back', 'find', 'nth', 'peek', 'max', 'min'}
UNWRAP = {'unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'unwrap_unchecked', 'get_or_insert', 'get_or_insert_with'}
SIZED = {'with_capacity', 'reserve', 'reserve_exact', 'resize', 'resize_with', 'from_elem'}
COUNTS = {'len', 'count', 'order', 'size', 'degree', 'capacity'}
CLOSURE_ELEM = {'map', 'filter', 'for_each', 'any', 'all', 'find', 'position', 'rposition', 'filter_map', 'flat_map', 'find_map', 'take_while', 'skip_while', 'map_while', 'inspect', 'retain', 'partition',
                'max_by_key', 'min_by_key', 'sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key', 'and_then', 'map_or', 'map_or_else', 'is_some_and', 'is_none_or', 'try_for_each', 'binary_search_by_key',
                'dedup_by_key', 'retain_mut', 'partition_point', 'is_ok_and'}
KEYED = {'sort_by_key', 'sort_by_cached_key', 'sort_unstable_by_key', 'min_by_key', 'max_by_key'}
PAIRWISE = {'sort_by', 'sort_unstable_by', 'max_by', 'min_by', 'reduce', 'dedup_by'}
LARGEST = 2 ** 64 - 1
NARROW = {'u8', 'u16', 'u32', 'i8', 'i16', 'i32', 'f32', 'f64'}
SORT = {'sort', 'sort_unstable', 'is_sorted'}
AT = {'get', 'get_mut', 'insert', 'remove', 'swap_remove', 'nth', 'skip', 'take', 'with_capacity', 'swap', 'truncate', 'split_at', 'split_off', 'rotate_left', 'rotate_right', 'step_by', 'windows', 'chunks',
      'reserve', 'resize', 'from_elem', 'repeat', 'drain'}
IDS_TO = {'add_node', 'neighbors', 'degree', 'has_edge', 'add_edge', 'pair', 'mate', 'add_root', 'mark_node', 'mark_edge'}


def name_of(t):
    while t.get('k') in ('ref', 'ptr') or t.get('k') == 'adt' and t['path'].split('::')[-1] in ('Box', 'Rc', 'Arc', 'MaybeUninit', 'ManuallyDrop', 'Cow'):
        t = t['t'] if t.get('k') in ('ref', 'ptr') else (t['args'][0] if t.get('args') else {})
    if t.get('k') == 'adt':
        return t['path'].split('::')[-1]
    return t.get('k')


def strip(t):
    while t.get('k') in ('ref', 'ptr') or t.get('k') == 'adt' and t['path'].split('::')[-1] in ('Box', 'Rc', 'Arc', 'MaybeUninit', 'ManuallyDrop'):
        t = t['t'] if t.get('k') in ('ref', 'ptr') else (t['args'][0] if t.get('args') else {})
    return t


class Labels:
    def __init__(self, dump):
        self.dump = dump
        self.adts = {a['path']: a for a in dump['adts']}
        self.fns = {f['path']: f for f in dump['fns'] if f.get('body')}
        self.out = {}            # slot -> [(path, slot, path)]
        self.T = {}              # slot -> {(path, kind)}
        self.sites = []          # (fn, block, span, what, test)
        self.orders = []         # (fn, block, kind 'O'/'C', test)
        self.seeds = []
        self.tests = []          # values that a membership test has looked at
        self.tested = set()
        self.uptys = {}
        for p, f in self.fns.items():
            for bl in f['body']['blocks']:
                for s in bl['stmts']:
                    if s['k'] == 'assign' and s['r']['k'] == 'agg' and s['r']['ak'] == 'closure':
                        for n, o in enumerate(s['r']['ops']):
                            self.uptys[(s['r']['path'], ('up', n))] = (p, o)
        self.exempt = self.contexts()
        for p, f in self.fns.items():
            self.build(p, f)
        self.solve()
        self.membership()

    # ----------------------------------------------------------- where ids are numbers by definition
    def contexts(self):
        callers = {}
        for p, f in self.fns.items():
            for bl in f['body']['blocks']:
                t = bl['term']
                if t['k'] == 'call' and t['f']['k'] == 'fn':
                    fn = t['f']['fn']
                    q = fn.get('resolved') if fn.get('resolved_local') else fn['path']
                    callers.setdefault(q, set()).add(p)
                    for a in t['args']:
                        ty = a.get('ty') or {}
                        if ty.get('k') == 'fndef':
                            callers.setdefault(ty['path'], set()).add(p)
        ex = set()
        for p, f in self.fns.items():
            if f['name'] == 'edges' and (f.get('self') or {}).get('path') == PAIRING and not f.get('trait'):
                ex.add(p)
            ins = f.get('inputs') or []
            if f['name'] == 'try_from' and ins and tystr(ins[0]) == 'Vec<Vec<usize>>':
                ex.add(p)
            if (f.get('trait') or '').split('::')[-1] in ('Debug', 'Hash', 'Ord', 'PartialOrd', 'Display'):
                ex.add(p)
        ch = True
        while ch:
            ch = False
            for p, f in self.fns.items():
                if p in ex:
                    continue
                base = p.split('::{closure')[0]
                if f['kind'] == 'closure' and base in ex or not f.get('exported') and f['kind'] != 'closure' and callers.get(p) and all(c in ex or c == p for c in callers[p]):
                    ex.add(p)
                    ch = True
        return ex

    # -------------------------------------------------------------------------------- slots
    def lty(self, p, l):
        return self.fns[p]['body']['locals'][l]['ty']

    def walk(self, p, place):
        """slot, path and type of a place"""
        l, proj = place
        slot, path, t, variant = (p, l), '', self.lty(p, l), 0
        for e in proj:
            t = strip(t)
            if e[0] == 'deref':
                pass
            elif e[0] == 'downcast':
                variant = e[1]
            elif e[0] in ('index', 'cindex'):
                path += 'e'
                t = t.get('t', {})
            elif e[0] == 'subslice':
                pass
            elif e[0] == 'field':
                k, i = t.get('k'), e[1]
                n = name_of(t)
                if k == 'tuple':
                    path += str(i)
                    t = t['ts'][i] if i < len(t['ts']) else {}
                elif k == 'closure':
                    slot, path, t = (t['path'], ('up', i)), '', {}
                    t = self.uptype(slot)
                elif k == 'adt' and self.adts.get(t['path'], {}).get('local'):
                    slot, path = ('F', t['path'], variant, i), ''
                    vs = self.adts[t['path']]['variants']
                    fs = vs[variant if variant < len(vs) else 0]['fields']
                    t = fs[i]['ty'] if i < len(fs) else {}
                elif n == 'Option':
                    path += 'e'
                    t = t['args'][0]
                elif n in ('Result', 'ControlFlow'):
                    good = (n == 'Result') == (variant == 0) if n == 'Result' else variant == 0
                    path += 'e' if good else 'x'
                    t = t['args'][(0 if good else 1) if n == 'Result' else (1 if good else 0)]
                elif n in ENTRY:
                    pass
                elif n and n.startswith('Range'):
                    path += 'e'
                    t = t['args'][0] if t.get('args') else {}
                else:
                    t = t['args'][0] if t.get('args') else {}
                variant = 0
        return slot, path, t

    def uptype(self, slot):
        if slot not in self.uptys:
            return {}
        p, o = self.uptys[slot]
        return self.src(p, o)[2] if o['k'] in ('copy', 'move') else o.get('ty') or {}

    def src(self, p, o):
        if o['k'] in ('copy', 'move'):
            return self.walk(p, o['p'])
        return None

    def edge(self, a, pa, b, pb):
        self.out.setdefault(a, []).append((pa, b, pb))

    def both(self, a, pa, b, pb):
        self.edge(a, pa, b, pb)
        self.edge(b, pb, a, pa)

    def seed(self, slot, path, kind, p=None):
        if kind == 'N':
            if p in self.exempt:
                return
            kind = ('N', p.split('::{closure')[0])
        self.seeds.append((slot, path, kind))

    def solve(self):
        todo = list(self.seeds)
        while todo:
            slot, path, kind = todo.pop()
            s = self.T.setdefault(slot, set())
            if (path, kind) in s or len(path) > 8:
                continue
            s.add((path, kind))
            for pa, b, pb in self.out.get(slot, ()):
                if path.startswith(pa):
                    todo.append((b, pb + path[len(pa):], kind))

    def has(self, sp, kind='I', deep=False):
        if sp is None:
            return False
        slot, path = sp[0], sp[1]
        for q, k in self.T.get(slot, ()):
            if (k == kind or kind == 'N' and k[0] == 'N' and k[1] not in self.tested) and (q == path or deep and q.startswith(path)):
                return True
        return False

    def membership(self):
        """numbers chosen because they are (not) in use are ids"""
        for a in self.tests:
            for q, k in self.T.get(a[0], ()):
                if k[0] == 'N' and q == a[1] and str(a[0][0]).split('::{closure')[0] == k[1]:
                    self.tested.add(k[1])

    # -------------------------------------------------------------------------------- building
    def build(self, p, f):
        b = f['body']
        if f['kind'] == 'closure':
            pass
        elif f.get('exported') or f.get('trait'):
            self.params(p, f)
        for i, bl in enumerate(b['blocks']):
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] == 'assign':
                    self.assign(p, i, s)
            t = bl['term']
            if t['k'] == 'call':
                self.call(p, i, t)
            elif t['k'] == 'switch' and t['o']['k'] in ('copy', 'move') and (t.get('ty') or {}).get('name') not in ('bool', 'isize'):
                a = self.src(p, t['o'])
                self.site(p, i, t, 'is matched against constants', lambda a=a: self.has(a), any(v == LARGEST for v, _ in t['targets']))

    def params(self, p, f):
        for n, t in enumerate(f.get('inputs') or []):
            self.ids(p, (p, n + 1), '', t)

    def ids(self, p, slot, path, t):
        """integers in the arguments of what others call are ids"""
        t = strip(t)
        if t.get('k') == 'prim' and t.get('name') == 'usize':
            self.seed(slot, path, 'I')
        elif t.get('k') == 'tuple':
            for i, x in enumerate(t['ts']):
                self.ids(p, slot, path + str(i), x)
        elif t.get('k') in ('slice', 'array'):
            self.ids(p, slot, path + 'e', t['t'])
        elif t.get('k') == 'adt' and name_of(t) in SEQ and t.get('args'):
            self.ids(p, slot, path + 'e', t['args'][0])

    def site(self, p, i, s, what, test, lossy=False):
        self.sites.append((p, i, s.get('span', ''), what, test, lossy))

    def assign(self, p, i, s):
        r, (slot, path, ty) = s['r'], self.walk(p, s['p'])
        k = r['k']
        for pl in [s['p']] + [o['p'] for o in operands(r) if o['k'] in ('copy', 'move')] + ([r['p']] if 'p' in r else []):
            self.indexes(p, i, s, pl)
        if k in ('use', 'repeat'):
            a = self.src(p, r['o'])
            if a:
                self.both(a[0], a[1], slot, path + ('e' if k == 'repeat' else '')) if self.shares(a[2]) else self.edge(a[0], a[1], slot, path + ('e' if k == 'repeat' else ''))
        elif k == 'cast':
            a = self.src(p, r['o'])
            if a:
                if r['ck'].startswith(('IntToInt', 'IntToFloat')):
                    self.site(p, i, s, 'is cast', lambda a=a: self.has(a), strip(r['ty']).get('name') in NARROW)
                self.both(a[0], a[1], slot, path)
        elif k in ('ref', 'rawptr'):
            a = self.walk(p, r['p'])
            if r.get('mut') or k == 'rawptr':
                self.both(a[0], a[1], slot, path)
            else:
                self.edge(a[0], a[1], slot, path)
        elif k == 'bin':
            a, c = self.src(p, r['a']), self.src(p, r['b'])
            op = r['op'].replace('WithOverflow', '').replace('Unchecked', '')
            if op in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp'):
                self.site(p, i, s, 'is compared by size', lambda a=a, c=c: self.has(a) or self.has(c))
            elif op in ('Eq', 'Ne'):
                for x, y, o in ((a, c, r['b']), (c, a, r['a'])):
                    if o['k'] not in ('copy', 'move') or self.fixed(p, o):
                        self.site(p, i, s, 'is compared with a constant', lambda x=x: self.has(x), o.get('v') == LARGEST)
                    else:
                        self.site(p, i, s, 'is compared with a count or position', lambda x=x, y=y: self.has(x) and not self.has(x, 'N') and self.has(y, 'N') and not self.has(y))
            else:
                # the product of ids or of an id and a number, and an id moved up by some bits, have no room
                wide = strip(self.walk(p, s['p'])[2]).get('name') in ('u128', 'i128')
                self.site(p, i, s, 'is calculated with', lambda a=a, c=c: self.has(a) or self.has(c))
                if not wide and op == 'Mul':
                    self.site(p, i, s, 'is multiplied', lambda a=a, c=c: self.has(a) or self.has(c), True)
                if not wide and op == 'Shl':
                    self.site(p, i, s, 'is shifted', lambda a=a: self.has(a), True)
        elif k == 'un':
            pass
        elif k == 'agg':
            for n, o in enumerate(r['ops']):
                a = self.src(p, o)
                if r['ak'] == 'closure':
                    if a:
                        self.both(a[0], a[1], (r['path'], ('up', n)), '')
                    continue
                if r['ak'] == 'adt' and r['path'].split('::')[-1].startswith('Range'):
                    if a:
                        self.site(p, i, s, 'is used as a bound', lambda a=a: self.has(a))
                    self.seed(slot, path + 'e', 'N', p)
                if not a:
                    continue
                if r['ak'] == 'tuple':
                    self.join(a, slot, path + str(n))
                elif r['ak'] == 'array':
                    self.join(a, slot, path + 'e')
                elif r['ak'] == 'adt':
                    if self.adts.get(r['path'], {}).get('local'):
                        self.join(a, ('F', r['path'], r['variant'], n), '')
                    elif r['path'].split('::')[-1] == 'Result':
                        self.join(a, slot, path + ('e' if r['variant'] == 0 else 'x'))
                    elif r['path'].split('::')[-1] == 'ControlFlow':
                        self.join(a, slot, path + ('e' if r['variant'] == 0 else 'x'))
                    else:
                        self.join(a, slot, path + 'e')

    def shares(self, t):
        """is a value of this type a way to change something else"""
        if t.get('k') in ('ref', 'ptr'):
            return bool(t.get('mut')) or self.shares(t['t'])
        if t.get('k') == 'adt':
            n = t['path'].split('::')[-1]
            return n in ENTRY or 'Mut' in n or any(self.shares(x) for x in t.get('args', []))
        if t.get('k') == 'tuple':
            return any(self.shares(x) for x in t['ts'])
        return False

    def join(self, a, slot, path):
        if self.shares(a[2]):
            self.both(a[0], a[1], slot, path)
        else:
            self.edge(a[0], a[1], slot, path)

    def indexes(self, p, i, s, place):
        for e in place[1]:
            if e[0] == 'index' and isinstance(e[1], int):
                self.site(p, i, s, 'is used as an index', lambda x=((p, e[1]), ''): self.has(x))

    # -------------------------------------------------------------------------------- calls
    def fnarg(self, p, o):
        """the function or closure handed over as o: slots of its parameters and result"""
        ty = strip(self.src(p, o)[2]) if o['k'] in ('copy', 'move') else (o.get('ty') or {})
        if ty.get('k') == 'closure' and ty['path'] in self.fns:
            return ty['path'], 2
        if ty.get('k') == 'fndef' and ty['path'] in self.fns:
            return ty['path'], 1
        return None

    def call(self, p, i, t):
        f = t['f']
        for o in t['args']:
            if o['k'] in ('copy', 'move'):
                self.indexes(p, i, t, o['p'])
        if f['k'] != 'fn':
            return
        fn = f['fn']
        name = fn['name']
        args = t['args']
        A = [self.src(p, a) for a in args]
        ds, dp, dt = self.walk(p, t['dest'])
        path = fn.get('resolved') if fn.get('resolved_local') and fn.get('resolved') in self.fns else fn['path']
        if path in self.fns:
            g = self.fns[path]
            if g['kind'] == 'closure':
                # (closure, (arguments))
                if len(A) > 1 and A[1]:
                    for q in range(2, g['body']['args'] + 1):
                        self.join((A[1][0], A[1][1] + str(q - 2), {}), (path, q), '')
            else:
                for n, a in enumerate(A):
                    if a:
                        self.join(a, (path, n + 1), '') if not self.shares(a[2]) else self.both(a[0], a[1], (path, n + 1), '')
                self.counted(p, i, t, name, g, A)
            self.both((path, 0), '', ds, dp) if self.shares(dt) else self.edge((path, 0), '', ds, dp)
            return
        if fn['path'].startswith('gamma::') or (fn.get('trait') or '').endswith('Graph'):
            # a graph of unknown type
            if name == 'nodes':
                self.seed(ds, dp + 'e', 'I')
            elif name == 'neighbors':
                self.seed(ds, dp + 'ee', 'I')
            elif name == 'edges':
                self.seed(ds, dp + 'e0', 'I')
                self.seed(ds, dp + 'e1', 'I')
            elif name == 'degree':
                self.seed(ds, dp + 'e', 'N', p)
            elif name in COUNTS:
                self.seed(ds, dp, 'N', p)
            self.counted(p, i, t, name, None, A)
            return
        self.std(p, i, t, name, fn, A, args, ds, dp, dt)

    def counted(self, p, i, t, name, g, A):
        """counts used as ids"""
        if name == 'has_node' and (g is None or (g.get('trait') or '').endswith('Graph')):
            self.tests.extend(a for a in A[1:] if a)
        if name in IDS_TO:
            for n, a in enumerate(A[1:]):
                if a and self.number(a):
                    self.site(p, i, t, '(a count or position) is used as a node id', lambda a=a: self.has(a, 'N') and not self.has(a))

    def std(self, p, i, t, name, fn, A, args, ds, dp, dt):
        a0 = A[0] if A else None
        rt = strip(a0[2]) if a0 else {}
        rn = name_of(rt)
        F = lambda n, x, y: A[n] and self.join((A[n][0], A[n][1] + x, {'k': 'ref', 'mut': True} if self.shares(A[n][2]) and self.shares(dt) else {}), ds, dp + y)
        W = lambda n, x, m, y: A[n] and A[m] and self.edge(A[n][0], A[n][1] + x, A[m][0], A[m][1] + y)
        owner = fn['path']
        ismap = rn in MAPS or rn in ENTRY
        # ---- closures
        for n, o in enumerate(args):
            c = self.fnarg(p, o)
            if not c:
                continue
            cp, first = c
            if n > 0 and a0:
                el = a0[1] + 'e'
                if rn in MAPS and name == 'retain':
                    self.both(a0[0], a0[1] + 'k', (cp, first), '')
                    self.both(a0[0], a0[1] + 'v', (cp, first + 1), '')
                elif name in ('or_insert_with', 'or_insert_with_key', 'unwrap_or_else', 'or_else', 'ok_or_else', 'get_or_insert_with', 'then', 'resize_with', 'map_or_else'):
                    self.edge((cp, 0), '', ds, dp + ('e' if name in ('then', 'or_else_') else ''))
                    if name == 'or_insert_with':
                        self.edge((cp, 0), '', a0[0], a0[1] + 'v')
                    if name == 'map_or_else' and n == 2:
                        self.edge(a0[0], el, (cp, first), '')
                elif name == 'and_modify':
                    self.both(a0[0], a0[1] + 'v', (cp, first), '')
                elif name in ('fold', 'try_fold', 'scan'):
                    if A[1]:
                        self.edge(A[1][0], A[1][1], (cp, first), '')
                        self.edge(A[1][0], A[1][1], ds, dp)
                    self.edge((cp, 0), '', (cp, first), '')
                    self.edge(a0[0], el, (cp, first + 1), '')
                    self.edge((cp, 0), '', ds, dp + ('e' if name == 'scan' else ''))
                elif name in PAIRWISE:
                    self.edge(a0[0], el, (cp, first), '')
                    self.edge(a0[0], el, (cp, first + 1), '')
                elif name in CLOSURE_ELEM:
                    self.both(a0[0], el, (cp, first), '') if self.shares(a0[2]) else self.edge(a0[0], el, (cp, first), '')
                if name in ('map',):
                    self.both((cp, 0), '', ds, dp + 'e')
                elif name in ('filter_map', 'flat_map', 'map_while', 'and_then', 'find_map'):
                    q = 'e'
                    if 'HashMap' in str(self.lty(cp, 0)) and name == 'flat_map':
                        q = ''
                    self.edge((cp, 0), q, ds, dp + 'e')
                elif name in ('map_or', 'map_or_else'):
                    self.edge((cp, 0), '', ds, dp)
                elif name in ('entry_or', 'from_fn', 'successors', 'repeat_with'):
                    self.edge((cp, 0), 'e' if name != 'repeat_with' else '', ds, dp + 'e')
                if name in KEYED:
                    self.orders.append((p, i, 'O' if 'sort' in name else 'C', lambda cp=cp: self.has(((cp, 0), ''), deep=True)))
        if name in PAIRWISE and a0:
            # compared inside the closure; seen there
            pass
        # ---- sites
        if name in ORD and any(w in owner for w in ('cmp::', 'PartialOrd', 'Ord')) and A:
            if name in ('max', 'min', 'clamp') and not name_of(dt) == 'Option' or name not in ('max', 'min', 'clamp'):
                self.site(p, i, t, 'is compared by size', lambda: any(self.has(a, deep=True) for a in A if a))
            for n in range(len(A)):
                if name in ('max', 'min', 'clamp'):
                    F(n, '', '')
            if name in ('max', 'min', 'clamp'):
                return
        if owner.startswith('core::num::') or re.search(r'impl (usize|u64|u32)>', owner):
            lossy = name in ('wrapping_mul', 'overflowing_mul', 'saturating_mul', 'wrapping_shl', 'wrapping_pow', 'saturating_pow')
            self.site(p, i, t, 'is calculated with (%s)' % name, lambda: self.has(A[0]) if A and A[0] and name == 'wrapping_shl' else any(self.has(a) for a in A if a), lossy)
            return
        if 'ops::arith' in owner or 'ops::bit' in owner:
            self.site(p, i, t, 'is calculated with', lambda: any(self.has(a) for a in A if a))
            return
        if name in ('max', 'min') and name_of(dt) == 'Option' and a0 and len(A) == 1:
            self.orders.append((p, i, 'C', lambda: self.has((a0[0], a0[1] + 'e'), deep=True)))
        if name in SORT and a0:
            self.orders.append((p, i, 'O', lambda: self.has((a0[0], a0[1] + 'e'), deep=True)))
            return
        if name in ('iter', 'into_iter', 'keys', 'values', 'iter_mut', 'drain', 'into_keys', 'into_values', 'intersection', 'union', 'difference', 'symmetric_difference', 'range', 'into_sorted_vec', 'values_mut') and rn in ('BTreeMap', 'BTreeSet', 'BinaryHeap'):
            key = 'k' if rn == 'BTreeMap' else 'e'
            self.orders.append((p, i, 'O', lambda: self.has((a0[0], a0[1] + key), deep=True)))
        if name in ('first', 'last', 'pop_first', 'pop_last', 'first_key_value', 'last_key_value', 'first_entry', 'peek', 'pop') and rn in ('BTreeMap', 'BTreeSet', 'BinaryHeap'):
            key = 'k' if rn == 'BTreeMap' else 'e'
            self.orders.append((p, i, 'C', lambda: self.has((a0[0], a0[1] + key), deep=True)))
        if name in ('index', 'index_mut') and not ismap and len(A) > 1:
            self.site(p, i, t, 'is used as an index', lambda: self.has(A[1]) or self.has((A[1][0], A[1][1] + 'e')) if A[1] else False)
        if name in AT and not ismap and rn not in ('HashSet', 'BTreeSet') and len(A) > 1:
            for n in ((1, 2) if name == 'swap' else (1,)):
                if n < len(A) and A[n] and strip(A[n][2]).get('name') == 'usize':
                    if not (name in ('from_elem', 'repeat', 'resize') and n == 1):
                        self.site(p, i, t, 'is used as a size' if name in SIZED else 'is used as an index (%s)' % name, lambda a=A[n]: self.has(a))
        if name == 'from_elem' and len(A) > 1:
            self.site(p, i, t, 'is used as a size', lambda: self.has(A[1]) if A[1] else False)
        if name == 'with_capacity' and a0:
            self.site(p, i, t, 'is used as a size', lambda: self.has(a0))
        if name in ('eq', 'ne') and 'cmp::' in owner and len(A) == 2:
            for x, y in ((0, 1), (1, 0)):
                if A[x] and not A[y] or A[y] and self.constant(p, args[y]):
                    self.site(p, i, t, 'is compared with a constant', lambda x=x: self.has(A[x]))
        if name in ('contains', 'contains_key') and len(A) > 1 and A[1]:
            self.tests.append(A[1])
        # ---- flow
        if name in COUNTS or name in ('position', 'rposition', 'partition_point'):
            self.seed(ds, dp + ('e' if name.endswith('position') else ''), 'N', p)
            return
        if not a0 and name not in ('from_elem',):
            return
        if name == 'enumerate':
            self.seed(ds, dp + 'e0', 'N', p)
            F(0, 'e', 'e1')
            return
        if ismap:
            if name in ('iter', 'iter_mut', 'into_iter', 'drain'):
                F(0, 'k', 'e0')
                F(0, 'v', 'e1')
                return
            if name in ('keys', 'into_keys'):
                F(0, 'k', 'e')
                return
            if name in ('values', 'into_values', 'values_mut'):
                F(0, 'v', 'e')
                return
            if name == 'insert' and rn in MAPS:
                W(1, '', 0, 'k')
                W(2, '', 0, 'v')
                F(0, 'v', 'e')
                return
            if name == 'insert':
                W(1, '', 0, 'v')
                self.both(a0[0], a0[1] + 'v', ds, dp)
                return
            if name == 'entry':
                W(1, '', 0, 'k')
                self.both(a0[0], a0[1], ds, dp)
                return
            if name in ('get', 'get_mut', 'into_mut') and rn in ENTRY:
                self.both(a0[0], a0[1] + 'v', ds, dp)
                return
            if name in ('remove',) and rn in ENTRY:
                F(0, 'v', '')
                return
            if name in ('or_insert', 'or_default', 'or_insert_with', 'or_insert_with_key'):
                if len(A) > 1:
                    W(1, '', 0, 'v')
                self.both(a0[0], a0[1] + 'v', ds, dp)
                return
            if name == 'key':
                F(0, 'k', '')
                return
            if name in ('get', 'remove', 'get_mut'):
                self.both(a0[0], a0[1] + 'v', ds, dp + 'e')
                return
            if name in ('get_key_value', 'remove_entry', 'first_key_value', 'last_key_value', 'pop_first', 'pop_last'):
                F(0, 'k', 'e0')
                F(0, 'v', 'e1')
                return
            if name in ('index', 'index_mut'):
                self.both(a0[0], a0[1] + 'v', ds, dp)
                return
            if name == 'extend':
                W(1, 'e0', 0, 'k')
                W(1, 'e1', 0, 'v')
                return
            if name in ('contains_key',):
                return
        if name in ('index', 'index_mut'):
            ranged = len(A) > 1 and A[1] and (name_of(A[1][2]) or '').startswith('Range')
            self.both(a0[0], a0[1] + ('' if ranged else 'e'), ds, dp)
            return
        if name in ('get', 'get_mut') and rn not in ('HashSet', 'BTreeSet', 'Option'):
            ranged = len(A) > 1 and A[1] and (name_of(A[1][2]) or '').startswith('Range')
            self.both(a0[0], a0[1] + 'e', ds, dp + 'e') if not ranged else self.both(a0[0], a0[1] + 'e', ds, dp + 'ee')
            return
        if name in ('push', 'push_back', 'push_front'):
            W(1, '', 0, 'e')
            return
        if name == 'insert':
            if rn in ('HashSet', 'BTreeSet', 'Option'):
                W(1, '', 0, 'e')
            else:
                W(2, '', 0, 'e')
            return
        if name in ('replace', 'get_or_insert'):
            W(1, '', 0, 'e' if rn in ('HashSet', 'Option') else '')
            F(0, '', '') if rn not in ('HashSet',) else F(0, 'e', 'e')
            return
        if name in ('swap', 'append') and len(A) > 1 and A[1] and not self.number(A[1]):
            W(1, '', 0, '')
            if name == 'swap':
                W(0, '', 1, '')
            return
        if name in ('extend', 'extend_from_slice'):
            W(1, 'e', 0, 'e')
            return
        if name in ('remove', 'swap_remove') and rn in ('Vec',):
            F(0, 'e', '')
            return
        if name in ('remove', 'swap_remove') and rn == 'VecDeque':
            F(0, 'e', 'e')
            return
        if name in ('collect', 'from_iter', 'try_collect') and a0:
            self.gather(a0, ds, dp, dt)
            return
        if name == 'unzip':
            for x in ('0', '1'):
                self.edge(a0[0], a0[1] + 'e' + x, ds, dp + x + 'e')
            return
        if name == 'partition':
            for x in ('0', '1'):
                F(0, 'e', x + 'e')
            return
        if name == 'zip':
            F(0, 'e', 'e0')
            F(1, 'e', 'e1')
            return
        if name == 'chain':
            F(0, '', '')
            F(1, '', '')
            return
        if name in UNWRAP:
            F(0, 'e', '')
            if len(A) > 1:
                F(1, '', '')
            return
        if name in ('map_or',):
            F(1, '', '')
            return
        if name in ('or', 'xor'):
            F(0, '', '')
            F(1, '', '')
            return
        if name in ('windows', 'chunks', 'chunks_exact', 'split'):
            F(0, 'e', 'ee')
            return
        if name in ('concat', 'flatten', 'join'):
            F(0, 'ee', 'e')
            return
        if name in ('split_at', 'split_at_mut', 'as_slices'):
            F(0, 'e', '0e')
            F(0, 'e', '1e')
            return
        if name in ('split_first', 'split_last'):
            F(0, 'e', 'e0')
            F(0, 'e', 'e1e')
            return
        if name in ('err',):
            F(0, 'x', 'e')
            return
        if name in ('repeat', 'once'):
            F(0, '', 'e')
            return
        if name in ('from_elem',):
            F(0, '', 'e')
            return
        if name == 'some' or name == 'Some':
            F(0, '', 'e')
            return
        if name in ('position', 'any', 'all', 'contains', 'for_each', 'fmt', 'hash', 'drop', 'sum', 'product'):
            return
        if name == 'take' and rn == 'Option' or name == 'take' and 'mem' in owner:
            F(0, '', '')
            return
        if name in SAME:
            F(0, '', '')
            if name in ('union', 'chain') and len(A) > 1:
                F(1, '', '')
            return
        if name == 'write_box_via_move' or name == 'write':
            if len(A) > 1:
                W(1, '', 0, '')
                F(1, '', '')
            return

    def number(self, a):
        return strip(a[2]).get('name') == 'usize' and strip(a[2]).get('k') == 'prim'

    def constant(self, p, o):
        """is this operand a reference to a constant"""
        if o['k'] not in ('copy', 'move'):
            return True
        l, proj = o['p']
        if proj:
            return False
        for bl in self.fns[p]['body']['blocks']:
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['p'] == [l, []]:
                    r = s['r']
                    if r['k'] == 'use' and r['o']['k'] not in ('copy', 'move'):
                        return r['o']['k'] in ('promoted', 'const', 'int')
                    if r['k'] in ('ref',) and not r['p'][1] or r['k'] == 'ref' and r['p'][1] == [['deref']]:
                        return self.constant(p, {'k': 'copy', 'p': [r['p'][0], []]}) if r['p'][0] != l and r['p'][0] > self.fns[p]['body']['args'] else False
        return False

    def fixed(self, p, o):
        """is this operand a local that is only ever given a constant"""
        l, proj = o['p']
        if proj or l <= self.fns[p]['body']['args']:
            return False
        ds = []
        for bl in self.fns[p]['body']['blocks']:
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['p'][0] == l:
                    ds.append(not s['p'][1] and s['r']['k'] == 'use' and s['r']['o']['k'] not in ('copy', 'move'))
                elif s['k'] == 'assign' and s['r']['k'] in ('ref', 'rawptr') and s['r'].get('mut') and s['r']['p'][0] == l:
                    ds.append(False)
            t = bl['term']
            if t['k'] == 'call' and t['dest'][0] == l:
                ds.append(not t['dest'][1] and not t['args'] and t['f']['k'] == 'fn' and t['f']['fn']['name'] in ('max_value', 'min_value', 'default'))
        return bool(ds) and all(ds)

    def gather(self, a, ds, dp, dt):
        n = name_of(dt)
        t = strip(dt)
        if n in MAPS:
            self.edge(a[0], a[1] + 'e0', ds, dp + 'k')
            self.edge(a[0], a[1] + 'e1', ds, dp + 'v')
        elif n == 'Result':
            self.edge(a[0], a[1] + 'ex', ds, dp + 'x')
            inner = strip(t['args'][0])
            if name_of(inner) in MAPS:
                self.edge(a[0], a[1] + 'ee0', ds, dp + 'ek')
                self.edge(a[0], a[1] + 'ee1', ds, dp + 'ev')
            else:
                self.edge(a[0], a[1] + 'ee', ds, dp + 'ee')
        elif n == 'Option':
            self.edge(a[0], a[1] + 'ee', ds, dp + 'ee')
        else:
            self.edge(a[0], a[1], ds, dp)


def operands(r):
    for x in ('o', 'a', 'b'):
        if isinstance(r.get(x), dict):
            yield r[x]
    for o in r.get('ops') or []:
        yield o


# ------------------------------------------------------------------- verdicts
class Given(Flow):
    """what depends on an order by the numeric value of ids, observed at the given calls"""
    def __init__(self, dump, given):
        self.given = given
        super().__init__(dump, 'tree')

    def call(self, p, i, t):
        k = self.given.get((p, i))
        name = t['f']['fn']['name'] if t['f']['k'] == 'fn' else ''
        if name in SORT and k is None:
            # an order of its own, by something else than ids
            pass
        elif k is not None:
            site = self.site(p, t)
            self.sources.setdefault(site, name)
            ts = frozenset([(k, site)])
            if name.startswith('sort'):
                if t['args'] and t['args'][0]['k'] in ('copy', 'move'):
                    self.mutate(self.key(p, t['args'][0]['p']), ts)
                return
            super().call(p, i, t)
            self.write(p, t['dest'], ts)
            return
        if name in ('binary_search',):
            return
        super().call(p, i, t)

    def has_iter(self, t):
        return False

    def pass_ref(self, p, dst, o):
        t = self.fields_on(p, dst)[1] or {}
        if t.get('k') == 'adt' and t['path'].split('::')[-1] in ('Vec', 'VecDeque', 'LinkedList', 'BinaryHeap', 'HashSet', 'BTreeSet', 'HashMap', 'BTreeMap') and o['k'] != 'move':
            return
        u = self.place_ty(p, o)
        if u.get('k') == 'ref' and t.get('k') == 'adt' and t['path'].split('::')[-1] in ('Vec', 'VecDeque', 'BinaryHeap'):
            return
        super().pass_ref(p, dst, o)

    def sorted(self, p, o):
        pass


def owners(dump, fns, p):
    """the functions with obligations of their own that p works for"""
    callers = {}
    for q, f in fns.items():
        for bl in f['body']['blocks']:
            t = bl['term']
            if t['k'] == 'call' and t['f']['k'] == 'fn':
                fn = t['f']['fn']
                callers.setdefault(fn.get('resolved') if fn.get('resolved_local') else fn['path'], set()).add(q.split('::{closure')[0])
    out, todo, seen = set(), [p.split('::{closure')[0]], set()
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        f = fns.get(q)
        g = f and determined(f)
        if g:
            out.add((q, g))
        elif callers.get(q) and f and not f.get('exported') and not f.get('trait') and not known(f):
            todo.extend(callers[q])
        else:
            out.add((q, None))
    return out


def known(f):
    return f['name'] in ('some_v', 'some_w', 'augmenting_path', 'even_path', 'alternating_path', 'process_blossom', 'greedy', 'maximum_matching', 'even_nodes')


def determined(f):
    """the groups of obligations that settle what f does, label for label"""
    s = (f.get('self') or {}).get('path', '').split('::')[-1]
    if s == 'DefaultGraph':
        return 'graph'
    if s in ('DepthFirst', 'BreadthFirst'):
        return 'walk'
    if s == 'Components':
        return 'components'
    if s == 'Pairing':
        return 'pairing'
    if s == 'Marker':
        return 'marker'
    if s == 'Forest' and f['name'] in ('new', 'add_root', 'add_edge', 'path'):
        return 'forest'
    return None


def settle(cx, which, memo):
    if which not in memo:
        from . import graph as G, traversal as TR, matching as MT, maxmatch as MM
        from engine.harness import Cx
        groups = {'graph': [G.add_node, G.add_edge, G.queries, G.new_graph, G.from_adjacency, G.from_edges, G.equality, TR.from_dfs],
                  'walk': [TR.dfs, TR.bfs, TR.into_table], 'components': [TR.components], 'pairing': [MT.pairing, MT.augment],
                  'marker': [MM.marker], 'forest': [MM.forest]}[which]
        sub = Cx(cx.dump)
        for g in groups:
            sub.group(g.__name__, g)
        cx.engines.extend(sub.engines)
        cx.paths += sub.paths
        obs = [o for o in sub.obs if not o['name'].endswith('panic')]
        bad = [o for o in obs if o['status'] == 'fail']
        und = [o for o in obs if o['status'] == 'undecided']
        memo[which] = ('fail', bad[0]['name']) if bad else ('undecided', und[0]['name']) if und else ('ok', '%d obligations' % len(obs))
    return memo[which]


def root(L, p, place, depth=0):
    """where the value of a place comes from, through copies and references"""
    l, proj = place
    proj = [e for e in proj if e[0] != 'deref']
    if depth > 12:
        return (l, str(proj))
    ds = []
    for bl in L.fns[p]['body']['blocks']:
        for s in bl['stmts']:
            if s['k'] == 'assign' and s['p'][0] == l:
                ds.append(s)
        if bl['term']['k'] == 'call' and bl['term']['dest'][0] == l:
            ds.append(None)
    if len(ds) == 1 and ds[0] is not None and not ds[0]['p'][1]:
        r = ds[0]['r']
        if r['k'] == 'use' and r['o']['k'] in ('copy', 'move'):
            return root(L, p, [r['o']['p'][0], r['o']['p'][1] + proj], depth + 1)
        if r['k'] == 'ref':
            return root(L, p, [r['p'][0], r['p'][1] + proj], depth + 1)
        if r['k'] == 'agg' and r['ak'] == 'tuple' and proj and proj[0][0] == 'field':
            o = r['ops'][proj[0][1]]
            if o['k'] in ('copy', 'move'):
                return root(L, p, [o['p'][0], o['p'][1] + proj[1:]], depth + 1)
    return (l, str(proj))


def normalised(L, p):
    """does p (or the function around it) put pairs of ids into a canonical order: both ways round are built"""
    pairs, ends = set(), {}
    for bl in L.fns[p]['body']['blocks']:
        for s in bl['stmts']:
            if s['k'] == 'assign' and s['r']['k'] == 'agg' and s['r']['ak'] in ('tuple', 'array') and len(s['r']['ops']) == 2 and all(o['k'] in ('copy', 'move') for o in s['r']['ops']):
                pairs.add(tuple(root(L, p, o['p']) for o in s['r']['ops']))
        t = bl['term']
        if t['k'] == 'call' and t['f']['k'] == 'fn':
            os = [o for o in t['args'] if o['k'] in ('copy', 'move')]
            n = t['f']['fn']['name']
            if n in ('min', 'max') and len(os) == 2:
                ends.setdefault(frozenset(root(L, p, o['p']) for o in os), set()).add(n)
            elif n not in ('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp', 'eq', 'ne') and len(os) >= 2:
                pairs.add(tuple(root(L, p, o['p']) for o in os[-2:]))
    return any((b, a) in pairs and a != b for a, b in pairs) or any(len(x) == 2 for x in ends.values())


def labels(cx):
    L = Labels(cx.dump)
    cx.extra = getattr(cx, 'extra', {})
    memo = {}
    live = 0
    used = []
    for p, i, span, what, test, lossy in L.sites:
        cx.fn = p
        if not test():
            cx.put('labels/number', 'ok')
            continue
        if p in L.exempt:
            used.append('%s: an id %s (%s)' % (p, what, span))
            continue
        live += 1
        where = 'a node id %s (%s)' % (what, span) if not what.startswith('(') else '%s (%s)' % (what, span)
        if what == 'is used as a size':
            # whatever is put there, room for as many as a large id says is not to be had
            cx.ob('labels/number', False, detail=where)
            continue
        verdict(cx, L, p, 'labels/number', where, memo, 'compared by size' in what and normalised(L, p), lossy)
    given = {(p, i): k for p, i, k, t in L.orders if t()}
    if given:
        fl = Given(cx.dump, given)
        results(cx, L, fl, memo)
    else:
        cx.fn = None
        cx.ob('labels/order', True)
    cx.extra['ids_as_numbers_by_definition'] = used
    cx.extra['functions_in_flow_analysis'] = len(L.fns)
    cx.extra['numeric_uses_examined'] = len(L.sites)
    cx.extra['values_classified'] = sum(len(x) for x in L.T.values())
    cx.extra['order_observations'] = sorted('%s block %d' % k for k in given)


def verdict(cx, L, p, name, where, memo, excuse=False, lossy=False):
    own = owners(cx.dump, L.fns, p)
    if own and all(g for _, g in own):
        rs = [(settle(cx, g, memo), q) for q, g in sorted(own)]
        bad = [x for x in rs if x[0][0] == 'fail'] or [x for x in rs if x[0][0] == 'undecided']
        if not bad:
            cx.put(name, 'ok')
            return
        (st, why), q = bad[0]
        if st == 'fail':
            cx.ob(name, False, detail='%s, and %s does not do what its contract says: %s' % (where, q, why))
        elif lossy:
            # other ids are lost by this, whatever it is for, and no contract vouches for it
            cx.ob(name, False, detail='%s, which not every id lives through, and %s is not decided: %s' % (where, q, why))
        else:
            cx.put(name, 'undecided', '%s; %s is not decided: %s' % (where, q, why))
        return
    if excuse:
        cx.put(name, 'undecided', '%s, to bring a pair into a fixed order' % where)
        return
    cx.ob(name, False, detail=where)


def results(cx, L, fl, memo):
    got = {}
    for p, f in sorted(fl.fns.items()):
        if not f.get('exported') or f['kind'] == 'closure' or p in L.exempt:
            continue
        ts = set(fl.get((p, 0)))
        for a in range(1, f['body']['args'] + 1):
            t = f['body']['locals'][a]['ty']
            if t.get('k') == 'ref' and t.get('mut'):
                ts |= fl.get((p, a))
        got[p] = ts
    for (a, i), ts in sorted(fl.F.items()):
        if fl.adts[a].get('exported'):
            got[a] = got.get(a, set()) | ts
    for q, ts in sorted(got.items()):
        cx.fn = q
        hard = {s for k, s in ts if k in ('O', 'C')}
        soft = {s for k, s in ts if k == 'U'} - hard
        for s in sorted(hard):
            verdict(cx, L, s.split(' (')[0], 'labels/order', 'the result depends on the order of ids by size; observed in ' + s, memo)
        for s in sorted(soft):
            cx.put('labels/order', 'undecided', 'the result depends on the order of ids by size, perhaps; observed in ' + s)
        if not hard and not soft:
            cx.put('labels/order', 'ok')
