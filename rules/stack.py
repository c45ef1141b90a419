"""Obligations on the depth of calls: no function calls itself, directly or by way
of others, but for a graph of its own; no type owns a chain of itself; no
iterator or closure is wrapped again and again."""
from .surface import last

OWNERS = {'Box', 'Option', 'Vec', 'VecDeque', 'LinkedList', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'Rc', 'Arc', 'Result', 'RefCell', 'Cell', 'Mutex', 'RwLock', 'OnceCell'}
SHARED = {'Rc', 'Arc'}
MANY = {'Vec', 'VecDeque', 'LinkedList', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet'}


class Calls:
    def __init__(self, dump):
        self.dump = dump
        self.fns = {f['path']: f for f in dump['fns'] if f.get('body')}
        self.adts = {a['path']: a for a in dump['adts'] if a.get('local')}
        self.impls = {}      # (trait, name) -> functions
        for f in dump['fns']:
            if f.get('trait') and f.get('body') and f['kind'] != 'closure':
                self.impls.setdefault((f['trait'], f['name']), []).append(f)
        self.edges = {}      # fn -> [(callee, kind, span)]; kind: hard, soft, own
        self.sites = 0
        for p, f in self.fns.items():
            self.edges[p] = list(self.calls(p, f))

    def calls(self, p, f):
        for i, bl in enumerate(f['body']['blocks']):
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['r']['k'] == 'agg' and s['r']['ak'] == 'closure':
                    yield s['r']['path'], 'hard', s.get('span', '')
                elif s['k'] == 'assign' and s['r']['k'] in ('use', 'cast'):
                    ty = s['r']['o'].get('ty') or {}
                    if ty.get('k') == 'fndef' and ty.get('path') in self.fns:
                        yield ty['path'], 'soft', s.get('span', '')
            t = bl['term']
            if t['k'] != 'call' or t['f']['k'] != 'fn':
                continue
            self.sites += 1
            fn = t['f']['fn']
            for o in t.get('args') or []:
                ty = o.get('ty') or {}
                if ty.get('k') in ('fndef', 'closure') and ty.get('path') in self.fns:
                    yield ty['path'], 'hard', t.get('span', '')
                elif o['k'] == 'fn' and o['fn']['path'] in self.fns:
                    yield o['fn']['path'], 'hard', t.get('span', '')
            me = fn.get('resolved') if fn.get('resolved_local') else None
            q = me or fn['path']
            if q in self.fns:
                yield q, self.kind(p, f, t, q), t.get('span', '')
                continue
            if fn.get('trait') and not fn.get('resolved') and (fn.get('self') or {}).get('k') in ('param', 'alias', 'dyn', 'opaque'):
                for g in self.impls.get((fn['trait'], fn['name']), []):
                    yield g['path'], 'hard' if fn.get('local') else 'soft', t.get('span', '')
                continue
            if not fn.get('local'):
                # what the library calls back: the iterators of the crate it is given
                for a in self.inside([x for x in [fn.get('self')] + list(fn.get('targs') or []) if x]):
                    for g in self.impls.get(('core::iter::traits::iterator::Iterator', 'next'), []) + self.impls.get(('std::iter::Iterator', 'next'), []) + self.impls.get(('core::iter::Iterator', 'next'), []):
                        if last(g['self']) == a:
                            yield g['path'], 'soft', t.get('span', '')

    def inside(self, ts):
        out, todo = set(), list(ts)
        while todo:
            t = todo.pop()
            if t.get('k') == 'adt' and t['path'] in self.adts:
                out.add(last(t))
                continue
            todo.extend(t.get('args') or [])
            todo.extend(t.get('ts') or [])
            if isinstance(t.get('t'), dict):
                todo.append(t['t'])
        return out

    # ---- a call with a graph of one's own
    def graphish(self, t):
        while t.get('k') in ('ref', 'ptr'):
            t = t['t']
        if t.get('k') != 'adt' or t['path'] not in self.adts:
            return False
        return any(last(g['self']) == last(t) for (tr, n), gs in self.impls.items() if tr.split('::')[-1] == 'Graph' for g in gs)

    def holds(self, t, depth=3):
        """a graph, or something that owns one"""
        if self.graphish(t):
            return True
        a = self.adts.get(t.get('path')) if t.get('k') == 'adt' else None
        if a and depth:
            return any(self.holds(x['ty'], depth - 1) for v in a['variants'] for x in v['fields'])
        if t.get('k') in ('adt', 'tuple') and depth:
            return any(self.holds(x, depth - 1) for x in (t.get('args') or []) + (t.get('ts') or []))
        return False

    def kind(self, p, f, t, q):
        b = f['body']
        for o in t['args']:
            if o['k'] not in ('copy', 'move'):
                continue
            l, proj = o['p']
            ty = b['locals'][l]['ty']
            if not proj and ty.get('k') != 'ref' and self.holds(ty):
                return 'own'
            if not proj and ty.get('k') == 'ref' and self.holds(ty['t']):
                r = self.origin(f, l, set())
                if r:
                    return 'own'
                if r is None:
                    return 'own?'
        return 'hard'

    def origin(self, f, l, seen):
        """does the reference l refer to something the function itself holds: True, False, None"""
        b = f['body']
        if l in seen:
            return True
        seen = seen | {l}
        if 0 < l <= b['args']:
            return False
        res = []
        for bl in b['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] != 'assign' or s['p'] != [l, []]:
                    continue
                r = s['r']
                pl = r.get('p') if r['k'] == 'ref' else r['o'].get('p') if r['k'] in ('use', 'cast') and r['o']['k'] in ('copy', 'move') else None
                if pl is None:
                    res.append(None)
                    continue
                base, proj = pl
                bt = b['locals'][base]['ty']
                if f['kind'] == 'closure' and base == 1:
                    res.append(None)
                elif bt.get('k') == 'ref':
                    res.append(self.origin(f, base, seen))
                elif base == 0:
                    res.append(None)
                else:
                    # held by value, here or handed over
                    res.append(True if r['k'] == 'ref' else None)
            t = bl['term']
            if t['k'] == 'call' and t['dest'] == [l, []]:
                # what a call gives back belongs to one of its arguments
                rs = []
                for o in t['args']:
                    if o['k'] in ('copy', 'move') and not o['p'][1]:
                        ty = b['locals'][o['p'][0]]['ty']
                        if ty.get('k') == 'ref' and self.holds(ty['t']):
                            rs.append(self.origin(f, o['p'][0], seen))
                res.append(True if rs and all(rs) else None)
        if any(r is False for r in res):
            return False
        return True if res and all(res) else None

    # ---- a call that may go on only so long
    def bounded(self, p, q):
        """calls of q in p with p's own parameters, in another order; or a share of them"""
        f = self.fns[p]
        b = f['body']
        for bl in b['blocks']:
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['r']['k'] == 'bin' and s['r']['op'].replace('WithOverflow', '') in ('Div', 'Shr', 'ShrUnchecked'):
                    return True
        for bl in b['blocks']:
            t = bl['term']
            if t['k'] != 'call' or t['f']['k'] != 'fn' or bl['cleanup']:
                continue
            fn = t['f']['fn']
            if q not in (fn.get('resolved'), fn['path']):
                continue
            ps = [self.param(f, o) for o in t['args']]
            consts = [o['k'] not in ('copy', 'move') for o in t['args']]
            if not all(x or c for x, c in zip(ps, consts)):
                return False
            if all(x == i + 1 for i, x in enumerate(ps) if x):
                # with what it was called with: what it goes by is what it has changed
                return False
        return True

    def param(self, f, o):
        b = f['body']
        if o['k'] not in ('copy', 'move'):
            return None
        l, proj = o['p']
        for _ in range(12):
            if any(x[0] not in ('deref',) for x in proj):
                return None
            if 0 < l <= b['args']:
                return l
            ds = [s['r'] for bl in b['blocks'] for s in bl['stmts'] if s['k'] == 'assign' and s['p'] == [l, []]]
            if len(ds) != 1:
                return None
            r = ds[0]
            pl = r.get('p') if r['k'] == 'ref' else r['o'].get('p') if r['k'] == 'use' and r['o']['k'] in ('copy', 'move') else None
            if pl is None:
                return None
            l, proj = pl
        return None


def sccs(nodes, succ):
    index, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in index:
            continue
        work = [(r, iter(succ(r)))]
        index[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in succ(v):
                        out.append(sorted(c))
    return out


def debug(f):
    return (f.get('trait') or '').split('::')[-1] in ('Debug', 'Display')


def stack(cx):
    C = Calls(cx.dump)
    cx.extra = getattr(cx, 'extra', {})
    nodes = [p for p, f in C.fns.items() if not debug(f)]

    def succ(kinds):
        memo = {p: {q for q, k, _ in C.edges[p] if k in kinds and q in C.fns} for p in nodes}
        return lambda p: memo.get(p, ())
    hard = sccs(nodes, succ({'hard'}))
    bad = {p for c in hard for p in c}
    for c in hard:
        inner = [(p, q, s) for p in c for q, k, s in C.edges[p] if k == 'hard' and q in c]
        cx.fn = c[0]
        way = ', '.join('%s (%s)' % (p, s) for p, q, s in inner)
        if all(C.bounded(p, q) for p, q, s in inner if len(c) == 1) and len(c) == 1:
            cx.put('stack/calls', 'undecided', 'calls itself, perhaps only so often: %s' % way)
        else:
            cx.ob('stack/calls', False, detail='calls itself, once more for each node or edge: %s' % way)
    for c in sccs(nodes, succ({'hard', 'soft', 'own?'})):
        if set(c) & bad:
            continue
        bad |= set(c)
        cx.fn = c[0]
        cx.put('stack/calls', 'undecided', 'may call itself: %s' % ', '.join(c))
    for p in nodes:
        if p not in bad:
            cx.fn = p
            cx.put('stack/calls', 'ok')
    cx.extra['call_sites'] = C.sites
    cx.extra['call_edges'] = sum(len(x) for x in C.edges.values())
    cx.extra['recursion_with_a_graph_of_its_own'] = sorted({'%s -> %s' % (p, q) for c in sccs(nodes, succ({'hard', 'own'})) for p in c for q, k, _ in C.edges[p] if k == 'own' and q in c})
    types(cx, C)
    layers(cx, C)


# ------------------------------------------------------------------------ chains
def types(cx, C):
    drops = {last(f['self']) for f in C.dump['fns'] if (f.get('trait') or '').split('::')[-1] == 'Drop' and f.get('self')}

    def owned(t, via):
        if t.get('k') == 'adt':
            if t['path'] in C.adts:
                yield t['path'], via
                return
            n = last(t)
            if n in OWNERS:
                for a in t.get('args') or []:
                    yield from owned(a, via | {n})
        elif t.get('k') == 'tuple':
            for a in t['ts']:
                yield from owned(a, via)
        elif t.get('k') in ('array', 'slice'):
            yield from owned(t['t'], via)
    edges = {p: [e for v in a['variants'] for f in v['fields'] for e in owned(f['ty'], frozenset())] for p, a in C.adts.items()}
    cyc = sccs(list(edges), lambda p: {q for q, _ in edges.get(p, ()) if q in edges})
    inn = {p: c for c in cyc for p in c}
    for p in sorted(C.adts):
        cx.fn = p
        if p not in inn:
            cx.put('stack/types', 'ok')
            continue
        c = inn[p]
        via = set().union(*[v for q in c for r, v in edges[q] if r in c])
        if any(q.split('::')[-1] in drops for q in c) or via & (MANY | SHARED):
            cx.put('stack/types', 'undecided', 'owns values of its own type')
        else:
            cx.ob('stack/types', False, detail='a chain of values of this type is dropped one inside the other')


# ------------------------------------------------------------------------ layers
def layered(t):
    """a boxed iterator or closure"""
    n = last(t)
    if n in ('Box', 'Rc', 'Arc', 'Option', 'Peekable', 'Pin'):
        return any(layered(a) for a in (t.get('args') or [])[:1])
    return t.get('k') == 'dyn' and any(w in t.get('s', '') for w in ('Iterator', 'Fn'))


def layers(cx, C):
    """a boxed iterator or closure made of the one before: asking the outermost asks them all"""
    for p, f in C.fns.items():
        b = f['body']
        cx.fn = p
        g = {}

        def node(pl):
            l, proj = pl
            base = b['locals'][l]['ty']
            fs = tuple(x[1] for x in proj if x[0] == 'field')
            return (l, fs[:1]) if fs else (l, ())

        refs = {}
        for bl in b['blocks']:
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['r']['k'] == 'ref' and not s['p'][1]:
                    refs.setdefault(s['p'][0], set()).add(node(s['r']['p']))
        for _ in range(4):
            # borrowed again
            for l, rs in refs.items():
                rs |= {y for x, fs in list(rs) if not fs for y in refs.get(x, ())}
        dyns = set()

        def edge(o, d, how):
            if o['k'] not in ('copy', 'move'):
                return
            g.setdefault(node(o['p']), set()).add(d)
            for r in refs.get(o['p'][0], ()) if not o['p'][1] else ():
                if how:
                    g.setdefault(r, set()).add(d)
        for i, bl in enumerate(b['blocks']):
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] != 'assign':
                    continue
                r, d = s['r'], node(s['p'])
                if r['k'] in ('use', 'cast', 'repeat'):
                    edge(r['o'], d, False)
                    if r['k'] == 'cast' and 'Unsize' in r['ck'] and layered(r['ty']):
                        dyns.add((d, s.get('span', ''), i, node(r['o']['p']) if r['o']['k'] in ('copy', 'move') else None))
                elif r['k'] == 'agg':
                    for o in r['ops']:
                        edge(o, d, False)
            t = bl['term']
            if t['k'] == 'call' and t['f']['k'] == 'fn':
                n = t['f']['fn']['name']
                for o in t['args']:
                    edge(o, node(t['dest']), n in ('take', 'replace', 'swap'))
        hit = None
        for d, span, at, src in sorted(dyns, key=str):
            seen, todo = set(), [d]
            while todo:
                x = todo.pop()
                for y in g.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            if d in seen:
                ring = around(d, seen, g)
                if src not in ring:
                    continue
                ok = any(carrier(b['locals'][l]['ty']) for l, fs in ring if not fs)
                if not again(b, at, ring, g, node):
                    if not any(fs and 0 < l <= b['args'] for l, fs in ring):
                        continue
                    # kept from one call to the next
                    ok = ok and f['name'] == 'next'
                hit = hit or (span, ok)
        # a field of a value that is changed again and again
        if hit and hit[1]:
            cx.ob('stack/layers', False, detail='an iterator or closure is wrapped in another again and again (%s)' % hit[0])
        elif hit:
            cx.put('stack/layers', 'undecided', 'something boxed is made of what was boxed before (%s)' % hit[0])
        else:
            cx.put('stack/layers', 'ok')


def again(b, i, ring, g, node):
    """can this block be reached from itself, with what is boxed there at hand"""
    stop = set()
    for j, bl in enumerate(b['blocks']):
        for s in bl['stmts']:
            if s['k'] == 'assign' and not s['p'][1] and node(s['p']) in ring and i != j and layered(b['locals'][s['p'][0]]['ty']):
                r = s['r']
                src = r['o'] if r['k'] in ('use', 'cast') else None
                if src and src['k'] in ('copy', 'move') and node(src['p']) not in ring:
                    stop.add(j)
    seen, todo = set(), [i]
    while todo:
        t = b['blocks'][todo.pop()]['term']
        ss = [x[1] for x in t['targets']] + [t['otherwise']] if t['k'] == 'switch' else [t.get('t')]
        for x in ss:
            if isinstance(x, int) and x not in seen and x not in stop:
                seen.add(x)
                todo.append(x)
    return i in seen


def around(d, seen, g):
    """the ways from d round to d"""
    back = {}
    for x, ys in g.items():
        for y in ys:
            back.setdefault(y, set()).add(x)
    can, todo = {d}, [d]
    while todo:
        x = todo.pop()
        for y in back.get(x, ()):
            if y not in can:
                can.add(y)
                todo.append(y)
    return (seen & can) | {d}


ADAPT = {'Chain', 'Filter', 'Map', 'FlatMap', 'Flatten', 'Skip', 'Take', 'StepBy', 'Enumerate', 'Zip', 'Inspect', 'Peekable', 'TakeWhile', 'SkipWhile', 'FilterMap', 'Cloned', 'Copied', 'Rev', 'Scan', 'Fuse'}


def carrier(t):
    n = last(t)
    if n == 'Box':
        return any(carrier(a) for a in (t.get('args') or [])[:1])
    return n in ADAPT or t.get('k') == 'closure'
