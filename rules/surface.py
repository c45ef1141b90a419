"""What the public surface lets a program do: who can change a graph or pairing,
what borrows what (G11), and what reading depends on (G12).

Signatures, field visibility and calls are read from the type-checked crate.
Programs that must not compile, each with a twin that differs from it in one
place and must, are checked against the crate's current metadata."""
import concurrent.futures
import glob
import json
import os
import re
import subprocess

from engine.model import *

STORES = {'graph': r'DefaultGraph$', 'pairing': r'Pairing$'}
# a pairing or graph passed by mutable reference may be changed by these
MAY_CHANGE = {'DefaultGraph': {'add_node', 'add_edge'}, 'Pairing': {'pair', 'augment', 'maximum_matching'}}
HANDLES = {'IterMut', 'ValuesMut', 'Drain', 'Entry', 'OccupiedEntry', 'VacantEntry', 'Cell', 'RefCell', 'UnsafeCell', 'Mutex', 'RwLock', 'PeekMut', 'RefMut', 'MutexGuard', 'IntoMut', 'ChunksMut',
           'OccupiedError', 'CursorMut'}
CELLS = {'Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'LazyCell', 'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Once', 'Condvar', 'SyncUnsafeCell', 'ReentrantLock', 'Sender', 'Receiver', 'Barrier'}


def last(t):
    return t['path'].split('::')[-1] if t.get('k') == 'adt' else None


def parts(t):
    yield t
    for x in t.get('args', []) or []:
        yield from parts(x)
    for x in t.get('ts', []) or []:
        yield from parts(x)
    if isinstance(t.get('t'), dict):
        yield from parts(t['t'])


def store_of(t, gparams=()):
    n = last(t)
    if n in MAY_CHANGE and t['path'].startswith('gamma::'):
        return n
    if t.get('k') == 'param' and t['name'] in gparams:
        return 'DefaultGraph'
    return None


def exported_fns(dump):
    return [f for f in dump['fns'] if f.get('exported') and f['kind'] != 'closure' and f.get('inputs') is not None]


def surface(cx):
    dump = cx.dump
    n = 0
    for a in dump['adts']:
        if a.get('local') and a['exported'] and a['path'].split('::')[-1] in MAY_CHANGE:
            cx.fn = a['path']
            for v in a['variants']:
                for f in v['fields']:
                    cx.ob('surface/fields', not f.get('pub'), detail='the field %s of %s can be reached from outside the crate' % (f['name'], a['path']))
    for f in exported_fns(dump):
        cx.fn = f['path']
        for t in f['inputs']:
            for p in parts(t):
                if p.get('k') in ('ref', 'ptr') and p.get('mut'):
                    s = store_of(p['t'], () if 'PartialEq' in (f.get('trait') or '') else ('G',))
                    if s:
                        ok = f['name'] in MAY_CHANGE[s] and (s != 'DefaultGraph' or not f.get('trait'))
                        cx.ob('surface/mutators', ok, detail='%s can change a %s it is given' % (f['path'], s))
                        n += 1
        ins = f['inputs']
        bad = handed_out(f['output'])
        takes = [s for t in ins for p in parts(t) for s in [store_of(p)] if s]
        if bad and not takes:
            bad = None
        cx.ob('surface/returns', not bad, detail='%s hands out %s' % (f['path'], bad))
    for it in dump['items']:
        if it.get('unsafe_impl'):
            cx.fn = it['path']
            cx.put('surface/unsafe', 'undecided', 'unsafe impl')
    witnesses(cx, BORROWS, 'surface/borrow')


def handed_out(t):
    for p in parts(t):
        if p.get('k') in ('ref', 'ptr') and p.get('mut'):
            return 'a mutable reference'
        if last(p) in HANDLES:
            return 'a handle (%s)' % last(p)
        if p.get('k') in ('alias', 'dyn') and re.search(r'&(\'\w+ )?mut |\*mut ', p.get('s', '')):
            return 'mutable references (%s)' % p['s']
    return None


# ------------------------------------------------------------------ witnesses
HEAD = '''#![allow(unused)]
extern crate gamma;
use std::convert::TryFrom;
use gamma::graph::{ Graph, DefaultGraph, Error };
use gamma::traversal::{ DepthFirst, BreadthFirst, Step };
use gamma::selection::components;
use gamma::matching::{ Pairing, greedy, maximum_matching };
fn keep<T>(_: T) { }
'''
READERS = {
    'nodes': 'x.nodes()',
    'edges': 'x.edges()',
    'neighbors': 'x.neighbors(0).unwrap()',
    'depth-first': 'DepthFirst::new(&x, 0).unwrap()',
    'breadth-first': 'BreadthFirst::new(&x, 0).unwrap()',
    'components': 'components(&x)',
}
BORROWS = []
for _n, _e in READERS.items():
    _g = 'let mut x = DefaultGraph::new();'
    for _what, _how in (('node', 'x.add_node(1).unwrap();'), ('edge', 'x.add_edge(1, 2).unwrap();'), ('replace', 'x = DefaultGraph::new();')):
        BORROWS.append(('%s/%s' % (_n, _what), 'fn f() { %s let it = %s; %s keep(it); }' % (_g, _e, _how), 'fn f() { %s let it = %s; keep(it); %s }' % (_g, _e, _how)))
    BORROWS.append(('%s/move' % _n, 'fn f() { %s let it = %s; keep(x); keep(it); }' % (_g, _e), 'fn f() { %s let it = %s; keep(it); keep(x); }' % (_g, _e)))
    BORROWS.append(('%s/outlive' % _n, 'fn f() { let it; { %s it = %s; } keep(it); }' % (_g, _e), 'fn f() { %s let it; { it = %s; } keep(it); }' % (_g, _e)))
    # the graph can still be read
    BORROWS.append(('%s/read' % _n, None, 'fn f() { %s let it = %s; let n = x.order(); let m = %s; keep(it); keep(m); }' % (_g, _e, _e)))
_g = 'let mut x = Pairing::new();'
for _what, _how in (('pair', 'x.pair(1, 2);'), ('augment', 'x.augment(vec![ 1, 2 ]);'), ('replace', 'x = Pairing::new();'), ('matching', 'maximum_matching(&DefaultGraph::new(), &mut x);'),
                    ('move', 'keep(x);')):
    BORROWS.append(('pairs/%s' % _what, 'fn f() { %s let it = x.edges(); %s keep(it); }' % (_g, _how), 'fn f() { %s let it = x.edges(); keep(it); %s }' % (_g, _how)))
BORROWS.append(('pairs/outlive', 'fn f() { let it; { %s it = x.edges(); } keep(it); }' % _g, 'fn f() { %s let it; { it = x.edges(); } keep(it); }' % _g))
for _t, _m, _args in (('DefaultGraph', 'add_node', '1'), ('DefaultGraph', 'add_edge', '1, 2'), ('Pairing', 'pair', '1, 2'), ('Pairing', 'augment', 'vec![ ]')):
    BORROWS.append(('shared/%s' % _m, 'fn f(x: &%s) { x.%s(%s); }' % (_t, _m, _args), 'fn f(x: &mut %s) { x.%s(%s); }' % (_t, _m, _args)))
BORROWS.append(('shared/matching', 'fn f(g: &DefaultGraph, x: &Pairing) { maximum_matching(g, x); }', 'fn f(g: &DefaultGraph, x: &mut Pairing) { maximum_matching(g, x); }'))
EXPECTED = {'E0502', 'E0505', 'E0506', 'E0499', 'E0597', 'E0515', 'E0716', 'E0713', 'E0596', 'E0308'}

SHARED = [
    ('graph/share', None, 'fn s<T: Sync + Send>() { } fn f() { s::<DefaultGraph>(); }'),
    ('traversals/share', None, 'fn f(x: &DefaultGraph) { std::thread::scope(|s| { s.spawn(move || { keep(DepthFirst::new(x, 0)); keep(BreadthFirst::new(x, 0)); keep(components(x)); keep(greedy(x)); '
     'keep(x.order()); keep(x.has_edge(0, 1)); let mut p = Pairing::new(); maximum_matching(x, &mut p); }); s.spawn(move || keep(x == x)); }); }'),
    ('queries/shared', None, 'fn f(x: &DefaultGraph) { x.is_empty(); x.order(); x.size(); x.nodes(); x.edges(); x.neighbors(0); x.has_node(0); x.degree(0); x.has_edge(0, 1); x == x; }'),
    ('pairs/shared', None, 'fn f(x: &Pairing) { x.order(); x.edges(); x.has_node(0); x.mate(0); x == x; }'),
    ('any-graph', None, 'fn f<G: Graph>(x: &G) { keep(DepthFirst::new(x, 0)); keep(BreadthFirst::new(x, 0)); keep(components(x)); keep(greedy(x)); let mut p = Pairing::new(); maximum_matching(x, &mut p); }'),
]


def witnesses(cx, ws, tag):
    libs = glob.glob(os.path.join(cx.work, 'target', '**', 'libgamma-*.rmeta'), recursive=True)
    if not libs:
        cx.put(tag, 'undecided', 'no metadata of the crate')
        return
    cx.fn = 'crate gamma'

    def compiles(src, tag):
        d = os.path.join(cx.work, 'w-' + re.sub(r'\W', '-', tag))
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, 'w.rs')
        with open(p, 'w') as f:
            f.write(HEAD + src + '\n')
        r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'w', '--emit=metadata', '--error-format=json', '--extern', 'gamma=' + libs[0],
                            '--out-dir', d, p], capture_output=True, text=True)
        codes, msgs = set(), []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                m = json.loads(l)
                if m.get('level') == 'error' and m.get('code'):
                    codes.add(m['code']['code'])
                    msgs.append(m['message'])
                elif m.get('level') == 'error' and not m['message'].startswith('aborting'):
                    codes.add('?')
                    msgs.append(m['message'])
        return r.returncode == 0, codes, msgs

    def one(w):
        name, bad, good = w
        g = compiles(good, name + '-good')
        b = compiles(bad, name + '-bad') if bad else None
        return name, w, g, b
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, ws))
    cx.extra = getattr(cx, 'extra', {})
    cx.extra['programs_checked'] = cx.extra.get('programs_checked', 0) + sum(1 + (b is not None) for _, _, _, b in res)
    for name, (_, bad, good), g, b in res:
        n = '%s/%s' % (tag, name)
        if b is None:
            if g[0]:
                cx.ob(n, True)
            elif g[1] and g[1] <= {'E0277', 'E0596', 'E0308'} | EXPECTED:
                cx.ob(n, False, detail='this no longer compiles: %s\n%s' % (good, '; '.join(g[2])))
            else:
                cx.put(n, 'undecided', 'does not compile: %s' % '; '.join(g[2]))
        elif not g[0]:
            cx.put(n, 'undecided', 'the twin does not compile: %s' % '; '.join(g[2]))
        elif b[0]:
            cx.ob(n, False, detail='this compiles: %s' % bad)
        elif b[1] & EXPECTED:
            cx.ob(n, True)
        else:
            cx.put(n, 'undecided', 'fails for another reason: %s' % '; '.join(b[2]))


# ---------------------------------------------------------------------- purity
DENY = ('std::io', 'std::env', 'std::time', 'std::thread', 'std::fs', 'std::net', 'std::process', 'std::os', 'std::sys', 'std::backtrace', 'std::random', 'core::arch', 'alloc::alloc', 'std::alloc', 'core::time::Instant')
VARIES = ('std::env', 'std::time', 'std::thread', 'std::random', 'core::time::Instant')      # of these, those that differ from run to run
OK = ('core::', 'alloc::', 'std::collections', 'std::panicking', 'std::hash', 'std::vec', 'std::string', 'std::sync', 'gamma::', 'hashbrown', 'std::f64', 'std::panic', 'std::rt', 'std::error')
EXPOSE = {'addr', 'expose_provenance', 'expose_addr', 'read_volatile', 'write_volatile', 'type_name', 'type_id', 'caller'}


def interior(dump, t, seen):
    """a cell somewhere in t"""
    n = last(t)
    if n and (n in CELLS or n.startswith('Atomic')) and not t['path'].startswith('gamma::'):
        return n
    if n and t['path'].startswith('gamma::'):
        if t['path'] in seen:
            return None
        seen.add(t['path'])
        a = next((a for a in dump['adts'] if a['path'] == t['path']), None)
        for v in a['variants'] if a else []:
            for f in v['fields']:
                r = interior(dump, f['ty'], seen)
                if r:
                    return r
    if t.get('k') == 'dyn' and not re.search(r'Iterator|Fn', t.get('s', '')):
        return None
    for x in list(t.get('args', []) or []) + list(t.get('ts', []) or []) + ([t['t']] if isinstance(t.get('t'), dict) else []):
        r = interior(dump, x, seen)
        if r:
            return r
    return None


def purity(cx):
    dump = cx.dump
    fns = {f['path']: f for f in dump['fns'] if f.get('body')}
    for a in dump['adts']:
        if a.get('local') and a['exported'] and a['path'].split('::')[-1] in ('DefaultGraph', 'Pairing'):
            cx.fn = a['path']
            for v in a['variants']:
                for f in v['fields']:
                    r = interior(dump, f['ty'], {a['path']})
                    cx.ob('reads/cells', not r, detail='the field %s can change behind a shared reference (%s)' % (f['name'], r))
            if not a['freeze']:
                cx.ob('reads/cells', False, detail='the type can change behind a shared reference')
    # what reading can reach
    roots = [f for f in exported_fns(dump) if f.get('body') and not changes(f)]
    seen, todo = {}, [(f['path'], None) for f in roots]
    while todo:
        p, by = todo.pop()
        if p in seen or p not in fns:
            continue
        seen[p] = by
        for q in refs(fns[p]):
            todo.append((q, p))
        # implementations of the crate's own trait
        todo.extend((q, p) for q in fns if q.startswith(p + '::{closure'))
    cx.extra = getattr(cx, 'extra', {})
    cx.extra['functions_reached_by_reading'] = len(seen)
    statics = {it['path']: it for it in dump['items'] if it['kind'].startswith('Static')}
    for p, it in statics.items():
        cx.fn = p
        r = interior(dump, it['ty'], set()) if it.get('ty') else None
        cx.ob('reads/statics', not it.get('mut') and not r, detail='a global that can change (%s)' % (r or 'mut'))
    calls = 0
    for p in sorted(seen):
        f = fns[p]
        if (f.get('trait') or '').endswith('fmt::Debug'):
            continue
        cx.fn = p
        for bl in f['body']['blocks']:
            if bl['cleanup']:
                continue
            for s in bl['stmts']:
                if s['k'] == 'assign' and s['r']['k'] == 'cast':
                    c = s['r']
                    if 'Expose' in c['ck'] or 'Address' in c['ck'] or c['ck'] == 'Transmute' and c['ty'].get('name') == 'usize':
                        cx.ob('reads/varies', False, detail='an address is used as a number in %s' % p)
                    src = place_ty(f, c['o'], dump)
                    if c['ty'].get('k') == 'ptr' and c['ty'].get('mut') and src is not None and src.get('k') in ('ref', 'ptr') and not src.get('mut'):
                        cx.ob('reads/writes', False, detail='a shared reference is turned into a mutable pointer in %s (%s)' % (p, s.get('span', '')))
                    if c['ck'] == 'Transmute' and c['ty'].get('k') == 'ref' and c['ty'].get('mut'):
                        cx.ob('reads/writes', False, detail='a mutable reference is made out of something else in %s' % p)
            t = bl['term']
            if t['k'] == 'other' and 'InlineAsm' in t.get('s', ''):
                cx.ob('reads/inputs', False, detail='assembly in %s' % p)
            if t['k'] != 'call' or t['f']['k'] != 'fn':
                continue
            fn = t['f']['fn']
            calls += 1
            name, path = fn['name'], fn['path']
            me = (fn.get('self') or {}).get('path', '')
            if path.startswith(DENY) or me.startswith(DENY) or name in EXPOSE and path.startswith(('core::', 'std::', 'alloc::')):
                varies = path.startswith(VARIES) or me.startswith(VARIES) or name in ('addr', 'expose_provenance', 'expose_addr')
                cx.ob('reads/varies' if varies else 'reads/inputs', False, detail='%s calls %s' % (p, path))
            elif me.endswith('RandomState') and name in ('build_hasher', 'hash_one') or path.endswith(('RandomState::build_hasher', 'RandomState::hash_one')):
                cx.ob('reads/varies', False, detail='%s hashes with a random seed (%s)' % (p, path))
            elif name in ('cast_mut', 'as_mut_unchecked', 'from_ref') and 'ptr' in path and name != 'from_ref':
                cx.ob('reads/writes', False, detail='a shared reference is turned into a mutable pointer in %s (%s)' % (p, path))
            elif not path.startswith(OK) and not path.startswith('<'):
                cx.put('reads/inputs', 'undecided', '%s calls %s' % (p, path))
        cx.ob('reads/function', True)
    cx.extra['calls_checked'] = calls
    witnesses(cx, SHARED, 'reads/share')


def changes(f):
    """is this one of the operations that change a graph or pairing"""
    if f['name'] in ('add_node', 'add_edge', 'pair', 'augment') and not f.get('trait'):
        return True
    if f['name'] == 'try_from' and f['inputs'] and last(f['inputs'][0]) == 'Vec':
        return True
    return False


def refs(f):
    for bl in f['body']['blocks']:
        if bl['cleanup']:
            continue
        t = bl['term']
        if t['k'] == 'call' and t['f']['k'] == 'fn':
            fn = t['f']['fn']
            if fn.get('resolved_local') and fn.get('resolved'):
                yield fn['resolved']
            yield fn['path']
        for o in (t.get('args') or []):
            ty = o.get('ty') or {}
            if ty.get('k') in ('fndef', 'closure'):
                yield ty['path']
        for s in bl['stmts']:
            if s['k'] == 'assign' and s['r']['k'] == 'agg' and s['r']['ak'] == 'closure':
                yield s['r']['path']


def place_ty(f, o, dump):
    if o['k'] not in ('copy', 'move'):
        return o.get('ty')
    l, proj = o['p']
    if proj:
        return None
    return f['body']['locals'][l]['ty']
