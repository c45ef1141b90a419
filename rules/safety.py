"""Obligations on memory safety: what the compiler does not check is shown to be
in range on every path, and there is nothing else of the kind."""
from engine.harness import Cx, tainted
from engine.stdmodel import UNCHECKED
from .surface import last, CELLS

COUNTED = {'Rc', 'Weak', 'NonNull'}


def operations(dump):
    """everything the compiler takes on trust: (function, span, what, name of an unchecked access)"""
    for f in dump['fns']:
        if not f.get('body'):
            continue
        p, b = f['path'], f['body']
        # the compiler's own way into a box
        boxes = {s['p'][0] for bl in b['blocks'] for s in bl['stmts'] if s['k'] == 'assign' and not s['p'][1] and s['r']['k'] == 'cast' and (s['r']['ck'].startswith('BoxDeref') or s['r']['ck'].startswith('Transmute') and s['r']['o']['k'] in ('copy', 'move') and s['r']['o']['p'][1] and last(b['locals'][s['r']['o']['p'][0]]['ty']) == 'Box')}
        for bl in b['blocks']:
            for s in bl['stmts']:
                sp = s.get('span', '')
                if s['k'] != 'assign' or s.get('ext'):
                    # (what a macro of the standard library expands to is not for us to judge)
                    continue
                r = s['r']
                inbox = r['k'] == 'cast' and r['o']['k'] in ('copy', 'move') and r['o']['p'][1] and last(b['locals'][r['o']['p'][0]]['ty']) == 'Box' and r['ty'].get('k') == 'ptr'
                if r['k'] == 'cast' and r['ck'].startswith('Transmute') and not inbox:
                    yield p, sp, 'a value is taken for one of another type', None
                for pl in [s['p']] + ([r['p']] if 'p' in r else []) + [o['p'] for o in [r.get('o'), r.get('a'), r.get('b')] + list(r.get('ops') or []) if isinstance(o, dict) and o.get('k') in ('copy', 'move')]:
                    if pl[1] and pl[1][0][0] == 'deref' and pl[0] not in boxes and b['locals'][pl[0]]['ty'].get('k') == 'ptr' and r['k'] != 'rawptr':
                        yield p, sp, 'a raw pointer is followed', None
            t = bl['term']
            if t['k'] == 'call' and t['f']['k'] == 'fn' and t['f']['fn'].get('unsafe') and not t.get('ext'):
                fn = t['f']['fn']
                known = fn['name'] in UNCHECKED and fn.get('crate') in ('core', 'alloc', 'std')
                yield p, t.get('span', ''), 'calls %s' % fn['path'], fn['name'] if known else None
            if t['k'] == 'other' and 'InlineAsm' in t.get('s', ''):
                yield p, t.get('span', ''), 'assembly', None


def trusts(dump, t, seen):
    """something in t that is not to be shared or sent"""
    n = last(t)
    if t.get('k') == 'ptr':
        return 'a raw pointer'
    if n and t.get('k') == 'adt' and (n in CELLS - {'Mutex', 'RwLock', 'OnceLock', 'LazyLock', 'Once', 'Condvar'} or n in COUNTED):
        return n
    a = next((a for a in dump['adts'] if a['path'] == t.get('path') and a.get('local')), None)
    if a:
        if a['path'] in seen:
            return None
        for v in a['variants']:
            for f in v['fields']:
                r = trusts(dump, f['ty'], seen | {a['path']})
                if r:
                    return r
    for x in list(t.get('args', []) or []) + list(t.get('ts', []) or []) + ([t['t']] if isinstance(t.get('t'), dict) else []):
        r = trusts(dump, x, seen)
        if r:
            return r
    return None


def safety(cx):
    dump = cx.dump
    cx.extra = getattr(cx, 'extra', {})
    ops = sorted(set(operations(dump)), key=str)
    used = {p for p, _, _, _ in ops}
    calls = 0
    for f in dump['fns']:
        if not f.get('body'):
            continue
        calls += sum(1 for bl in f['body']['blocks'] if bl['term']['k'] == 'call')
        cx.fn = f['path']
        if f['path'] not in used:
            cx.put('unsafe/operations', 'ok')
    cx.extra['calls_checked'] = calls
    cx.extra['unchecked_operations'] = ['%s: %s (%s)' % (p, w, s) for p, s, w, _ in ops]
    for it in dump['items']:
        if 'Impl' in it['kind'] and (it.get('trait') or '').split('::')[-1] in ('Send', 'Sync'):
            cx.fn = it['path']
            r = trusts(dump, it['self'], frozenset())
            cx.ob('unsafe/shared', not r, detail='%s is declared for a type that holds %s' % (it['trait'].split('::')[-1], r))
    seen = None
    for p, span, what, name in ops:
        cx.fn = p
        if name is None:
            cx.ob('unsafe/operations', False, detail='%s, which nothing checks (%s)' % (what, span))
            continue
        if seen is None:
            seen = analysed(cx)
        bad = [x for x in seen[1] if x[3][1] == span]
        cx.fn = p
        if bad:
            for q, e, s, v in bad[:3]:
                far = any(w in q for w in ('maximum_matching', 'blossom', 'forest')) or any(t[0] in ('phi', 'fold') for f, _ in s.path for t in sub(f))
                if far or tainted(e, s, []):
                    cx.put('unsafe/operations', 'undecided', '%s without a check (%s), perhaps where it must not' % (what, span), s)
                else:
                    cx.ob('unsafe/operations', False, e, s, [], '%s without a check (%s): out of range, or without a value' % (what, span))
        elif span in seen[0]:
            cx.put('unsafe/operations', 'ok')
        else:
            cx.put('unsafe/operations', 'undecided', '%s (%s), in a function that is not followed' % (what, span))


def sub(f):
    from engine import terms as T
    return T.subterms(f)


def analysed(cx):
    from . import RULES
    groups = {}
    for pid, r in RULES.items():
        for n, g in r[0]:
            if n not in ('surface', 'reads', 'labels', 'stack', 'order', 'unsafe'):
                groups[n] = g
    seen, bad = set(), []
    for n, g in sorted(groups.items()):
        c = Cx(cx.dump)
        c.group(n, g)
        cx.paths += c.paths
        bad.extend(c.unchecked)
        for e in c.engines:
            seen |= e.unsafe_seen
    return seen, bad
