"""Summaries of the standard-library functions that library code uses or may
be rewritten to use.  Each takes the abstract state and returns outcomes
('ret', state, value), ('panic', state, info) or ('skip', state, cell)."""
import re
from .terms import *

PANICS = {'panic_fmt', 'begin_panic', 'panic', 'panic_display', 'panic_explicit', 'unreachable_display',
          'assert_failed', 'unwrap_failed', 'expect_failed', 'panic_str_2015', 'panic_const', 'unreachable_unchecked',
          'panic_nounwind', 'assert_failed_inner', 'panic_any', 'abort', 'exit'}
IDENT = {'clone', 'cloned', 'copied', 'to_owned', 'into', 'as_ref', 'borrow', 'deref', 'to_vec', 'as_slice', 'by_ref',
         'into_boxed_slice', 'into_vec', 'as_deref', 'fuse', 'peekable', 'iter', 'into_iter', 'from', 'inspect_',
         'into_inner', 'unwrap_unchecked_', 'as_mut_slice', 'deref_mut', 'as_mut', 'borrow_mut', 'from_iter_', 'black_box',
         'identity', 'try_into_', 'as_slices_', 'make_contiguous_', 'into_keys_', 'must_use', 'pin', 'must_not', 'drop_'}


def owner_name(path):
    p = path
    # drop generic arguments
    out, depth = '', 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            if p.startswith('<impl ', i):
                j, d = i, 0
                while True:
                    if p[j] == '<':
                        d += 1
                    elif p[j] == '>' and p[j - 1] != '-':
                        d -= 1
                        if d == 0:
                            break
                    j += 1
                inner = p[i + 6:j]
                if inner.startswith('['):
                    inner = 'slice'
                m = re.search(r' for (.*)$', inner)
                inner = (m.group(1) if m else inner).split('::')[-1].split('<')[0]
                out += inner
                i = j + 1
                continue
            depth += 1
        elif c == '>' and p[i - 1] != '-':
            depth -= 1
        elif depth == 0:
            out += c
        i += 1
    parts = [x for x in out.split('::') if x]
    return (parts[-2] if len(parts) > 1 else ''), parts[-1]


def ret(s, v):
    return ('ret', s, v)


LISTY = ('Vec', 'VecDeque', 'slice', 'array', 'LinkedList')
SETY = ('HashSet', 'BTreeSet')
MAPY = ('HashMap', 'BTreeMap')


def variants(eng, st, v, nm='Option'):
    """split on the variant of an option-like value: (state, variant, fields)"""
    out = []
    for s, x in eng.deref(st, v):
        if x[0] == 'agg':
            out.append((s, x[2], x[3]))
        else:
            for s2, w in eng.branch(s, isvar(x, nm, 1)):
                if nm == 'Option':
                    out.append((s2, 1, (vfld(x, 1, 0),)) if w else (s2, 0, ()))
                else:
                    out.append((s2, 1, (vfld(x, 1, 0),)) if w else (s2, 0, (vfld(x, 0, 0),)))
    return out


# --------------------------------------------------------------- iterators
def lazy(base):
    """items that cannot be told without asking for each"""
    return base[0] == 'byref' or base[0] == 'agg' and base[1] in ('#successors', '#from_fn')


def as_it(eng, v):
    h = v[0]
    if h == 'it':
        return v
    if h == 'fmap':
        return ('it', v[1], (('cases', v[2], v[3]),))
    if h == 'agg' and v[1] == 'Option':
        return ('it', NIL if v[2] == 0 else one(v[3][0]), ())
    if eng.contract:
        c = eng.contract.iterable(v)
        if c is not None:
            return ('it', c, ())
    if h in ('nilset', 'ins', 'sext', 'srem', 'sret'):
        return ('it', ('unord', v, 'k'), ())
    if h in ('nilmap', 'mins', 'mext', 'mrem', 'mret'):
        return ('it', ('unord', v, 'kv'), ())
    return ('it', v, ())


def apply_ops(eng, st, item, ops, cs):
    """-> list of ('some'|'skip'|'panic', st, item)"""
    outs = [('some', st, item)]
    for n, op in enumerate(ops):
        nxt = []
        for k, s, x in outs:
            if k != 'some':
                nxt.append((k, s, x))
                continue
            if op[0] == 'cases':
                for conds, res in op[2]:
                    for s2 in eng.assume(s, [(subst(f, {op[1]: x}), v) for f, v in conds]):
                        if not res:
                            nxt.append(('skip', s2, None))
                        elif len(res) == 1 and res[0][0] != 'spread':
                            nxt.append(('some', s2, subst(res[0], {op[1]: x})))
                        else:
                            raise eng_unsupported('iteration over a list with several items per element')
                continue
            mode, clo = op[1], op[2]
            for o in eng.call(None, clo, (x,), s, eng.cs(cs, ('op', n)), ''):
                if o[0] != 'ret':
                    nxt.append(o)
                    continue
                s2, r = o[1], o[2]
                if mode == 'map':
                    nxt.append(('some', s2, r))
                elif mode == 'inspect':
                    nxt.append(('some', s2, x))
                elif mode == 'filter':
                    for s3, w in eng.branch(s2, r):
                        nxt.append(('some', s3, x) if w else ('skip', s3, None))
                elif mode == 'skip_while':
                    for s3, w in eng.branch(s2, r):
                        nxt.append(('skip', s3, None) if w else ('some', s3, x))
                elif mode == 'take_while':
                    for s3, w in eng.branch(s2, r):
                        nxt.append(('some', s3, x) if w else ('none', s3, None))
                elif mode == 'map_while':
                    for s3, i, f in variants(eng, s2, r):
                        nxt.append(('some', s3, f[0]) if i == 1 else ('none', s3, None))
                elif mode == 'filter_map':
                    for s3, i, f in variants(eng, s2, r):
                        nxt.append(('some', s3, f[0]) if i == 1 else ('skip', s3, None))
        outs = nxt
    return outs


def eng_unsupported(msg):
    from .interp import Unsupported
    return Unsupported(msg)


def it_ref(eng, st, a):
    """reference to the cell that holds the iterator"""
    for s, v in [(st, None)]:
        pass
    r = a
    while True:
        vs = eng.read_ref(st, r)
        if len(vs) != 1:
            break
        v = vs[0][1]
        if v[0] != 'ref':
            break
        r = v
    return r


def it_next(eng, st, r, cs, back=False):
    """advance the iterator in the cell r: ('none'|'some'|'skip'|'panic', st, item)"""
    r = it_ref(eng, st, r)
    out = []
    for s, v in eng.read_ref(st, r):
        it = as_it(eng, v)
        base, ops = it[1], it[2]
        if base[0] == 'byref':
            for k, s2, x in it_next(eng, s, base[1], eng.cs(cs, 'byref'), back):
                if k == 'some':
                    out.extend(passed(eng, r, apply_ops(eng, s2, x, ops, cs), base, ops, back))
                else:
                    out.append((k, s2, x))
            continue
        if lazy(base):
            if back:
                raise eng_unsupported('the last item of a generator')
            gen = base[1] == '#from_fn'
            nexts = eng.call(None, base[3][0], (), s, eng.cs(cs, 'gen'), '') if gen else [ret(s, base[3][0])]
            for o in nexts:
                if o[0] != 'ret':
                    out.append(o)
                    continue
                for s2, i, f in variants(eng, o[1], o[2]):
                    if i == 0:
                        out.append(('none', s2, None))
                    elif gen:
                        out.extend(passed(eng, r, apply_ops(eng, s2, f[0], ops, cs), base, ops, back))
                    else:
                        for o2 in eng.call(None, base[3][1], (f[0],), s2, eng.cs(cs, 'gen'), ''):
                            if o2[0] != 'ret':
                                out.append(o2)
                                continue
                            rest = ('agg', '#successors', 0, (o2[2], base[3][1]))
                            for s3 in eng.write_ref(o2[1], r, ('it', rest, ops)):
                                out.extend(passed(eng, r, apply_ops(eng, s3, f[0], ops, cs), rest, ops, back))
            continue
        for s2, e in eng.branch(s, isempty(base)):
            if e:
                out.append(('none', s2, None))
                continue
            n = length(base)
            idx = sub(n, I(1)) if back else I(0)
            rest = slice_(base, I(0), sub(n, I(1))) if back else slice_(base, I(1), n)
            for s3, x in eng.op_at(s2, base, idx):
                for s4 in eng.write_ref(s3, r, ('it', rest, ops)):
                    out.extend(passed(eng, r, apply_ops(eng, s4, x, ops, cs), rest, ops, back))
    return out


def passed(eng, r, outs, rest, ops, back):
    """an item got through a skip_while: no later one is tested"""
    ws = [op for op in ops if op[0] == 'clo' and op[1] in ('skip_while', 'take_while', 'map_while')]
    if ws and back:
        raise eng_unsupported('a conditional adapter taken from the back')
    ws = [op for op in ws if op[1] == 'skip_while']
    if not ws:
        return outs
    if len(ws) > 1 or ops[-1] is not ws[0]:
        raise eng_unsupported('an adapter after skip_while')
    out = []
    for k, s, x in outs:
        if k == 'some':
            out.extend((k, s2, x) for s2 in eng.write_ref(s, r, ('it', rest, ops[:-1])))
        else:
            out.append((k, s, x))
    return out


def vloop(eng, st, cs, it, body, tag, cells=None, ref=None):
    """loop over the items of it.  body(st, item) -> list of ('back'|'exit'|'panic', st, tag).
    Hidden cells: dict name -> initial value.  Returns outcomes with ('exit', st, tag)."""
    key = ('v', cs)
    st = st.copy()
    now = as_it(eng, it) if ref is None else st.mem.get(ref[1]) if not ref[2] else None
    if now is not None and now[0] == 'it' and many(now) is not None:
        return nested(eng, st, cs, now, body, tag, cells, ref)
    if ref is None:
        c = ('h', cs, 'it')
        st.mem[c] = as_it(eng, it)
        ref = ('ref', c, ())
    for k, v in (cells or {}).items():
        st.mem[('h', cs, k)] = v

    def runner(s):
        out = []
        for k, s2, x in it_next(eng, s, ref, cs):
            if k == 'none':
                out.append(('exit', s2, tag))
            elif k == 'skip':
                out.append(('back', s2, None))
            elif k == 'some':
                out.extend(body(s2, x))
            else:
                out.append((k, s2, x))
        return out
    outs = eng.loop(key, st, runner, None)
    return outs


def many(it):
    """the position of an adapter that makes several items of one"""
    for n, op in enumerate(it[2]):
        if op[0] == 'cases' and any(len(r) > 1 or r and r[0][0] == 'spread' for _, r in op[2]):
            return n
    if it[1][0] == 'fmap':
        return -1
    return None


def nested(eng, st, cs, it, body, tag, cells, ref):
    """a loop over a list of which every entry gives several items"""
    n = many(it)
    if n < 0:
        inner = as_it(eng, it[1])
        if many(inner) is None:
            return vloop(eng, st, cs, ('it', inner[1], inner[2] + it[2]), body, tag, cells)
        return nested(eng, st, cs, ('it', inner[1], inner[2] + it[2]), body, tag, cells, ref)
    op, post = it[2][n], it[2][n + 1:]

    def outer(s, x):
        res = []
        for conds, items in op[2]:
            for s2 in eng.assume(s, [(subst(f, {op[1]: x}), v) for f, v in conds]):
                l = mkL([i[1] if i[0] == 'spread' else ('one', i) for i in subst(items, {op[1]: x})])
                for k, s3, y in vloop(eng, s2, eng.cs(cs, 'inner'), ('it', l, post), body, ('inner',)):
                    res.append(('back', s3, None) if k == 'exit' and y == ('inner',) else (k, s3, y))
        return res
    outs = vloop(eng, st, cs, ('it', it[1], it[2][:n]), outer, tag, cells)
    if ref is not None:
        # what is left afterwards is not followed
        outs = [(k, s2, y) for k, s, y in outs for s2 in (eng.write_ref(s, ref, ('it', ('app', 'rest', (it[1],)), ())) if k != 'panic' else [s])]
    return outs


def flattened(eng, st, it, cs):
    """the items of the items of an iterator"""
    from .interp import islist
    acc = hcell(cs, 'acc')
    if it[1][0] == 'byref':
        raise eng_unsupported('flatten by reference')

    def body(s, x):
        res = []
        for s2, v in eng.deref(s, x):
            if v[0] == 'mgetopt':
                vs = [(s3, NIL if i == 0 else one(f[0])) for s3, i, f in variants(eng, s2, v)]
            elif v[0] == 'agg' and v[1] in ('Option', 'Result'):
                vs = [(s2, one(v[3][0]) if v[2] == (1 if v[1] == 'Option' else 0) else NIL)]
            elif v[0] in ('it', 'range', 'nilset', 'ins', 'sext', 'srem') or islist(v):
                vs = []
                for o in ensure_list(eng, s2, v, eng.cs(cs, 'item')):
                    if o[0] == 'ret':
                        vs.append((o[1], o[2]))
                    else:
                        res.append(o)
            else:
                raise eng_unsupported('flatten of %s' % v[0])
            for s3, l in vs:
                s3 = s3.copy()
                s3.mem[acc] = cat(s3.mem[acc], l)
                res.append(('back', s3, None))
        return res
    out = []
    for k, s, x in vloop(eng, st, cs, it, body, 'done', {'acc': NIL}):
        if k != 'exit':
            out.append((k, s, x))
            continue
        if any(s.mem.get(c) != v for c, v in st.mem.items() if c[0] != 'h'):
            raise eng_unsupported('flatten with effects')
        out.append(ret(s, ('it', s.mem[acc], ())))
    return out


def hcell(cs, k):
    return ('h', cs, k)


def collect_into(eng, st, cs, it, kind, init):
    """list of ('ret', st, container)"""
    it = as_it(eng, it)
    if not it[2] and not lazy(it[1]):
        b = it[1]
        if kind == 'list':
            return [ret(st, cat(init, b))]
        if kind == 'set' and b[0] != 'unord':
            return [ret(st, sext(init, b))]
    acc = hcell(cs, 'acc')

    def body(s, x):
        s = s.copy()
        if kind == 'list':
            s.mem[acc] = push(s.mem[acc], x)
        elif kind == 'set':
            s.mem[acc] = ins(s.mem[acc], x)
        else:
            s.mem[acc] = mins(s.mem[acc], fld(x, 0), fld(x, 1))
        return [('back', s, None)]
    out = []
    for o in vloop(eng, st, cs, it, body, 'done', {'acc': init}):
        if o[0] == 'exit':
            out.append(ret(o[1], o[1].mem[acc]))
        else:
            out.append(o)
    return out


def kind_of_type(t):
    p = (t or {}).get('path', '')
    n = p.split('::')[-1]
    if n in SETY:
        return 'set', EMPTYSET
    if n in MAPY:
        return 'map', EMPTYMAP
    if n in ('Vec', 'VecDeque', 'Box', 'LinkedList'):
        return 'list', NIL
    return None, None


def ensure_list(eng, st, it, cs):
    """a list term for all items of an iterator: outcomes"""
    it = as_it(eng, it)
    if not it[2] and not lazy(it[1]):
        return [ret(st, it[1])]
    return collect_into(eng, st, cs, it, 'list', NIL)


def iter_method(eng, name, args, st, cs, callee, span):
    a0 = args[0] if args else None
    out = []

    def itval(s, v):
        # an iterator taken by value (or a mutable reference to one)
        if v[0] == 'ref':
            return ('it', ('byref', v), ())
        return as_it(eng, v)
    if name in ('into_iter', 'iter', 'by_ref', 'cloned', 'copied', 'fuse', 'peekable', 'into_keys_', 'drain_all'):
        if a0[0] == 'ref':
            if name == 'into_iter':
                vs = eng.deref(st, a0)
                res = []
                for s, v in vs:
                    if v[0] == 'it' or (eng.contract and eng.contract.iterable(v) is not None):
                        res.append(ret(s, a0))
                    else:
                        # mutable iteration over a collection
                        r = it_ref(eng, s, a0)
                        if v[0] in ('nilmap', 'mins', 'mext', 'mrem', 'mret') or _maplike(v):
                            raise eng_unsupported('mutable iteration over a map')
                        if v[0] == 'L' and all(x[0] == 'one' and x[1][0] == 'ref' for x in v[1]):
                            res.append(ret(s, ('it', mkL([('one', ('ref', r[1], tuple(r[2]) + (('idx', I(i)),))) for i in range(len(v[1]))]), ())))
                        else:
                            res.append(ret(s, ('it', ('refs', r[1], r[2], v), ())))
                return res
            if name in ('by_ref',):
                return [ret(st, a0)]
            return [ret(st, ('it', ('byref', a0), ()))]
        return [ret(st, as_it(eng, a0))]
    if name in ('next', 'next_back', 'pop_item'):
        for k, s, x in it_next(eng, st, a0, cs, back=(name == 'next_back')):
            if k == 'none':
                out.append(ret(s, NONE))
            elif k == 'some':
                out.append(ret(s, some(x)))
            elif k == 'skip':
                out.append(('skip', s, it_ref(eng, st, a0)[1]))
            else:
                out.append((k, s, x))
        return out
    if name in ('peek',):
        for s, v in eng.deref(st, a0):
            it = as_it(eng, v)
            if it[2]:
                raise eng_unsupported('peek through a lazy adapter')
            for s2, e in eng.branch(s, isempty(it[1])):
                if e:
                    out.append(ret(s2, NONE))
                else:
                    out.extend(ret(s3, some(x)) for s3, x in eng.op_at(s2, it[1], I(0)))
        return out
    if name == 'skip_while':
        it = itval(st, a0)
        if it[1][0] != 'byref':
            # the items from the first one that fails the test
            for o in ensure_list(eng, st, it, cs):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                l, clo, cnt = o[2], args[1], hcell(cs, 'cnt')

                def body(s, x):
                    res = []
                    for o2 in eng.call(None, clo, (x,), s, eng.cs(cs, 'body'), span):
                        if o2[0] != 'ret':
                            res.append(o2)
                            continue
                        for s3, w in eng.branch(o2[1], o2[2]):
                            s3 = s3.copy()
                            if w:
                                s3.mem[cnt] = add(s3.mem[cnt], I(1))
                            res.append(('back' if w else 'exit', s3, None))
                    return res
                for o2 in vloop(eng, o[1], cs, ('it', l, ()), body, 'done', {'cnt': I(0)}):
                    if o2[0] != 'exit':
                        out.append(o2)
                    elif o2[2] == 'done':
                        out.append(ret(o2[1], ('it', NIL, ())))
                    else:
                        out.append(ret(o2[1], ('it', slice_(l, o2[1].mem[cnt], length(l)), ())))
            return out
    if name in ('map', 'filter', 'filter_map', 'inspect', 'skip_while', 'take_while', 'map_while'):
        it = itval(st, a0)
        return [ret(st, ('it', it[1], it[2] + (('clo', name, args[1]),)))]
    if name == 'flatten' or name == 'flat_map':
        it = itval(st, a0)
        ops = it[2]
        if name == 'flat_map':
            ops = ops + (('clo', 'map', args[1]),)
        return flattened(eng, st, ('it', it[1], ops), cs)
    if name == 'enumerate':
        for o in ensure_list(eng, st, itval(st, a0), cs):
            out.append(ret(o[1], ('it', ('enum', o[2]), ())) if o[0] == 'ret' else o)
        return out
    if name == 'rev':
        it = itval(st, a0)
        if it[1][0] == 'byref':
            raise eng_unsupported('rev by reference')
        return [ret(st, ('it', rev(it[1]), it[2]))]
    if name == 'zip':
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] != 'ret':
                out.append(o)
                continue
            for o2 in ensure_list(eng, o[1], itval(o[1], args[1]), eng.cs(cs, 2)):
                if o2[0] != 'ret':
                    out.append(o2)
                    continue
                la, lb = length(o[2]), length(o2[2])
                if la == lb or lb == INF:
                    out.append(ret(o2[1], ('it', zip_(o[2], o2[2]), ())))
                elif la == INF:
                    out.append(ret(o2[1], ('it', zip_(slice_(o[2], I(0), lb), o2[2]), ())))
                else:
                    for s, w in eng.branch(o2[1], lt(la, lb)):
                        a, b = o[2], o2[2]
                        if w:
                            b = slice_(b, I(0), la)
                        else:
                            a = slice_(a, I(0), lb)
                        out.append(ret(s, ('it', zip_(a, b), ())))
        return out
    if name == 'chain':
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] != 'ret':
                out.append(o)
                continue
            for o2 in ensure_list(eng, o[1], itval(o[1], args[1]), eng.cs(cs, 2)):
                out.append(ret(o2[1], ('it', cat(o[2], o2[2]), ())) if o2[0] == 'ret' else o2)
        return out
    if name in ('skip', 'take'):
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] != 'ret':
                out.append(o)
                continue
            l, n = o[2], length(o[2])
            for s, w in eng.branch(o[1], lt(n, args[1])):
                if name == 'skip':
                    out.append(ret(s, ('it', NIL if w else slice_(l, args[1], n), ())))
                else:
                    out.append(ret(s, ('it', l if w else slice_(l, I(0), args[1]), ())))
        return out
    if name == 'step_by':
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] == 'ret' and args[1][0] == 'i':
                out.append(ret(o[1], ('it', ('stepby', o[2], args[1][1]), ())))
            else:
                out.append(o)
        return out
    if name in ('collect', 'from_iter'):
        it = itval(st, a0)
        t = None
        for x in reversed(callee.get('targs', [])):
            if x.get('k') == 'adt':
                t = x
                break
        if name == 'from_iter':
            t = callee.get('self') or t
        elif len(callee.get('targs', [])) > 1:
            t = callee['targs'][1]
        nm = (t or {}).get('path', '').split('::')[-1]
        if nm in ('Result', 'Option'):
            kind, init = kind_of_type(t['args'][0])
            if kind is None:
                return None
            acc = hcell(cs, 'acc')

            def body(s, x):
                res = []
                for s2, i, f in variants(eng, s, x, nm):
                    good = (i == 0) if nm == 'Result' else (i == 1)
                    s2 = s2.copy()
                    if good:
                        y = f[0]
                        s2.mem[acc] = push(s2.mem[acc], y) if kind == 'list' else ins(s2.mem[acc], y) if kind == 'set' else mins(s2.mem[acc], fld(y, 0), fld(y, 1))
                        res.append(('back', s2, None))
                    else:
                        res.append(('exit', s2, ('agg', nm, i, f)))
                return res
            for o in vloop(eng, st, cs, it, body, 'done', {'acc': init}):
                if o[0] == 'exit' and o[2] == 'done':
                    v = o[1].mem[acc]
                    out.append(ret(o[1], ok(v) if nm == 'Result' else some(v)))
                elif o[0] == 'exit':
                    out.append(ret(o[1], o[2]))
                else:
                    out.append(o)
            return out
        kind, init = kind_of_type(t)
        if kind is None:
            return None
        return collect_into(eng, st, cs, it, kind, init)
    if name in ('for_each', 'try_for_each', 'any', 'all', 'find', 'position', 'find_map', 'fold', 'try_fold', 'rposition'):
        byref = name in ('any', 'all', 'find', 'position', 'find_map', 'try_for_each', 'try_fold')
        ref, it = None, None
        if a0[0] == 'ref':
            ref = it_ref(eng, st, a0)
            vs = eng.read_ref(st, ref)
            if len(vs) == 1 and vs[0][1][0] != 'it':
                st = eng.write_ref(vs[0][0], ref, as_it(eng, vs[0][1]))[0]
        else:
            it = as_it(eng, a0)
        if name == 'rposition':
            if (it or as_it(eng, eng.read_ref(st, ref)[0][1]))[2]:
                raise eng_unsupported('rposition through a lazy adapter')
            l = (it or as_it(eng, eng.read_ref(st, ref)[0][1]))[1]
            for o in iter_method(eng, 'position', (('it', rev(l), ()),) + tuple(args[1:]), st, cs, callee, span):
                if o[0] == 'ret' and o[2] != NONE:
                    o = ret(o[1], some(sub(sub(length(l), I(1)), o[2][3][0])))
                out.append(o)
            return out
        cells = {}
        clo = args[-1]
        ccell = hcell(cs, 'clo')
        acc = hcell(cs, 'acc')
        cnt = hcell(cs, 'cnt')
        if name in ('fold', 'try_fold'):
            cells['acc'] = args[1]
        if name == 'position':
            cells['cnt'] = I(0)

        def body(s, x):
            res = []
            cargs = (s.mem[acc], x) if name in ('fold', 'try_fold') else (x,)
            for o in eng.call(None, clo, cargs, s, eng.cs(cs, 'body'), span):
                if o[0] != 'ret':
                    res.append(o)
                    continue
                s2, r = o[1], o[2]
                if name == 'for_each':
                    res.append(('back', s2, None))
                elif name == 'fold':
                    s2 = s2.copy()
                    s2.mem[acc] = r
                    res.append(('back', s2, None))
                elif name in ('any', 'all', 'find', 'position'):
                    for s3, w in eng.branch(s2, r):
                        hit = (not w) if name == 'all' else w
                        if hit:
                            v = {'any': TRUE, 'all': FALSE, 'find': some(x), 'position': None}[name]
                            if name == 'position':
                                v = some(s3.mem[cnt])
                            res.append(('exit', s3, v))
                        else:
                            if name == 'position':
                                s3 = s3.copy()
                                s3.mem[cnt] = add(s3.mem[cnt], I(1))
                            res.append(('back', s3, None))
                elif name == 'find_map':
                    for s3, i, f in variants(eng, s2, r):
                        res.append(('exit', s3, some(f[0])) if i == 1 else ('back', s3, None))
                elif name in ('try_for_each', 'try_fold'):
                    for s3, i, f in variants(eng, s2, r, r[1] if r[0] == 'agg' else 'Result'):
                        nm = r[1] if r[0] == 'agg' else 'Result'
                        good = (i == 1) if nm == 'Option' else (i == 0)
                        if good:
                            if name == 'try_fold':
                                s3 = s3.copy()
                                s3.mem[acc] = f[0]
                            s3 = s3.copy()
                            s3.mem[hcell(cs, 'nm')] = ('agg', nm, 0, ())
                            res.append(('back', s3, None))
                        else:
                            res.append(('exit', s3, ('agg', nm, i, f)))
            return res
        if name in ('try_for_each', 'try_fold'):
            t = callee['targs'][-1] if callee.get('targs') else {}
            nm0 = t.get('path', 'core::result::Result').split('::')[-1]
        for o in vloop(eng, st, cs, it, body, 'done', cells, ref):
            if o[0] != 'exit':
                out.append(o)
                continue
            s = o[1]
            if o[2] != 'done':
                out.append(ret(s, o[2]))
                continue
            if name == 'for_each':
                v = UNIT
            elif name == 'fold':
                v = s.mem[acc]
            elif name == 'any':
                v = FALSE
            elif name == 'all':
                v = TRUE
            elif name in ('find', 'position', 'find_map'):
                v = NONE
            else:
                x = s.mem[acc] if name == 'try_fold' else UNIT
                v = some(x) if nm0 == 'Option' else ('agg', nm0, 0, (x,))
            out.append(ret(s, v))
        return out
    if name in ('count', 'len'):
        for s, v in eng.deref(st, a0):
            for o in ensure_list(eng, s, v, cs):
                out.append(ret(o[1], length(o[2])) if o[0] == 'ret' else o)
        return out
    if name == 'last':
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] != 'ret':
                out.append(o)
                continue
            for s, e in eng.branch(o[1], isempty(o[2])):
                if e:
                    out.append(ret(s, NONE))
                else:
                    out.extend(ret(s2, some(x)) for s2, x in eng.op_at(s, o[2], sub(length(o[2]), I(1))))
        return out
    if name == 'nth':
        r = it_ref(eng, st, a0)
        for s, v in eng.read_ref(st, r):
            it = as_it(eng, v)
            if it[2] or lazy(it[1]):
                raise eng_unsupported('nth through a lazy adapter')
            n = length(it[1])
            for s2, w in eng.branch(s, lt(args[1], n)):
                if not w:
                    for s3 in eng.write_ref(s2, r, ('it', NIL, ())):
                        out.append(ret(s3, NONE))
                    continue
                for s3, x in eng.op_at(s2, it[1], args[1]):
                    for s4 in eng.write_ref(s3, r, ('it', slice_(it[1], add(args[1], I(1)), n), ())):
                        out.append(ret(s4, some(x)))
        return out
    if name in ('sum', 'product', 'min', 'max', 'min_by_key', 'max_by_key', 'min_by', 'max_by', 'eq', 'ne', 'lt', 'cmp', 'is_sorted',
                'scan', 'cycle', 'size_hint', 'partition', 'unzip', 'reduce'):
        vs = []
        for o in ensure_list(eng, st, itval(st, a0), cs):
            if o[0] != 'ret':
                out.append(o)
                continue
            l = o[2]
            v = None
            if name == 'sum':
                v = sum_of(l)
            if v is None and name in ('sum', 'product', 'min', 'max', 'cycle'):
                v = ('fn', name, (l,) + tuple(args[1:]))
            elif v is None:
                v = ('app', 'Iterator::' + name, (l,) + tuple(args[1:]))
                eng.unmodelled.add('Iterator::' + name)
            if name in ('scan', 'cycle'):
                v = ('it', v, ())
            out.append(ret(o[1], v))
        return out
    return None


def sum_of(l):
    t = I(0)
    for x in segs(l):
        if x[0] == 'one':
            t = add(t, x[1])
        elif x[0] == 'fmap' and all(i == I(1) for _, r in x[3] for i in r):
            t = add(t, length(x))
        else:
            return None
    return t


def zip_(a, b):
    return ('zip', a, b)


def _maplike(v):
    return v[0] in ('gidx',)


def range_of(eng, v, n):
    """(lo, hi) of a range value applied to a sequence of length n"""
    if v[0] == 'range':
        return v[1], (n if v[2] == INF else v[2])
    if v[0] == 'agg':
        if v[1] == 'RangeTo':
            return I(0), v[3][0]
        if v[1] == 'RangeToInclusive':
            return I(0), add(v[3][0], I(1))
        if v[1] == 'RangeFull':
            return I(0), n
        if v[1] == 'RangeFrom':
            return v[3][0], n
        if v[1] == 'Range':
            return v[3][0], v[3][1]
    if v[0] == 'const' and 'RangeFull' in str(v):
        return I(0), n
    return None


def isrange(v):
    return v[0] == 'range' or (v[0] == 'agg' and v[1].startswith('Range')) or (v[0] == 'const' and 'RangeFull' in str(v))


UNCHECKED = {'get_unchecked', 'get_unchecked_mut', 'unwrap_unchecked', 'unreachable_unchecked', 'unchecked_add', 'unchecked_sub', 'unchecked_mul'}


def pinfo(eng, kind, span):
    if eng.unsafe_op:
        kind = 'unchecked:' + kind
    return (kind, span, eng.stack[-1] if eng.stack else '')


def index(eng, st, l, i, span, out):
    """list indexing with its panic: yields (st, term, lo/hi) through callbacks"""
    n = length(l)
    if isrange(i):
        lo, hi = range_of(eng, i, n)
        for s, w in eng.branch(st, f_and(le(lo, hi), le(hi, n))):
            if w:
                yield s, ('sl', lo, hi)
            else:
                out.append(('panic', s, pinfo(eng, 'slice', span)))
        return
    for s, w in eng.branch(st, lt(i, n)):
        if w:
            yield s, ('idx', i)
        else:
            out.append(('panic', s, pinfo(eng, 'bounds', span)))


def list_method(eng, name, args, st, cs, callee, span):
    a0 = args[0]
    out = []

    def both():
        for s, l in eng.deref(st, a0):
            yield s, l

    def setl(s, l, v):
        for s2 in eng.write_ref(s, a0, l):
            out.append(ret(s2, v))
    if name in ('push', 'push_back'):
        for s, l in both():
            setl(s, push(l, args[1]), UNIT)
        return out
    if name == 'push_front':
        for s, l in both():
            setl(s, cat(one(args[1]), l), UNIT)
        return out
    if name in ('pop', 'pop_back', 'pop_front'):
        for s, l in both():
            n = length(l)
            for s2, e in eng.branch(s, isempty(l)):
                if e:
                    out.append(ret(s2, NONE))
                    continue
                if name == 'pop_front':
                    i, r = I(0), slice_(l, I(1), n)
                else:
                    i, r = sub(n, I(1)), slice_(l, I(0), sub(n, I(1)))
                for s3, x in eng.op_at(s2, l, i):
                    setl(s3, r, some(x))
        return out
    if name == 'len':
        return [ret(s, length(l)) for s, l in both()]
    if name == 'is_empty':
        return [ret(s, isempty(l)) for s, l in both()]
    if name == 'contains':
        return [ret(s2, has(l, x)) for s, l in both() for s2, x in eng.deref(s, args[1])]
    if name in ('first', 'last', 'front', 'back'):
        for s, l in both():
            for s2, e in eng.branch(s, isempty(l)):
                if e:
                    out.append(ret(s2, NONE))
                else:
                    i = I(0) if name in ('first', 'front') else sub(length(l), I(1))
                    out.extend(ret(s3, some(x)) for s3, x in eng.op_at(s2, l, i))
        return out
    if name in ('last_mut', 'first_mut', 'back_mut', 'front_mut'):
        for s, l in both():
            for s2, e in eng.branch(s, isempty(l)):
                if e:
                    out.append(ret(s2, NONE))
                else:
                    i = I(0) if name in ('first_mut', 'front_mut') else sub(length(l), I(1))
                    out.append(ret(s2, some(('ref', a0[1], a0[2] + (('idx', i),)))))
        return out
    if name in ('get', 'get_mut'):
        for s, l in both():
            n = length(l)
            if isrange(args[1]):
                lo, hi = range_of(eng, args[1], n)
                for s2, w in eng.branch(s, f_and(le(lo, hi), le(hi, n))):
                    out.append(ret(s2, some(slice_(l, lo, hi)) if w else NONE))
                continue
            for s2, w in eng.branch(s, lt(args[1], n)):
                if not w:
                    out.append(ret(s2, NONE))
                elif name == 'get_mut':
                    out.append(ret(s2, some(('ref', a0[1], a0[2] + (('idx', args[1]),)))))
                else:
                    out.extend(ret(s3, some(x)) for s3, x in eng.op_at(s2, l, args[1]))
        return out
    if name == 'iter':
        return [ret(s, as_it(eng, l)) for s, l in both()]
    if name == 'iter_mut':
        return iter_method(eng, 'into_iter', args, st, cs, callee, span)
    if name == 'reverse':
        for s, l in both():
            setl(s, rev(l), UNIT)
        return out
    if name == 'append':
        for s, l in both():
            for s2, m in eng.deref(s, args[1]):
                for s3 in eng.write_ref(s2, args[1], NIL):
                    setl(s3, cat(l, m), UNIT)
        return out
    if name in ('extend', 'extend_from_slice'):
        for s, l in both():
            src = args[1]
            if src[0] == 'ref':
                src = ('it', ('byref', src), ())
            for o in collect_into(eng, s, cs, src, 'list', l):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                # the list may itself be changed by the iteration: not possible
                setl(o[1], o[2], UNIT)
        return out
    if name == 'clear':
        for s, l in both():
            setl(s, NIL, UNIT)
        return out
    if name == 'truncate':
        for s, l in both():
            for s2, w in eng.branch(s, lt(args[1], length(l))):
                setl(s2, slice_(l, I(0), args[1]) if w else l, UNIT)
        return out
    if name in ('resize', 'resize_with'):
        for s, l in both():
            for s2, w in eng.branch(s, lt(args[1], length(l))):
                if w:
                    setl(s2, slice_(l, I(0), args[1]), UNIT)
                    continue
                n = sub(args[1], length(l))
                if name == 'resize':
                    setl(s2, cat(l, lst(*([args[2]] * n[1])) if n[0] == 'i' and n[1] < 9 else ('repeat', args[2], n)), UNIT)
                    continue
                if n[0] != 'i' or n[1] > 4:
                    raise eng_unsupported('resize_with by an unknown amount')
                sts = [(s2, l)]
                for i in range(n[1]):
                    nxt = []
                    for s3, m in sts:
                        for o in eng.call(None, args[2], (), s3, eng.cs(cs, ('new', i)), span):
                            if o[0] == 'ret':
                                nxt.append((o[1], push(m, o[2])))
                            else:
                                out.append(o)
                    sts = nxt
                for s3, m in sts:
                    setl(s3, m, UNIT)
        return out
    if name in ('remove', 'swap_remove'):
        for s, l in both():
            n = length(l)
            vec = 'VecDeque' not in callee['path']
            for s2, w in eng.branch(s, lt(args[1], n)):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'bounds', span)) if vec else ret(s2, NONE))
                    continue
                i = args[1]
                for s3, x in eng.op_at(s2, l, i):
                    if name == 'remove':
                        setl(s3, cat(slice_(l, I(0), i), slice_(l, add(i, I(1)), n)), x if vec else some(x))
                    else:
                        for s4, w2 in eng.branch(s3, eq(add(i, I(1)), n)):
                            if w2:
                                setl(s4, slice_(l, I(0), sub(n, I(1))), x)
                            else:
                                setl(s4, slice_(upd(l, i, at(l, sub(n, I(1)))), I(0), sub(n, I(1))), x)
        return out
    if name == 'insert':
        for s, l in both():
            n = length(l)
            i = args[1]
            for s2, w in eng.branch(s, le(i, n)):
                if w:
                    setl(s2, cat(slice_(l, I(0), i), one(args[2]), slice_(l, i, n)), UNIT)
                else:
                    out.append(('panic', s2, pinfo(eng, 'bounds', span)))
        return out
    if name == 'swap':
        for s, l in both():
            n = length(l)
            for s2, w in eng.branch(s, f_and(lt(args[1], n), lt(args[2], n))):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'bounds', span)))
                    continue
                for s3, x in eng.op_at(s2, l, args[1]):
                    for s4, y in eng.op_at(s3, l, args[2]):
                        setl(s4, upd(upd(l, args[1], y), args[2], x), UNIT)
        return out
    if name in ('retain', 'retain_mut'):
        for s, l in both():
            for o in collect_into(eng, s, cs, ('it', l, (('clo', 'filter', args[1]),)) if l[0] != 'fmap' else
                                  ('it', l[1], (('cases', l[2], l[3]), ('clo', 'filter', args[1]))), 'list', NIL):
                if o[0] == 'ret':
                    setl(o[1], o[2], UNIT)
                else:
                    out.append(o)
        return out
    if name == 'drain':
        for s, l in both():
            n = length(l)
            lo, hi = range_of(eng, args[1], n)
            for s2, w in eng.branch(s, f_and(le(lo, hi), le(hi, n))):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'slice', span)))
                    continue
                setl(s2, cat(slice_(l, I(0), lo), slice_(l, hi, n)), ('it', slice_(l, lo, hi), ()))
        return out
    if name in ('split_at', 'split_off'):
        for s, l in both():
            n = length(l)
            for s2, w in eng.branch(s, le(args[1], n)):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'slice', span)))
                elif name == 'split_at':
                    out.append(ret(s2, tup(slice_(l, I(0), args[1]), slice_(l, args[1], n))))
                else:
                    setl(s2, slice_(l, I(0), args[1]), slice_(l, args[1], n))
        return out
    if name in ('split_first', 'split_last'):
        for s, l in both():
            n = length(l)
            for s2, e in eng.branch(s, isempty(l)):
                if e:
                    out.append(ret(s2, NONE))
                    continue
                i = I(0) if name == 'split_first' else sub(n, I(1))
                r = slice_(l, I(1), n) if name == 'split_first' else slice_(l, I(0), sub(n, I(1)))
                out.extend(ret(s3, some(tup(x, r))) for s3, x in eng.op_at(s2, l, i))
        return out
    if name in ('rotate_left', 'rotate_right'):
        for s, l in both():
            n = length(l)
            k = args[1]
            for s2, w in eng.branch(s, le(k, n)):
                if not w:
                    out.append(('panic', s2, pinfo(eng, 'rotate', span)))
                    continue
                if name == 'rotate_right':
                    k = sub(n, k)
                setl(s2, rotl(l, k, n), UNIT)
        return out
    if name in ('to_vec', 'clone', 'as_slice', 'as_mut_slice', 'to_owned', 'into_boxed_slice', 'into_vec', 'copied', 'cloned', 'deref', 'as_ref'):
        return [ret(s, l) for s, l in both()]
    if name in ('chunks', 'chunks_exact', 'windows'):
        for s, l in both():
            if args[1][0] == 'i' and args[1][1] > 0 and name == 'windows':
                for s2, w in eng.branch(s, lt(length(l), args[1])):
                    out.append(ret(s2, ('it', NIL if w else ('windows', l, args[1][1]), ())))
            elif args[1][0] == 'i' and name.startswith('chunks'):
                out.append(ret(s, ('it', ('chunks', l, args[1][1], name), ())))
            else:
                out.append(ret(s, ('it', ('app', name, (l, args[1])), ())))
        return out
    if name in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return [ret(st, UNIT)]
    if name == 'capacity':
        return [ret(s, ('app', 'capacity', (l,))) for s, l in both()]
    if name in ('sort', 'sort_unstable', 'sort_by', 'sort_by_key', 'sort_unstable_by', 'sort_unstable_by_key', 'dedup', 'dedup_by_key', 'fill', 'sort_by_cached_key'):
        for s, l in both():
            setl(s, ('fn', name, (l,) + tuple(args[1:])), UNIT)
        return out
    if name == 'concat':
        for s, l in both():
            if all(x[0] == 'one' for x in segs(l)):
                sts = [(s, NIL)]
                for x in segs(l):
                    sts = [(s3, cat(acc, v)) for s2, acc in sts for s3, v in eng.deref(s2, x[1])]
                out.extend(ret(s2, acc) for s2, acc in sts)
            else:
                eng.unmodelled.add('slice::concat')
                out.append(ret(s, ('app', name, (l,))))
        return out
    if name == 'partition_point':
        # of a list that is partitioned: the position of the first element that the predicate rejects
        for s, l in both():
            cnt = hcell(cs, 'cnt')

            def body(s, x):
                res = []
                for o in eng.call(None, args[1], (x,), s, eng.cs(cs, 'body'), span):
                    if o[0] != 'ret':
                        res.append(o)
                        continue
                    for s3, w in eng.branch(o[1], o[2]):
                        if not w:
                            res.append(('exit', s3, s3.mem[cnt]))
                        else:
                            s3 = s3.copy()
                            s3.mem[cnt] = add(s3.mem[cnt], I(1))
                            res.append(('back', s3, None))
                return res
            for o in vloop(eng, s, cs, as_it(eng, l), body, 'done', {'cnt': I(0)}, None):
                out.append(o if o[0] != 'exit' else ret(o[1], length(l) if o[2] == 'done' else o[2]))
        return out
    if name == 'binary_search':
        # a member may be missed where nothing orders the list; what is not in it is never found
        for s, l in both():
            r = ('app', name, (l, args[1]))
            for s2, x in eng.deref(s, args[1]):
                for s3, w in eng.branch(s2, has(l, x)):
                    if not w:
                        out.append(ret(s3, err(r)))
                    elif ordered(l):
                        out.append(ret(s3, ok(r)))
                    elif unordered(eng, s3, l):
                        out += [ret(s3, ok(r)), ret(s3, err(r))]
                    else:
                        eng.unmodelled.add('slice::' + name)
                        out.append(ret(s3, r))
        return out
    if name in ('starts_with', 'ends_with', 'iter_', 'join', 'position', 'repeat', 'is_sorted'):
        eng.unmodelled.add('slice::' + name)
        return [ret(s, ('app', name, (l,) + tuple(args[1:]))) for s, l in both()]
    return None


def ordered(l):
    return l[0] == 'fn' and l[1] in ('sort', 'sort_unstable') or l[0] == 'slice' and ordered(l[1]) or l[0] in ('range', 'nil', 'enum')


def unordered(eng, st, l):
    """nothing is known of the order of the list: that of a graph's own lists"""
    if l[0] not in ('N', 'nodes') or l[-1][0] == 'gr':
        return False
    return not any(mentions(f, lambda t: t == l) for f in list(st.foralls)) and \
        not any(mentions(f, lambda t: t[0] in ('app', 'fold', 'havoc', 'const') and mentions(t, lambda u: u == l)) for f, _ in st.path)


def rotl(l, k, n):
    """left rotation by k (normal form ('rot', l, amount))"""
    if l[0] == 'rot':
        k = add(l[2], k)
        l = l[1]
    if k == n or k == I(0):
        return l
    return ('rot', l, k)


def set_method(eng, name, args, st, cs, callee, span):
    a0 = args[0] if args else None
    out = []
    if name in ('contains', 'insert', 'remove', 'get', 'replace', 'take'):
        for s, c in eng.deref(st, a0):
            for s2, x in eng.deref(s, args[1]):
                f = has(c, x)
                if name == 'contains':
                    out.append(ret(s2, f))
                elif name == 'insert':
                    for s3 in eng.write_ref(s2, a0, ins(c, x)):
                        out.append(ret(s3, f_not(f)))
                elif name == 'remove':
                    for s3, w in eng.branch(s2, f):
                        for s4 in (eng.write_ref(s3, a0, srem(c, x)) if w else [s3]):
                            out.append(ret(s4, B(w)))
                elif name == 'get':
                    for s3, w in eng.branch(s2, f):
                        out.append(ret(s3, some(x) if w else NONE))
                else:
                    return None
        return out
    if name == 'len':
        return [ret(s, length(c)) for s, c in eng.deref(st, a0)]
    if name == 'is_empty':
        return [ret(s, isempty(c)) for s, c in eng.deref(st, a0)]
    if name in ('iter', 'into_iter', 'drain'):
        for s, c in eng.deref(st, a0):
            it = ('it', ('unord', c, 'k') if 'BTree' not in callee['path'] else ('unord', c, 'k', 'sorted'), ())
            if name == 'drain':
                for s2 in eng.write_ref(s, a0, EMPTYSET):
                    out.append(ret(s2, it))
            else:
                out.append(ret(s, it))
        return out
    if name == 'extend':
        for s, c in eng.deref(st, a0):
            src = args[1]
            if src[0] == 'ref':
                src = ('it', ('byref', src), ())
            for o in collect_into(eng, s, cs, src, 'set', c):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                for s2 in eng.write_ref(o[1], a0, o[2]):
                    out.append(ret(s2, UNIT))
        return out
    if name == 'clear':
        for s2 in eng.write_ref(st, a0, EMPTYSET):
            out.append(ret(s2, UNIT))
        return out
    if name in ('clone',):
        return eng_ident(eng, st, a0)
    if name in ('reserve', 'shrink_to_fit'):
        return [ret(st, UNIT)]
    if name == 'retain':
        return retain(eng, st, a0, args[1], cs, span, False)
    return None


def eng_ident(eng, st, a):
    return [ret(s, v) for s, v in eng.deref(st, a)]


def map_method(eng, name, args, st, cs, callee, span):
    a0 = args[0] if args else None
    out = []
    if name in ('get', 'get_mut', 'contains_key', 'remove', 'entry', 'insert', 'get_key_value', 'remove_entry'):
        for s, m in eng.deref(st, a0):
            for s2, k in eng.deref(s, args[1]):
                f = has(m, k)
                if name == 'contains_key':
                    out.append(ret(s2, f))
                    continue
                if name == 'insert' and eng.eval3(s2, f) is None and m[0] not in ('mins', 'mrem', 'mret'):
                    for s5 in eng.write_ref(s2, a0, mins(m, k, args[2])):
                        out.append(ret(s5, ('mgetopt', m, k)))
                    continue
                for s3, w in eng.branch(s2, f):
                    if name == 'entry':
                        r = it_ref(eng, s3, a0)
                        out.append(ret(s3, ('agg', 'Entry', int(bool(w) == ('btree' in (callee.get('path') or ''))), ((('occ' if w else 'vac'), r, k),))))
                        continue
                    if name == 'insert':
                        if w:
                            for s4, old in eng.op_mget(s3, m, k):
                                for s5 in eng.write_ref(s4, a0, mins(m, k, args[2])):
                                    out.append(ret(s5, some(old)))
                        else:
                            for s5 in eng.write_ref(s3, a0, mins(m, k, args[2])):
                                out.append(ret(s5, NONE))
                        continue
                    if not w:
                        out.append(ret(s3, NONE))
                        continue
                    if name == 'get_mut':
                        r = it_ref(eng, s3, a0)
                        out.append(ret(s3, some(('ref', r[1], r[2] + (('mval', k),)))))
                        continue
                    for s4, v in eng.op_mget(s3, m, k):
                        if name == 'get':
                            out.append(ret(s4, some(v)))
                        elif name == 'get_key_value':
                            out.append(ret(s4, some(tup(k, v))))
                        else:
                            for s5 in eng.write_ref(s4, a0, mrem(m, k)):
                                out.append(ret(s5, some(v if name == 'remove' else tup(k, v))))
        return out
    if name == 'len':
        return [ret(s, length(c)) for s, c in eng.deref(st, a0)]
    if name == 'is_empty':
        return [ret(s, isempty(c)) for s, c in eng.deref(st, a0)]
    if name in ('iter', 'keys', 'values', 'into_iter', 'into_keys', 'into_values', 'drain'):
        for s, c in eng.deref(st, a0):
            kind = {'keys': 'k', 'values': 'v', 'into_keys': 'k', 'into_values': 'v'}.get(name, 'kv')
            sorted_ = () if 'BTree' not in callee['path'] else ('sorted',)
            if c[0] == 'gidx' and kind != 'k':
                # the position map: the nodes with their positions
                b = ('bv', 700)
                x = ('ix', c[1], b)
                it = ('it', ('unord', c, 'k') + sorted_, (('cases', b, (((), (tup(b, x) if kind == 'kv' else x,)),)),))
            else:
                it = ('it', ('unord', c, kind) + sorted_, ())
            out.append(ret(s, it))
        return out
    if name == 'clear':
        for s2 in eng.write_ref(st, a0, EMPTYMAP):
            out.append(ret(s2, UNIT))
        return out
    if name == 'extend':
        for s, c in eng.deref(st, a0):
            for o in collect_into(eng, s, cs, args[1], 'map', c):
                if o[0] != 'ret':
                    out.append(o)
                    continue
                for s2 in eng.write_ref(o[1], a0, o[2]):
                    out.append(ret(s2, UNIT))
        return out
    if name == 'clone':
        return eng_ident(eng, st, a0)
    if name in ('reserve', 'shrink_to_fit'):
        return [ret(st, UNIT)]
    if name == 'retain':
        return retain(eng, st, a0, args[1], cs, span, True)
    return None


def retain(eng, st, a0, clo, cs, span, ismap):
    """keep the elements for which a predicate without effects holds"""
    k, v = ('bv', 700), ('bv', 701)
    cell = hcell(cs, 'val')
    out = []
    for s, c in eng.deref(st, a0):
        f = FALSE
        s0 = s.copy()
        if ismap:
            s0.mem[cell] = v
        n = len(s0.path)
        for o in eng.call(None, clo, (k, ('ref', cell, ())) if ismap else (k,), s0, eng.cs(cs, 'pred'), span):
            if o[0] != 'ret' or any(o[1].mem.get(x) != w for x, w in s0.mem.items()):
                raise eng_unsupported('retain with a predicate that has effects')
            if o[2][0] not in FORMS:
                raise eng_unsupported('retain with an opaque predicate')
            f = f_or(f, f_and(*[x if w else f_not(x) for x, w in o[1].path[n:]], o[2]))
        for s2 in eng.write_ref(s, a0, ('mret', c, f) if ismap else ('sret', c, f)):
            out.append(ret(s2, UNIT))
    return out


def entry_method(eng, owner, name, args, st, cs, callee, span):
    out = []
    for s, e in eng.deref(st, args[0]):
        if e[0] == 'agg' and e[1] == 'Entry':
            h = e[3][0]
        else:
            h = e
        if h[0] not in ('occ', 'vac'):
            return None
        r, k = h[1], h[2]
        slot = ('ref', r[1], r[2] + (('mval', k),))
        for s1, m in eng.read_ref(s, r):
            if owner in ('OccupiedEntry', 'VacantEntry'):
                if name == 'key' or name == 'into_key':
                    out.append(ret(s1, k))
                elif name == 'get':
                    out.extend(ret(s2, v) for s2, v in eng.op_mget(s1, m, k))
                elif name in ('get_mut', 'into_mut'):
                    out.append(ret(s1, slot))
                elif name == 'insert' or name == 'insert_entry':
                    if h[0] == 'vac':
                        for s2 in eng.write_ref(s1, r, mins(m, k, args[1])):
                            out.append(ret(s2, slot))
                    else:
                        for s2, old in eng.op_mget(s1, m, k):
                            for s3 in eng.write_ref(s2, r, mins(m, k, args[1])):
                                out.append(ret(s3, old))
                elif name == 'remove' or name == 'remove_entry':
                    for s2, old in eng.op_mget(s1, m, k):
                        for s3 in eng.write_ref(s2, r, mrem(m, k)):
                            out.append(ret(s3, old if name == 'remove' else tup(k, old)))
                else:
                    return None
                continue
            # methods of Entry
            if name == 'key':
                out.append(ret(s1, k))
            elif name in ('or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key'):
                if h[0] == 'occ':
                    out.append(ret(s1, slot))
                    continue
                if name == 'or_insert':
                    vs = [('ret', s1, args[1])]
                elif name == 'or_default':
                    vs = [('ret', s1, default_of(callee['targs'][1] if len(callee.get('targs', [])) > 1 else None))]
                else:
                    vs = eng.call(None, args[1], (k,) if name.endswith('key') else (), s1, eng.cs(cs, 'e'), span)
                for o in vs:
                    if o[0] != 'ret':
                        out.append(o)
                        continue
                    for s2, m2 in eng.read_ref(o[1], r):
                        for s3 in eng.write_ref(s2, r, mins(m2, k, o[2])):
                            out.append(ret(s3, slot))
            elif name == 'and_modify':
                if h[0] == 'vac':
                    out.append(ret(s1, e))
                    continue
                for o in eng.call(None, args[1], (slot,), s1, eng.cs(cs, 'e'), span):
                    out.append(ret(o[1], e) if o[0] == 'ret' else o)
            elif name == 'insert_entry':
                for s2 in eng.write_ref(s1, r, mins(m, k, args[1])):
                    out.append(ret(s2, ('occ', r, k)))
            else:
                return None
    return out


def default_of(t):
    if not t:
        return ('app', 'default', ())
    if t.get('k') == 'prim':
        return FALSE if t['name'] == 'bool' else I(0)
    n = t.get('path', '').split('::')[-1]
    kind, init = kind_of_type(t)
    if init is not None:
        return init
    if n == 'Option':
        return NONE
    if t.get('k') == 'tuple' and not t['ts']:
        return UNIT
    return ('app', 'default', (t.get('path', ''),))


def callclo(eng, clo, cargs, st, cs, span, tag='clo'):
    return eng.call(None, clo, tuple(cargs), st, eng.cs(cs, tag), span)


def option_method(eng, name, args, st, cs, callee, span, nm):
    out = []
    a0 = args[0]
    isopt = nm == 'Option'
    mutref = a0[0] == 'ref'
    if name in ('as_mut', 'as_deref_mut') and mutref:
        for s, i, f in variants(eng, st, a0, nm):
            if isopt:
                out.append(ret(s, NONE if i == 0 else some(('ref', a0[1], a0[2] + (('vf', 1, 0),)))))
            else:
                out.append(ret(s, ('agg', nm, i, (('ref', a0[1], a0[2] + (('vf', i, 0),)),))))
        return out
    if isopt and name in ('take', 'replace', 'insert', 'get_or_insert', 'get_or_insert_with'):
        for s, i, f in variants(eng, st, a0, nm):
            old = NONE if i == 0 else some(f[0])
            if name == 'take':
                out.extend(ret(s2, old) for s2 in eng.write_ref(s, a0, NONE))
            elif name == 'replace':
                out.extend(ret(s2, old) for s2 in eng.write_ref(s, a0, some(args[1])))
            elif name == 'insert':
                out.extend(ret(s2, ('ref', a0[1], a0[2] + (('vf', 1, 0),))) for s2 in eng.write_ref(s, a0, some(args[1])))
            else:
                slot = ('ref', a0[1], a0[2] + (('vf', 1, 0),))
                if i == 1:
                    out.append(ret(s, slot))
                elif name == 'get_or_insert':
                    out.extend(ret(s2, slot) for s2 in eng.write_ref(s, a0, some(args[1])))
                else:
                    for o in callclo(eng, args[1], (), s, cs, span):
                        if o[0] == 'ret':
                            out.extend(ret(s2, slot) for s2 in eng.write_ref(o[1], a0, some(o[2])))
                        else:
                            out.append(o)
        return out
    for s, i, f in variants(eng, st, a0, nm):
        good = (i == 1) if isopt else (i == 0)
        val = f[0] if f else UNIT
        me = ('agg', nm, i, tuple(f))

        def wrap(x):
            return some(x) if isopt else ok(x)
        if name in ('unwrap', 'expect', 'unwrap_unchecked'):
            out.append(ret(s, val) if good else ('panic', s, pinfo(eng, name, span)))
        elif name in ('unwrap_err', 'expect_err'):
            out.append(ret(s, val) if not good else ('panic', s, pinfo(eng, name, span)))
        elif name in ('is_some', 'is_ok'):
            out.append(ret(s, B(good)))
        elif name in ('is_none', 'is_err'):
            out.append(ret(s, B(not good)))
        elif name in ('is_some_and', 'is_ok_and', 'is_none_or'):
            if good:
                out.extend(callclo(eng, args[1], (val,), s, cs, span))
            else:
                out.append(ret(s, B(name == 'is_none_or')))
        elif name == 'unwrap_or':
            out.append(ret(s, val if good else args[1]))
        elif name == 'unwrap_or_default':
            out.append(ret(s, val) if good else ret(s, default_of((callee.get('targs') or [None])[0])))
        elif name == 'unwrap_or_else':
            if good:
                out.append(ret(s, val))
            else:
                out.extend(callclo(eng, args[1], () if isopt else (val,), s, cs, span))
        elif name == 'map':
            if good:
                for o in callclo(eng, args[1], (val,), s, cs, span):
                    out.append(ret(o[1], wrap(o[2])) if o[0] == 'ret' else o)
            else:
                out.append(ret(s, me))
        elif name == 'map_or':
            if good:
                out.extend(callclo(eng, args[2], (val,), s, cs, span))
            else:
                out.append(ret(s, args[1]))
        elif name == 'map_or_else':
            if good:
                out.extend(callclo(eng, args[2], (val,), s, cs, span))
            else:
                out.extend(callclo(eng, args[1], () if isopt else (val,), s, cs, span, 'clo2'))
        elif name in ('and_then',):
            if good:
                out.extend(callclo(eng, args[1], (val,), s, cs, span))
            else:
                out.append(ret(s, me))
        elif name == 'and':
            out.append(ret(s, args[1] if good else me))
        elif name == 'or':
            out.append(ret(s, me if good else args[1]))
        elif name == 'or_else':
            if good:
                out.append(ret(s, me))
            else:
                out.extend(callclo(eng, args[1], () if isopt else (val,), s, cs, span))
        elif name == 'xor':
            for s2, j, g in variants(eng, s, args[1], nm):
                out.append(ret(s2, me if (i == 1 and j == 0) else some(g[0]) if (i == 0 and j == 1) else NONE))
        elif name == 'filter':
            if not good:
                out.append(ret(s, me))
            else:
                for o in callclo(eng, args[1], (val,), s, cs, span):
                    if o[0] != 'ret':
                        out.append(o)
                        continue
                    out.extend(ret(s2, me if w else NONE) for s2, w in eng.branch(o[1], o[2]))
        elif name == 'ok_or':
            out.append(ret(s, ok(val) if good else err(args[1])))
        elif name == 'ok_or_else':
            if good:
                out.append(ret(s, ok(val)))
            else:
                for o in callclo(eng, args[1], (), s, cs, span):
                    out.append(ret(o[1], err(o[2])) if o[0] == 'ret' else o)
        elif name == 'ok':
            out.append(ret(s, some(val) if good else NONE))
        elif name == 'err':
            out.append(ret(s, NONE if good else some(val)))
        elif name == 'map_err':
            if good:
                out.append(ret(s, me))
            else:
                for o in callclo(eng, args[1], (val,), s, cs, span):
                    out.append(ret(o[1], err(o[2])) if o[0] == 'ret' else o)
        elif name in ('as_ref', 'copied', 'cloned', 'as_deref', 'clone', 'as_mut'):
            out.append(ret(s, me))
        elif name in ('iter', 'into_iter'):
            out.append(ret(s, ('it', one(val) if good else NIL, ())))
        elif name == 'zip':
            for s2, j, g in variants(eng, s, args[1], nm):
                out.append(ret(s2, some(tup(val, g[0])) if (i == 1 and j == 1) else NONE))
        elif name == 'flatten':
            out.append(ret(s, val if good else me))
        elif name == 'transpose':
            if isopt:
                if i == 0:
                    out.append(ret(s, ok(NONE)))
                else:
                    for s2, j, g in variants(eng, s, val, 'Result'):
                        out.append(ret(s2, ok(some(g[0])) if j == 0 else err(g[0])))
            else:
                return None
        elif name == 'inspect':
            if good:
                for o in callclo(eng, args[1], (val,), s, cs, span):
                    out.append(ret(o[1], me) if o[0] == 'ret' else o)
            else:
                out.append(ret(s, me))
        else:
            return None
    return out


def listlike(v):
    return v[0] in ('L', 'N', 'nodes', 'edges', 'slice', 'rev', 'fmap', 'upd', 'enum', 'rot', 'gadj', 'one')


SIZED = {'with_capacity': 0, 'with_capacity_and_hasher': 0, 'reserve': 1, 'reserve_exact': 1, 'resize': 1, 'resize_with': 1, 'from_elem': 1}


def call(eng, callee, path, args, st, cs, span):
    if callee['name'] in UNCHECKED and callee.get('crate') in ('core', 'alloc', 'std'):
        # what would panic, if it were checked, must not come about
        eng.unsafe_op = True
        eng.unsafe_seen.add(span)
        try:
            return call_(eng, callee, path, args, st, cs, span)
        finally:
            eng.unsafe_op = False
    return call_(eng, callee, path, args, st, cs, span)


def call_(eng, callee, path, args, st, cs, span):
    name = owner_name(path)[1]
    n = SIZED.get(name)
    if n is not None and len(args) > n and path.startswith(('alloc::', 'std::')):
        # room for as many as an id says: ids go up to the largest number there is
        x = args[n]
        if x[0] in ('var', 'at', 'fld', 'sum') and not eng.small(st, x) and not mentions(x, lambda t: t[0] in ('op', 'app', 'fold', 'phi', 'const', 'havoc', 'count')):
            out = []
            for s, w in eng.branch(st, lt(I(2 ** 60), x)):
                out += [('panic', s, pinfo(eng, name, span))] if w else call_(eng, callee, path, args, s, cs, span)
            return out
    return call_(eng, callee, path, args, st, cs, span)


def call_(eng, callee, path, args, st, cs, span):
    owner, name = owner_name(path)
    krate = callee.get('crate', '')
    selfty = callee.get('self') or {}
    while selfty.get('k') == 'ref':
        selfty = selfty['t']
    selfn = selfty.get('path', '').split('::')[-1] if selfty.get('k') == 'adt' else {'slice': 'slice', 'array': 'slice'}.get(selfty.get('k'), '')

    if name in ('max_value', 'min_value') and not args:
        m = re.search(r'impl ([iu])(\d+|size)>', path)
        if m:
            n = 64 if m.group(2) == 'size' else int(m.group(2))
            v = 0 if m.group(1) == 'u' else 1
            return [ret(st, I((1 << n - v) - 1 if name == 'max_value' else -(v << n - 1)))]
    if name in PANICS:
        return [('panic', st, pinfo(eng, 'panic', span))]
    if path.startswith('core::fmt') or path.startswith('alloc::fmt') or owner in ('Arguments', 'Argument'):
        return [ret(st, UNIT)]
    if name == 'drop' and 'mem' in path:
        return [ret(st, UNIT)]
    if owner == 'Box' and name == 'new_uninit':
        st = st.copy()
        c = ('heap', cs)
        st.mem[c] = ('uninit',)
        return [ret(st, ('ref', c, ()))]
    if name == 'box_assume_init_into_vec_unsafe':
        return [ret(s, v) for s, v in eng.deref(st, args[0])]
    if name == 'assume_init' and owner == 'Box':
        return [ret(s, v) for s, v in eng.deref(st, args[0])]
    if name == 'from_elem':
        if args[1][0] == 'i' and args[1][1] < 9:
            return [ret(st, lst(*([args[0]] * args[1][1])))]
        return [ret(st, ('repeat', args[0], args[1]))]
    if owner in ('Box', 'Rc', 'Arc', 'Some') and name in ('new', 'from', 'pin', 'into_inner', 'leak'):
        return [ret(st, args[0])]

    # function traits
    if owner in ('Fn', 'FnMut', 'FnOnce') and name in ('call', 'call_mut', 'call_once'):
        out = []
        for s, f in eng.deref(st, args[0]):
            targs = args[1][3] if args[1][0] == 'agg' else ()
            out.extend(eng.call(None, f, tuple(targs), s, cs, span))
        return out

    # operators as trait calls
    if owner == 'PartialEq' and name in ('eq', 'ne'):
        out = []
        for s, a in eng.deref(st, args[0]):
            for s2, b in eng.deref(s, args[1]):
                f = eng.eq_term(a, b)
                out.append(ret(s2, f if name == 'eq' else f_not(f)))
        return out
    if owner == 'PartialOrd' and name in ('lt', 'le', 'gt', 'ge'):
        out = []
        for s, a in eng.deref(st, args[0]):
            for s2, b in eng.deref(s, args[1]):
                if a[0] == 'agg' or b[0] == 'agg':
                    f = ('app', 'ord_' + name, (a, b))
                    if a[0] == 'agg' and b[0] == 'agg' and len(a[3]) == len(b[3]) == 2 and a[1] == 'tuple':
                        x = f_or(lt(a[3][0], b[3][0]), f_and(eq(a[3][0], b[3][0]), lt(a[3][1], b[3][1])))
                        y = f_or(lt(b[3][0], a[3][0]), f_and(eq(a[3][0], b[3][0]), lt(b[3][1], a[3][1])))
                        f = {'lt': x, 'gt': y, 'le': f_not(y), 'ge': f_not(x)}[name]
                else:
                    f = {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[name]
                out.append(ret(s2, f))
        return out
    if (owner in ('Ord', 'PartialOrd') and name in ('cmp', 'partial_cmp')) or (owner == 'cmp' and name in ('min', 'max')) or (owner == 'Ord' and name in ('min', 'max')):
        out = []
        for s, a in eng.deref(st, args[0]):
            for s2, b in eng.deref(s, args[1]):
                if name in ('min', 'max'):
                    for s3, w in eng.branch(s2, lt(a, b)):
                        out.append(ret(s3, (a if w else b) if name == 'min' else (b if w else a)))
                    continue
                for s3, w in eng.branch(s2, eq(a, b)):
                    if w:
                        r = [(s3, I(0))]
                    else:
                        r = [(s4, I(-1) if v else I(1)) for s4, v in eng.branch(s3, lt(a, b))]
                    for s4, n in r:
                        o = ('agg', 'Ordering', n[1] % 2 ** 8 if n[1] < 0 else n[1], ())
                        o = ('agg', 'Ordering', n[1], ())
                        out.append(ret(s4, o if name == 'cmp' else some(o)))
        return out
    if owner in ('Add', 'Sub', 'Mul', 'Rem', 'Div', 'AddAssign', 'SubAssign', 'BitAnd', 'BitOr', 'BitXor', 'Not', 'BitOrAssign', 'BitAndAssign', 'BitXorAssign'):
        out = []
        for s, a in eng.deref(st, args[0]):
            if owner == 'Not':
                out.append(ret(s, f_not(a)))
                continue
            for s2, b in eng.deref(s, args[1]):
                op = owner.replace('Assign', '')
                if op in ('Add', 'Sub', 'Mul'):
                    r = eng.binop(s2, op + 'WithOverflow', a, b)
                    for s3, w in eng.branch(s2, r[3][1]):
                        if w:
                            out.append(('panic', s3, pinfo(eng, 'overflow:' + op, span)))
                        elif owner.endswith('Assign'):
                            out.extend(ret(s4, UNIT) for s4 in eng.write_ref(s3, args[0], r[3][0]))
                        else:
                            out.append(ret(s3, r[3][0]))
                else:
                    v = eng.binop(s2, op, a, b)
                    if owner.endswith('Assign'):
                        out.extend(ret(s4, UNIT) for s4 in eng.write_ref(s2, args[0], v))
                    else:
                        out.append(ret(s2, v))
        return out
    if owner in ('usize', 'u64', 'num', 'isize', 'u32') or selfn == 'usize' or (selfty.get('k') == 'prim' and selfty.get('name') in ('usize', 'u64')):
        r = int_method(eng, name, args, st, cs, span)
        if r is not None:
            return r

    # mem
    if owner == 'mem' and name in ('replace', 'take', 'swap'):
        out = []
        for s, a in eng.read_ref(st, args[0]) if args[0][0] == 'ref' else []:
            if name == 'replace':
                out.extend(ret(s2, a) for s2 in eng.write_ref(s, args[0], args[1]))
            elif name == 'take':
                t = (callee.get('targs') or [None])[0]
                out.extend(ret(s2, a) for s2 in eng.write_ref(s, args[0], default_of(t)))
            else:
                for s2, b in eng.read_ref(s, args[1]):
                    for s3 in eng.write_ref(s2, args[0], b):
                        out.extend(ret(s4, UNIT) for s4 in eng.write_ref(s3, args[1], a))
        return out

    # try operator
    if owner == 'Try' and name == 'branch':
        out = []
        nm = selfn
        for s, i, f in variants(eng, st, args[0], nm):
            if nm == 'Option':
                out.append(ret(s, ('agg', 'ControlFlow', 0, (f[0],)) if i == 1 else ('agg', 'ControlFlow', 1, (NONE,))))
            elif nm == 'Result':
                out.append(ret(s, ('agg', 'ControlFlow', 0, (f[0],)) if i == 0 else ('agg', 'ControlFlow', 1, (err(f[0]),))))
            else:
                out.append(ret(s, ('agg', 'ControlFlow', i, f)))
        return out
    if name in ('from_residual', 'from_output'):
        return [ret(st, args[0] if name == 'from_residual' else ('agg', selfn, 1 if selfn == 'Option' else 0, (args[0],)))]

    # conversions
    if owner in ('From', 'Into') and name in ('from', 'into'):
        src = args[0]
        if src[0] == 'ref':
            return eng_ident(eng, st, src)
        t = callee.get('self') if name == 'from' else None
        if name == 'into' and len(callee.get('targs', [])) > 1:
            t = callee['targs'][1]
        kind, init = kind_of_type(t) if t and t.get('k') == 'adt' else (None, None)
        if kind in ('set', 'map'):
            return collect_into(eng, st, cs, src, kind, init)
        return [ret(st, src)]
    if owner == 'Default' and name == 'default':
        return [ret(st, default_of(callee.get('self')))]

    # constructors of collections
    if owner in LISTY and name in ('new', 'with_capacity'):
        return [ret(st, NIL)]
    if owner in SETY and name in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
        return [ret(st, EMPTYSET)]
    if owner in MAPY and name in ('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher'):
        return [ret(st, EMPTYMAP)]
    if owner == 'RangeInclusive' and name == 'new':
        return [ret(st, ('range', args[0], add(args[1], I(1))))]
    if owner in ('Range', 'RangeInclusive', 'RangeBounds', 'RangeFrom') and name == 'contains':
        out = []
        for s, r in eng.deref(st, args[0]):
            for s2, x in eng.deref(s, args[1]):
                out.append(ret(s2, has(r, x)))
        return out
    if name in ('once', 'empty', 'repeat', 'successors', 'from_fn', 'repeat_n') and 'iter' in path:
        if name == 'once':
            return [ret(st, ('it', one(args[0]), ()))]
        if name == 'empty':
            return [ret(st, ('it', NIL, ()))]
        if name == 'successors':
            return [ret(st, ('it', ('agg', '#successors', 0, (args[0], args[1])), ()))]
        if name == 'from_fn':
            if args[0][0] == 'agg' and all(x[0] == 'ref' for x in args[0][3]):
                return [ret(st, ('it', ('agg', '#from_fn', 0, (args[0],)), ()))]
            raise eng_unsupported('a generator with state of its own')
        return None

    # indexing
    if name in ('get_unchecked', 'get_unchecked_mut') and selfn not in MAPY:
        owner, name = 'Index', 'index_mut' if name.endswith('mut') else 'index'
    if owner in ('Index', 'IndexMut') and name in ('index', 'index_mut'):
        out = []
        if selfn in MAPY:
            for s, m in eng.deref(st, args[0]):
                for s2, k in eng.deref(s, args[1]):
                    for s3, w in eng.branch(s2, has(m, k)):
                        if w:
                            out.extend(ret(s4, v) for s4, v in eng.op_mget(s3, m, k))
                        else:
                            out.append(('panic', s3, pinfo(eng, 'mapindex', span)))
            return out
        for s, l in eng.deref(st, args[0]):
            for s2, p in index(eng, s, l, args[1], span, out):
                if name == 'index_mut':
                    r = it_ref(eng, s2, args[0])
                    out.append(ret(s2, ('ref', r[1], r[2] + (p,))))
                elif p[0] == 'idx':
                    out.extend(ret(s3, v) for s3, v in eng.op_at(s2, l, p[1]))
                else:
                    out.append(ret(s2, slice_(l, p[1], p[2])))
        return out

    if owner in ('OccupiedEntry', 'VacantEntry', 'Entry'):
        return entry_method(eng, owner, name, args, st, cs, callee, span)

    if owner in ('Option', 'Result'):
        return option_method(eng, name, args, st, cs, callee, span, owner)
    if selfn in ('Option', 'Result') and owner in ('Clone', 'AsRef', 'IntoIterator'):
        return option_method(eng, name, args, st, cs, callee, span, selfn)

    if owner == 'Extend' and name == 'extend':
        if selfn in SETY:
            return set_method(eng, name, args, st, cs, callee, span)
        if selfn in MAPY:
            return map_method(eng, name, args, st, cs, callee, span)
        return list_method(eng, name, args, st, cs, callee, span)

    if owner in ('Iterator', 'IntoIterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'FromIterator', 'Peekable', 'IteratorExt') or (owner in ('Box',) and name == 'next'):
        if name == 'into_iter' and args[0][0] != 'ref':
            v = args[0]
            if selfn in SETY:
                return set_method(eng, 'into_iter', args, st, cs, callee, span)
            if selfn in MAPY:
                return map_method(eng, 'into_iter', args, st, cs, callee, span)
        if name == 'into_iter' and selfty and callee.get('self', {}).get('k') == 'ref' and not callee['self'].get('mut') and args[0][0] != 'ref':
            if selfn in SETY:
                return set_method(eng, 'into_iter', args, st, cs, callee, span)
            if selfn in MAPY:
                return map_method(eng, 'into_iter', args, st, cs, callee, span)
        return iter_method(eng, name, args, st, cs, callee, span)
    if owner in ('Rev', 'Map', 'Filter') and name in ('next', 'find'):
        return iter_method(eng, name, args, st, cs, callee, span)

    if owner in LISTY:
        return list_method(eng, name, args, st, cs, callee, span)
    if owner in SETY:
        return set_method(eng, name, args, st, cs, callee, span)
    if owner in MAPY:
        return map_method(eng, name, args, st, cs, callee, span)

    if owner in ('Deref', 'AsRef', 'Borrow', 'Clone', 'ToOwned', 'AsMut', 'DerefMut', 'BorrowMut', 'CloneFrom') or name in ('black_box', 'identity', 'must_use'):
        if owner in ('DerefMut', 'AsMut', 'BorrowMut'):
            return [ret(st, args[0])]
        return eng_ident(eng, st, args[0])
    if owner == 'RandomState' or owner == 'hash':
        return [ret(st, UNIT)]
    if owner == 'bool' and name in ('then', 'then_some'):
        out = []
        for s, w in eng.branch(st, args[0]):
            if not w:
                out.append(ret(s, NONE))
            elif name == 'then_some':
                out.append(ret(s, some(args[1])))
            else:
                for o in callclo(eng, args[1], (), s, cs, span):
                    out.append(ret(o[1], some(o[2])) if o[0] == 'ret' else o)
        return out
    if owner == 'Ordering':
        out = []
        for s, o in eng.deref(st, args[0]):
            if o[0] != 'agg':
                return None
            n = o[2]
            f = {'is_eq': n == 0, 'is_ne': n != 0, 'is_lt': n < 0, 'is_le': n <= 0, 'is_gt': n > 0, 'is_ge': n >= 0}.get(name)
            if f is not None:
                out.append(ret(s, B(f)))
            elif name == 'reverse':
                out.append(ret(s, ('agg', 'Ordering', -n, ())))
            else:
                return None
        return out
    return None


def int_method(eng, name, args, st, cs, span):
    a = args[0]
    if a[0] == 'ref':
        return None
    out = []
    if name in ('checked_add', 'checked_sub', 'saturating_sub', 'saturating_add', 'overflowing_add', 'overflowing_sub', 'checked_mul'):
        op = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[name.split('_')[1]]
        r = eng.binop(st, op + 'WithOverflow', a, args[1])
        if name.startswith('overflowing'):
            return [ret(st, r)]
        for s, w in eng.branch(st, r[3][1]):
            if name.startswith('checked'):
                out.append(ret(s, NONE if w else some(r[3][0])))
            elif op == 'Sub':
                out.append(ret(s, I(0) if w else r[3][0]))
            else:
                out.append(ret(s, ('op', 'MAX', UNIT, UNIT) if w else r[3][0]))
        return out
    if name in ('wrapping_add', 'wrapping_sub', 'unchecked_add', 'unchecked_sub'):
        op = 'Add' if name.endswith('add') else 'Sub'
        if eng.small(st, a) and eng.small(st, args[1]) and (op == 'Add' or eng.eval3(st, le(args[1], a)) is True):
            return [ret(st, eng.arith(st, op, a, args[1]))]
        return [ret(st, ('op', name, a, args[1]))]
    if name in ('is_multiple_of',):
        return [ret(st, eng.eq_term(('op', 'Rem', a, args[1]), I(0)))]
    if name in ('rem_euclid', 'div_euclid'):
        return [ret(st, eng.arith(st, 'Rem' if name[0] == 'r' else 'Div', a, args[1]))]
    if name in ('min', 'max'):
        for s3, w in eng.branch(st, lt(a, args[1])):
            out.append(ret(s3, (a if w else args[1]) if name == 'min' else (args[1] if w else a)))
        return out
    if name in ('pow', 'abs_diff', 'count_ones', 'leading_zeros', 'trailing_zeros', 'swap_bytes', 'rotate_left', 'div_ceil', 'next_power_of_two'):
        return [ret(st, ('op', name, a, args[1] if len(args) > 1 else UNIT))]
    return None
