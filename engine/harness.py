"""Builds the dump of the crate under analysis, runs the rules of one property
and writes its evidence."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .terms import *
from . import terms as T
from .interp import Engine, St, Unsupported
from .contract import Contract, graph_axiom
from .model import Model, Missing
from . import compare as C

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GAMMA_REPO', '/repo')
DRIVER = os.path.join(ROOT, 'driver', 'target', 'release', 'mirdump')
OPAQUE = ('app', 'havoc', 'const', 'fold', 'rec', 'pend')


# seconds for one group of obligations, and for a whole check
TIME, TOTAL, START = 240, 600, time.time()


class NoAnswer(Exception):
    pass


NEAR = ('add_node', 'add_edge', 'query', 'new', 'adjacency', 'edges', 'eq', 'dfs', 'bfs', 'table', 'convert', 'components', 'pairing', 'augment', 'greedy')


def time_up(sig, frame):
    raise Unsupported('takes too long')


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    if os.path.exists(DRIVER):
        return
    r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--release'], cwd=os.path.join(ROOT, 'driver'), capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer('cannot build the driver:\n' + r.stderr[-3000:])


def make_dump(work):
    """type-check /repo's working tree and dump its MIR"""
    build_driver()
    out = os.path.join(work, 'dump.json')
    env = dict(os.environ)
    env.update({'GAMMA_DUMP_OUT': out, 'GAMMA_DUMP_CRATE': 'gamma', 'RUSTC_WORKSPACE_WRAPPER': DRIVER,
                'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib') + ':' + env.get('LD_LIBRARY_PATH', '')})
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                        '--target-dir', os.path.join(work, 'target')], env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise NoAnswer('the crate does not type-check:\n' + r.stderr[-3000:])
    with open(out) as f:
        return json.load(f)


def tainted(eng, st, vals, through=False):
    """is the mismatch due to code that the analysis does not model; with
    through, loops of which the obligation has examined the updates do not count"""
    if through:
        vals = [x for v in vals if isinstance(v, tuple) for x in unfolded(eng, v, set())]
    if st is not None:
        if st.notes:
            return 'calls ' + ', '.join(sorted({n[1] for n in st.notes}))
        for f, v in st.path:
            if mentions(f, lambda t: t[0] in OPAQUE) and not free(f, v):
                return 'depends on %s' % show(f)[:200]
    for v in vals:
        if v is not None and mentions(v, lambda t: t[0] in OPAQUE):
            return 'value not closed: %s' % show(v)[:200]
    return None


def free(f, v):
    """a fact that may be so whatever else is: a list may have any capacity above its length"""
    if f[0] != 'pos':
        return False
    caps = [(k, c) for k, c in f[2] if mentions(k, lambda t: t[0] in OPAQUE)]
    return len(caps) == 1 and caps[0][0][0] == 'app' and caps[0][0][1] == 'capacity' and (caps[0][1] > 0) == v \
        and not mentions(caps[0][0][2], lambda t: t[0] in OPAQUE)


def unfolded(eng, v, seen):
    """v and all that happens in the loops it sums up, without the loops"""
    out = []
    m = {}
    for t in T.subterms(v):
        if t[0] == 'fold' and t not in m:
            m[t] = ('var', '#fold%d' % t[1])
            if t[1] not in seen:
                seen.add(t[1])
                rec = eng.recs[t[1]]
                for c, u in rec.backs:
                    for x in [f for f, _ in c] + list(u.values()):
                        out.extend(unfolded(eng, x, seen))
                for x in rec.inits.values():
                    out.extend(unfolded(eng, x, seen))
    return out + [subst(v, m)]


def reached(eng, st):
    """does what st says come about in one of the first turns of the loops it stands in"""
    fs = list(st.path)
    keys = {t[1] for f, _ in fs for t in T.subterms(f) if t[0] == 'phi' or t[0] == 'k' and any(r.key == t[1] for r in eng.recs.values())}
    return turns(eng, [], fs, keys, 2, 40)


def turns(eng, done, fs, keys, deep, width):
    if not keys:
        out = eng.assume(St(), done + fs)
        return any(not tainted(eng, s, []) and not any(mentions(f, lambda t: t[0] == 'phi') for f, _ in s.path) for s in out)
    # innermost loops first: those whose start no other loop's depends on
    recs = [r for r in eng.recs.values() if r.key in keys]
    if not recs:
        return False
    inner = [r for r in recs if not any(mentions(x, lambda t: t[0] in ('phi', 'k') and t[1] == r.key) for q in recs if q.key != r.key for x in q.inits.values())]
    for r in inner or recs:
        states = [(fs, {})]
        for n in range(deep + 1):
            for gs, _ in states:
                m = dict(r.inits)
                m[r.k] = I(0)
                hs = [(subst(f, m), v) for f, v in gs]
                if any(f == (FALSE if v else TRUE) for f, v in hs):
                    continue
                more = {t[1] for f, _ in hs for t in T.subterms(f) if t[0] == 'phi'} | (keys - {r.key})
                if r.key not in more and turns(eng, done, hs, more, deep, width):
                    return True
            # one turn earlier
            nxt = []
            for gs, _ in states:
                for c, u in r.backs:
                    m = {p: u.get(p, p) for p in r.inits}
                    m[r.k] = add(r.k, I(1))
                    nxt.append(([(subst(f, m), v) for f, v in gs] + list(c), {}))
            states = nxt[:width]
    return False


def no_turns(eng, st, vals, cond):
    """does the obligation fail when the loops that stand in the way of deciding
    it make no turn at all"""
    folds = {t for x in [f for f, _ in st.path] + list(vals) for t in T.subterms(x) if t[0] == 'fold'}
    if st.notes or not folds or any(eng.recs[t[1]].dom is None for t in folds):
        return False
    m = {t: t[3] for t in folds}
    conds = []
    for f, v in st.path:
        conds.append((subst(f, m), v))
    for t in folds:
        conds.append((isempty(eng.recs[t[1]].dom), True))
    for s in eng.assume(St(), conds):
        vs = [subst(v, m) for v in vals]
        if not tainted(eng, s, vs) and not cond(eng, s, *vs):
            return True
    return False


# obligations on lists in a given order
ORDERED = re.compile('^(adjacency/ok|table|convert|edges/step)/(nodes|edges|neighbors)$')


def mixed(eng, v):
    """is v gathered by a loop that puts some items behind, and others before
    those that it has"""
    if v[0] != 'fold':
        return False
    r = eng.recs[v[1]]
    q = v[2]
    ends = set()
    for c, u in r.backs:
        x = u.get(q, q)
        if x[0] == 'fold':
            ends |= {e for e in ('front', 'back') if mixed_one(eng, x, q, e)}
            continue
        s = T.segs(x)
        if list(s).count(q) != 1 or any(y != q and y[0] != 'one' for y in s) or len(s) < 2:
            continue
        conds = list(c) + [(isempty(q), False), (pos(r.k), True)]
        for st in eng.assume(St(), conds):
            if not tainted(eng, st, []):
                if s[0] != q:
                    ends.add('front')
                if s[-1] != q:
                    ends.add('back')
    return len(ends) == 2


def mixed_one(eng, x, q, end):
    """does an inner loop over the list q add to that end of it"""
    r = eng.recs[x[1]]
    p = x[2]
    if x[3] != q:
        return False
    for c, u in r.backs:
        s = T.segs(u.get(p, p))
        if list(s).count(p) != 1 or any(y != p and y[0] != 'one' for y in s) or len(s) < 2:
            continue
        if s[0 if end == 'front' else -1] == p:
            continue
        for st in eng.assume(St(), list(c) + [(isempty(p), False)]):
            if not tainted(eng, st, []):
                return True
    return False


def unmeasured(eng, st, vals, cond):
    """does the obligation fail in the middle of a loop of which it is not known
    how its variables hang together, and not in its first turns"""
    vals = [v for v in vals if isinstance(v, tuple)]
    seen = {t for x in [f for f, _ in st.path] + vals for t in T.subterms(x) if t[0] == 'phi'}
    if not seen:
        return None
    loose = [r for r in eng.recs.values() if r.trip is None and r.dom is None and any(q in r.inits for q in seen)]
    if not loose:
        return None
    if cond is not None and len({r.key for r in loose}) == 1:
        r = loose[-1]
        front = [(tuple(st.path), tuple(vals))]
        for _ in range(3):
            m = {r.k: I(0)}
            m.update(r.inits)
            for fs, vs in front:
                vs = [subst(v, m) for v in vs]
                for s in eng.assume(St(), [(subst(f, m), v) for f, v in fs]):
                    if not tainted(eng, s, vs) and not cond(eng, s, *vs):
                        return None
            front = [(tuple(c) + tuple((subst(f, m), v) for f, v in fs), tuple(subst(v, m) for v in vs))
                     for fs, vs in front for c, u in r.backs for m in [{**u, r.k: add(r.k, I(1))}]][:20]
    return 'in the middle of a loop that is not followed'


class Cx:
    def __init__(self, dump, want=None):
        self.dump = dump
        self.m = Model(dump)
        self.obs = []
        self.want = want or (lambda n: True)
        self.fn = None
        self.engines = []
        self.unchecked = []
        self.far = False
        self.paths = 0
        self.rules = []

    def engine(self, raw=(), inline=(), axioms=()):
        e = Engine(self.dump, Contract(self.m, raw, inline), list(axioms) + [graph_axiom])
        self.engines.append(e)
        return e

    def run(self, path, args, st=None, raw=(), inline=(), axioms=(), eng=None, prep=None):
        self.fn = path
        e = eng or self.engine(raw, inline, axioms)
        outs = e.call_path(path, args, st or St())
        self.paths += len(outs)
        self.unchecked.extend((path, e, s, v) for k, s, v in outs if k == 'panic' and str(v[0]).startswith('unchecked'))
        return e, outs

    def rets(self, eng, outs, tag):
        """the outcomes that return; none may panic"""
        for k, s, v in outs:
            if k == 'panic':
                if any(mentions(f, lambda t: t[0] == 'at' and t[1][0] == 'steps') for f, _ in s.path) and not any(a.__name__ == 'step_axiom' for a in eng.axioms):
                    self.put(tag + '/panic', 'undecided', 'may panic at some steps of a traversal, if there are such: %s' % (v,), s)
                    continue
                if any(mentions(f, lambda t: t[0] == 'phi') for f, _ in s.path) and not tainted(eng, s, []) and not reached(eng, s):
                    self.put(tag + '/panic', 'undecided', 'may panic in some turn of a loop, if that comes about: %s' % (v,), s)
                    continue
                self.ob(tag + '/panic', False, eng, s, detail='panics: %s' % (v,))
            else:
                self.ob(tag + '/panic', True)
                yield k, s, v

    def group(self, name, f):
        """run one group of obligations; anything the analysis cannot follow
        leaves the group undecided"""
        self.fn = None
        self.far = name.split('/')[0] not in NEAR
        self.rules.append(name)
        t0, left = time.time(), signal.getitimer(signal.ITIMER_REAL)[0]
        signal.signal(signal.SIGALRM, time_up)
        signal.setitimer(signal.ITIMER_REAL, max(1, min(left or TIME, TIME, START + TOTAL - t0)))
        try:
            f(self)
        except Unsupported as x:
            self.put(name + '/analysis', 'undecided', 'not modelled: %s' % x)
        except Missing as x:
            self.put(name + '/anchor', 'undecided', str(x))
        except Exception as x:
            if os.environ.get('GAMMA_DEBUG'):
                raise
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.put(name + '/analysis', 'undecided', 'internal: %r at %s:%d' % (x, os.path.basename(tb.filename), tb.lineno))
        finally:
            signal.setitimer(signal.ITIMER_REAL, max(1, left - (time.time() - t0)) if left else 0)

    def put(self, name, status, detail='', st=None):
        self.obs.append({'name': name, 'status': status, 'fn': self.fn, 'detail': detail,
                         'path': [show(f if v else f_not(f)) for f, v in st.path][:40] if st is not None else []})

    def ob(self, name, cond, eng=None, st=None, vals=(), detail='', through=False):
        again = None
        if callable(cond):
            again, cond = cond, cond(eng, st, *vals)
        if cond:
            self.put(name, 'ok')
            return True
        t = tainted(eng, st, [v for v in vals if isinstance(v, tuple)], through)
        if t and again and no_turns(eng, st, vals, again):
            t = None
        if t and ORDERED.search(name) and any(isinstance(v, tuple) and mixed(eng, v) for v in vals):
            t = None
        if not t and not self.far and eng is not None and st is not None:
            t = unmeasured(eng, st, vals, again)
        d = detail + ''.join('\n    got/want: ' + show(v)[:1500] for v in vals if isinstance(v, tuple))
        if t:
            self.put(name, 'undecided', t + '; ' + d, st)
        else:
            self.put(name, 'fail', d, st)
        return False


def load_known():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                m = re.match(r'finding:\s+property=(\S+)\s+obligation=(\S+)\s+fn=(\S+)\s*(.*)', l)
                if m:
                    out.append(m.groups())
    return out


def check(pid, rules):
    """rules: pid -> (list of (group name, function), list of name regexes)"""
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='gamma-sa-')
    try:
        dump = make_dump(work)
        groups, pats, about, via = rules[pid]
        pats = list(pats)
        cx = Cx(dump)
        cx.work = work
        cx.repo = REPO
        groups = list(groups)
        ran = set()
        while groups:
            name, f = groups.pop(0)
            if name not in ran:
                ran.add(name)
                cx.group(name, f)
            if not groups:
                # obligations of operations that were taken by their contracts
                used = {u for e in cx.engines for u in e.contract.used}
                for v in list(via):
                    if any(re.match(v[0], u) for u in used):
                        via.remove(v)
                        groups.append(v[1])
                        pats.extend('^(?:%s)' % p for p in v[2])
        rx = re.compile('|'.join('(?:%s)' % p for p in pats))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    obs = [o for o in cx.obs if rx.search(o['name']) or o['name'].endswith(('/analysis', '/anchor'))]
    fails = [o for o in obs if o['status'] == 'fail']
    und = [o for o in obs if o['status'] == 'undecided']
    known = [k for k in load_known() if k[0] == pid]
    new = []
    for o in fails:
        k = next((k for k in known if k[1] == o['name'] and k[2] == (o['fn'] or '').replace(' ', '')), None)
        if k:
            print('KNOWN-FINDING: property=%s %s in %s %s' % (pid, o['name'], o['fn'], k[3]))
        else:
            new.append(o)
    evid = os.path.join(ROOT, 'evidence')
    os.makedirs(evid, exist_ok=True)
    names = sorted({o['name'] for o in obs})
    cov = {
        'explanation': about,
        'obligations': len(obs),
        'discharged': sum(o['status'] == 'ok' for o in obs),
        'undecided': [{'obligation': o['name'], 'fn': o['fn'], 'why': o['detail'][:400]} for o in und],
        'rules_applied': names,
        'functions_analysed': sorted({f for e in cx.engines for f in e.analysed}),
        'paths_analysed': cx.paths,
        'blocks_analysed': sum(e.steps for e in cx.engines),
        'loops_summarised': sum(len(e.recs) for e in cx.engines),
        'contracts_used': merge_counts(e.contract.used for e in cx.engines),
        'unmodelled_calls': sorted({u for e in cx.engines for u in e.unmodelled}),
    }
    cov.update(getattr(cx, 'extra', {}))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    with open(os.path.join(evid, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for o in und:
        print('UNDECIDED %s in %s: %s' % (o['name'], o['fn'], o['detail'].split('\n')[0][:300]))
    rep = os.path.join(evid, pid + '.violation.txt')
    try:
        os.remove(rep)
    except FileNotFoundError:
        pass
    if new:
        with open(rep, 'w') as f:
            for o in new:
                f.write('obligation %s\n  function %s\n  %s\n' % (o['name'], o['fn'], o['detail']))
                if o['path']:
                    f.write('  on the path where\n' + ''.join('    %s\n' % p for p in o['path']))
                f.write('\n')
        for o in new[:8]:
            print('  %s: %s in %s' % (pid, o['name'], o['fn']))
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    print('%s: %d obligations, %d discharged, %d undecided, %d paths, %.1f s' % (pid, len(obs), cov['discharged'], len(und), cx.paths, time.time() - t0))
    return 0


def merge_counts(ds):
    out = {}
    for d in ds:
        for k, v in d.items():
            out[k] = out.get(k, 0) + v
    return out


ASSUME = [
    'the standard library behaves as documented (its functions are modelled, not analysed)',
    'the compiler translates the MIR it dumps faithfully',
    'lengths and positions of containers are far below usize::MAX',
]
