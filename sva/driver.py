"""Build the analysed program from /repo's working tree and run scenarios."""
import glob
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import terms as D
from .ir import Module
from .machine import Machine, IRThrow, PathDead, Unresolved
from . import models
from .models import NeedParam

REPO = os.environ.get('SVA_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = 'clang++'
FLAGS = ['-std=c++20', '-O0', '-gline-tables-only', '-DNDEBUG', '-Xclang', '-disable-O0-optnone',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-S', '-emit-llvm', '-fno-discard-value-names']


class BuildError(Exception):
    pass


def build(harness, workdir, defs=()):
    srcs = sorted(glob.glob(REPO + '/src/*.cpp'))
    if len(srcs) < 1:
        raise BuildError('no sources under %s/src' % REPO)
    jobs = []
    cache = os.environ.get('SVA_CACHE')          # development only (tools/mutate.py): keep the IR of unchanged files
    heads = ''.join(open(h, encoding='latin-1').read() for h in sorted(glob.glob(REPO + '/include/*') + glob.glob(HERE + '/harness/*.h*'))) if cache else ''
    for s in srcs + [os.path.join(HERE, 'harness', h) for h in harness]:
        o = os.path.join(workdir, os.path.basename(s) + '.ll')
        cmd = [CXX] + FLAGS + list(defs) + ['-I' + REPO + '/include', '-I' + HERE + '/harness', '-I' + HERE + '/harness/pystub', '-DSVA_PYBIND="%s/src/pybind/pybind.cpp"' % REPO, s, '-o', o]
        k = None
        if cache and 'C30' not in s:
            k = os.path.join(cache, hashlib.sha256((heads + open(s, encoding='latin-1').read() + ' '.join(cmd[:-1])).encode()).hexdigest())
            if os.path.exists(k):
                shutil.copyfile(k, o)
                jobs.append((s, o, None, None))
                continue
        jobs.append((s, o, k, subprocess.Popen(cmd, stderr=subprocess.PIPE, stdout=subprocess.DEVNULL)))
    outs = []
    for s, o, k, p in jobs:
        if p is None:
            outs.append(o)
            continue
        err = p.communicate()[1].decode('utf8', 'replace')
        if p.returncode:
            raise BuildError('clang++ failed on %s:\n%s' % (s, err[:3000]))
        if k:
            shutil.copyfile(o, k + '.%d' % os.getpid())
            os.replace(k + '.%d' % os.getpid(), k)
        outs.append(o)
    own = shared_names(outs[:len(srcs)])
    json.dump(own, open(os.path.join(workdir, 'globals.json'), 'w'))
    json.dump(new_constants(outs[:len(srcs)]), open(os.path.join(workdir, 'consts.json'), 'w'))
    allbc = os.path.join(workdir, 'all.bc')
    subprocess.run(['llvm-link'] + outs + ['-o', allbc], check=True)
    allll = os.path.join(workdir, 'all.ll')
    subprocess.run(['opt', '-passes=function(sroa,early-cse,simplifycfg),globaldce', allbc, '-S', '-o', allll], check=True)
    return allll, srcs


CONST = re.compile(r'\bi(?:8|16|32|64) (?:%[-\w.$]+, )?(-?\d+)\b')


NARROW = re.compile(r' = trunc i(?:16|32|64) \S+ to i(8|16)\b')


def constants(files):
    """integer constants of the repository's own functions: value -> number of uses"""
    out = {}
    for f in files:
        own = False
        for line in open(f, encoding='latin-1'):
            if line.startswith('define'):
                mt = re.search(r'@("[^"]*"|[-\w.$]+)\(', line)
                own = bool(mt) and 'sedaman' in mt.group(1) and not re.match(r'"?_ZN?K?St', mt.group(1))
            elif line.startswith('}'):
                own = False
            elif own and ' = alloca' not in line and 'getelementptr' not in line and '@llvm.' not in line and 'Exception' not in line:
                mt = NARROW.search(line)
                if mt:          # a count that is cut to 8 or 16 bits turns over there
                    for c in (128, 256) if mt.group(1) == '8' else (32768, 65536):
                        out[c] = out.get(c, 0) + 1
                for c in CONST.findall(line.split(', !dbg')[0]):
                    c = abs(int(c))
                    if 3 <= c <= 1 << 20:
                        out[c] = out.get(c, 0) + 1
    return out


def new_constants(files):
    """constants that the source uses more often than the tree the partitions were chosen for"""
    try:
        base = {int(k): v for k, v in json.load(open(os.path.join(HERE, 'sva', 'consts.json'))).items()}
    except OSError:
        base = {}
    return sorted(c for c, n in constants(files).items() if n > base.get(c, 0))


def shared_names(files):
    """names of the writable objects of static storage duration that the repository's sources define"""
    out = set()
    for f in files:
        for line in open(f, encoding='latin-1'):
            if line.startswith('@'):
                mt = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)', line)
                if mt and re.search(r'(^|\s)global\s', mt.group(2)) and 'external' not in mt.group(2).split('global')[0].split():
                    out.add(mt.group(1))
    return sorted(out)


def watch(m, own):
    """remember the state of the shared objects after static initialisation"""
    own = set(own)
    base = lambda n: re.sub(r'\.\d+$', '', n)
    names = [n for n in m.mod.globals if (n in own or base(n) in own) and re.search(r'(^|\s)global\s', m.mod.globals[n])]
    dem = subprocess.run(['c++filt'] + [n[1:].strip('"') for n in names], capture_output=True, text=True).stdout.split('\n') if names else []
    m.watched = []
    for n, d in zip(names, dem):
        q = re.sub(r'^guard variable for ', '', d)
        if 'sedaman' not in q and re.match(r'(std|__gnu_cxx|__cxxabiv1|vtable|typeinfo|__)', q):
            continue
        i = m.gaddr(n) >> 32
        o = m.obj(i)
        if o is not None and o.kind == 'global':
            m.watched.append((n, d, i, m.read_bytes(i << 32, o.size)))


def shared_writes(m):
    """shared objects whose contents a run of public operations changed, other than by guarded one-time initialisation"""
    ch, guards = [], set()
    for n, d, i, old in m.watched:
        o = m.obj(i)
        new = m.read_bytes(i << 32, o.size)
        if any(not (a is b or a == b or D.same(a, b, 8)) for a, b in zip(old, new)):
            if d.startswith('guard variable for '):
                guards.add(d[len('guard variable for '):])
            else:
                ch.append(d)
    return [d for d in ch if d not in guards]


def load(allll):
    text = open(allll, encoding='latin-1').read()
    mod = Module(text)
    m = Machine(mod, REPO.rstrip('/') + '/')
    models.install(m)
    # static initialisation
    g = mod.globals.get('@llvm.global_ctors')
    if g:
        names = re.findall(r'ptr (@(?:"[^"]*"|[-\w.$]+)), ptr null', g)
        for n in names:
            m.FN[n]()
    gl = os.path.join(os.path.dirname(allll), 'globals.json')
    m.shared = json.load(open(gl)) if os.path.exists(gl) else []
    nc = os.path.join(os.path.dirname(allll), 'consts.json')
    m.newconsts = json.load(open(nc)) if os.path.exists(nc) else []
    return m


def scenarios(m, prefix):
    out = []
    for n in m.mod.fn_text:
        if re.match('@sc_%s(_|$)' % prefix, n):
            out.append(n[1:])
    return sorted(out)


def run_one(m, fn, params, tier):
    """analyse one scenario partition; returns a plain dict"""
    t0 = time.time()
    m.params = params
    m.obl = []
    m.events = []
    m.maythrow = []
    m.catches = []
    m.opens = []
    m.filelog = []
    m.masks = []
    m.notes = []
    m.covered = {}
    m.forks = m.joins = 0
    s0 = m.steps
    m.max_steps = s0 + (30_000_000 if tier == 'quick' else 200_000_000)
    m.nwit = 48 if tier == 'quick' else 400
    res = dict(scenario=fn, params=dict(params), status='ok', detail='')
    try:
        m.FN['@' + fn]()
    except IRThrow as e:
        res['status'] = 'throw'
        w = getattr(e, 'where', None)
        res['detail'] = 'exception %s leaves the scenario, thrown at %s' % (e.tname, '%s:%d (%s)' % w if w else '?')
        res['where'] = w
    except PathDead as e:
        res['status'] = 'dead'
        res['detail'] = str(e)
    except Unresolved as e:
        res['status'] = 'unresolved'
        w = m.where()
        res['detail'] = '%s [at %s:%d (%s)]' % (str(e), w[0], w[1], w[2])
    except NeedParam as e:
        return ('param', e.name, e.lo, e.hi)
    except RecursionError:
        res['status'] = 'unresolved'
        res['detail'] = 'recursion limit of the analysis'
    if getattr(m, 'watched', None) and res['status'] in ('ok', 'throw'):
        m.obl.append(dict(label='no shared object is changed', result='equal', got='', want='', witness=None, where=None))
        for d in shared_writes(m):
            m.obl.append(dict(label='shared object %s' % d, result='differ', got='changed by operations on separate objects', want='unchanged', witness=None,
                              where=('', 0, d)))
    res['obl'] = m.obl
    evs = []
    for e in m.events:
        f = e.pop('facts')
        if e['kind'] == 'possible-oob' or f:
            if f and D.satisfiable_witness(f) is None:
                e['open'] = True
        evs.append(e)
    res['events'] = evs
    mt = []
    for e in m.maythrow:
        wit = D.satisfiable_witness(e['facts'])
        mt.append(dict(tname=e['tname'], where=e['where'], witness=wit))
    res['maythrow'] = mt
    res['catches'] = list(m.catches)
    res['opens'] = [(a, b) for a, b, c in m.opens]
    res['masks'] = list(m.masks)
    res['notes'] = list(m.notes)
    res['covered'] = dict(m.covered)
    res['forks'] = m.forks
    res['joins'] = m.joins
    res['blocks'] = m.steps - s0
    res['time'] = time.time() - t0
    return ('done', res)


_M = None
_WARM = set()


def _child(q, fn, params, tier, conn):
    try:
        r = run_one(_M, fn, params, tier)
    except Exception as e:        # defect of the analysis itself
        import traceback
        r = ('error', dict(scenario=fn, params=params, status='error', detail=traceback.format_exc()[-3000:]))
    conn.send((r, [n for n in _M.funcs if n not in _WARM]))
    conn.close()
    os._exit(0)


def run_all(m, prefix, tier, only=None, jobs=None, timeout=600, bad=None, part_limit=150):
    """every scenario of a property, every partition; forks one process per partition"""
    global _M
    _M = m
    jobs = jobs or min(8, os.cpu_count() or 4)
    sys.setrecursionlimit(200000)
    todo = [(s, {}) for s in scenarios(m, prefix) if only is None or only in s]
    results = []
    running = {}
    deadline = time.time() + timeout
    while todo or running:
        while todo and len(running) < jobs:
            s, prm = todo.pop(0)
            a, b = mp.Pipe(False)
            pid = os.fork()
            if pid == 0:
                a.close()
                _child(None, s, prm, tier, b)
            b.close()
            running[pid] = (a, s, prm, time.time())
        got = []
        from multiprocessing.connection import wait
        for c in wait([x[0] for x in running.values()], timeout=5):
            for pid, x in list(running.items()):
                if x[0] is c:
                    try:
                        r, names = c.recv()
                        for n in names:
                            m.warm(n)
                            _WARM.add(n)
                    except EOFError:
                        r = ('error', dict(scenario=x[1], params=x[2], status='error', detail='analysis process died'))
                    c.close()
                    os.waitpid(pid, 0)
                    del running[pid]
                    if r[0] == 'param':
                        for v in range(r[2], r[3]):
                            p = dict(x[2])
                            p[r[1]] = v
                            todo.append((x[1], p))
                    else:
                        results.append(r[1])
                        if bad is not None and bad(r[1]):
                            deadline = min(deadline, time.time() + (0 if os.environ.get('SVA_CACHE') else 30))   # a refuted obligation settles the run
        for pid, x in list(running.items()):
            if time.time() - x[3] > part_limit:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                x[0].close()
                del running[pid]
                results.append(_none(x[1], x[2], 'time limit of a partition'))
        if time.time() > deadline:
            for pid, x in running.items():
                os.kill(pid, 9)
                os.waitpid(pid, 0)
                results.append(_none(x[1], x[2], 'time limit'))
            for s, prm in todo:
                results.append(_none(s, prm, 'time limit'))
            break
    return results


def _none(s, prm, why):
    return dict(scenario=s, params=prm, status='unresolved', detail=why, obl=[], events=[], maythrow=[], catches=[], covered={},
                forks=0, joins=0, blocks=0, time=0, opens=[], masks=[], notes=[])
