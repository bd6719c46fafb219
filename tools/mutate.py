#!/usr/bin/env python3
"""Mutation campaign (development tool): random small edits, which check reports them?  mutate.py SEED COUNT [file...]"""
import os, random, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {
 'src/ISEGY.cpp': 'C01 C03 C05 C07 C26 C08 C13 C12 C11 C09 C27',
 'src/OSEGY.cpp': 'C02 C04 C06 C12 C08 C11 C26 C27',
 'src/OSEGYRev0.cpp': 'C09 C02 C08 C12 C04 C11 C26',
 'src/OSEGYRev1.cpp': 'C09 C02 C08 C12 C04 C11 C26',
 'src/OSEGYRev2.cpp': 'C09 C02 C08 C12 C04 C11 C26',
 'src/CommonSEGY.cpp': 'C14 C10 C11 C09 C01 C02 C26 C08',
 'src/ISEGYSorted1D.cpp': 'C13',
 'src/Trace.cpp': 'C25 C03',
 'src/Exception.cpp': 'C26',
 'src/ISEGD.cpp': 'C15 C16 C17 C18 C20 C19 C21 C24',
 'src/OSEGD.cpp': 'C22 C23 C31 C24',
 'src/OSEGDRev2_1.cpp': 'C22 C23 C24',
 'src/CommonSEGD.cpp': 'C28 C18 C19 C22 C24 C15',
 'include/util.hpp': 'C29 C05 C06 C20 C23 C01 C03',
 'include/CommonSEGD.hpp': 'C28 C15 C17 C18 C22',
 'include/CommonSEGY.hpp': 'C14 C01 C05',
 'include/Trace.hpp': 'C25',
}
def body(t):
    """positions outside comments, strings and preprocessor lines"""
    keep = [True] * len(t)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|^\s*#[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\])\'', t, re.S | re.M):
        for i in range(m.start(), m.end()):
            keep[i] = False
    return keep
OPS = [(r'(?<![<>=!\-+&|*/])<(?![<=>])', ['<=']), (r'<=', ['<']), (r'(?<![->])>(?![>=])', ['>=']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<=[\w)] )\+(?= )', ['-']), (r'(?<=[\w)] )-(?= )', ['+']), (r'(?<=[\w)] )\*(?= )', ['/']), (r'(?<=[\w)] )/(?= )', ['*']),
       (r'\+\+', ['--']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', None),
       (r'\bint16_t\b', ['uint16_t']), (r'\bint32_t\b', ['uint32_t']),
       (r'^[ \t]+[\w.\->\[\]():*+]+(?: [-+*|&]?= [^;{}\n]+|\([^;{}\n]*\));$', ['']), (r'\bcontinue;|\bbreak;', ['']), (r'(?<=[ (])!(?=\w)', ['']), (r'(?<= )\?(?= )', ['&& false ?'])]
def mutants(path):
    t = open(path).read()
    keep = body(t)
    out = []
    for rx, rep in OPS:
        for m in re.finditer(rx, t, re.M):
            if not all(keep[m.start():m.end()][:1]):
                continue
            if 'template' in t[t.rfind('\n', 0, m.start()) + 1:m.start()] or '#include' in t[t.rfind('\n', 0, m.start()) + 1:m.end()]:
                continue
            if rep is None:
                v = int(m.group(0), 0)
                rs = [str(v + 1)] + ([str(v - 1)] if v else [])
            elif rep == 'ru': rs = ['read_i' + m.group(1)]
            elif rep == 'ri': rs = ['read_u' + m.group(1)]
            elif rep == 'wu': rs = ['write_i' + m.group(1)]
            elif rep == 'wi': rs = ['write_u' + m.group(1)]
            else: rs = rep
            for r in rs:
                out.append((m.start(), m.end(), r))
    return t, out
def main():
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or list(ORDER)
    rnd = random.Random(seed)
    allm = []
    for f in files:
        t, ms = mutants('/repo/' + f)
        allm += [(f, m) for m in ms]
    print(len(allm), 'mutants possible', flush=True)
    rnd.shuffle(allm)
    W = '/tmp/mut%d' % seed
    C = W + '.cache'
    os.makedirs(C, exist_ok=True)
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    for d in ('src', 'include'):
        shutil.copytree('/repo/' + d, W + '/' + d)
    done = caught = 0
    for f, (a, b, r) in allm:
        if done >= count:
            break
        t = open('/repo/' + f).read()
        new = t[:a] + r + t[b:]
        open(W + '/' + f, 'w').write(new)
        cc = [f] if f.startswith('src') else ['src/ISEGD.cpp', 'src/ISEGY.cpp', 'src/CommonSEGD.cpp']
        ok = all(subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-Wall', '-Wextra', '-pedantic', '-Werror', '-I' + W + '/include', W + '/' + c], capture_output=True).returncode == 0 for c in cc)
        line = t.count('\n', 0, a) + 1
        src = t.split('\n')[line - 1].strip()
        def ir(d):
            q = subprocess.run(['clang++', '-std=c++20', '-O2', '-g0', '-S', '-emit-llvm', '-o', '-', '-I' + d + '/include', d + '/' + cc[0]], capture_output=True, text=True, cwd=d).stdout
            return q.replace(d, '')
        if ok and ir(W) == ir('/repo'):
            ok = False
        if ok:
            done += 1
            res = None
            t0 = time.time()
            for p in ORDER[f].split():
                q = subprocess.run([sys.executable, H + '/check.py', p], capture_output=True, text=True, env=dict(os.environ, SVA_REPO=W, SVA_CACHE=C, SVA_EVIDENCE=C))
                if q.returncode == 1:
                    res = p
                    break
                if q.returncode == 2:
                    print('   exit 2 of', p, q.stdout[-300:], flush=True)
            caught += res is not None
            print('%-8s %s:%d  [%s -> %s]  %s  (%.0f s)' % (res or 'SURVIVES', f, line, t[a:b].strip(), r, src[:110], time.time() - t0), flush=True)
        open(W + '/' + f, 'w').write(t)
    print('caught %d of %d' % (caught, done))
    shutil.rmtree(W)
    shutil.rmtree(C)
main()
