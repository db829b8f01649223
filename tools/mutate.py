#!/usr/bin/env python3
"""Mechanical mutation of the library (in a scratch clone) to find blind spots of the checks.
usage: mutate.py REPO VERIF LOG SEED N [file-regex]     (never run on /repo itself)"""
import os, random, re, subprocess, sys, time
repo, verif, log, seed, n = sys.argv[1:6]; pat = sys.argv[6] if len(sys.argv) > 6 else '.'
assert not os.path.abspath(repo).startswith('/repo')
R = repo + '/ntl-extras'
MAP = [(r'multiply_naive|multiply_transform|multiply_3|multiply_evaluate|mat_lzz_pX_multiply\.|lmultiplier', ['C01', 'C22', 'C02']), (r'middle_product|t_multiply', ['C02']),
  (r'mat_lzz_pX_arith|mat_lzz_pX_utils', ['C03', 'C01', 'C12']), (r'forms', ['C04', 'C05']), (r'pmbasis_generic', ['C05']), (r'pmbasis\.|approximant', ['C05', 'C21', 'C07']), (r'interpolant', ['C06', 'C21', 'C20']),
  (r'kernel', ['C07', 'C21']), (r'inv_trunc', ['C08']), (r'linsolve', ['C08', 'C09']), (r'determinant', ['C10']), (r'division|reduction', ['C11']), (r'linearization', ['C12']),
  (r'Multipoint|Transform', ['C13', 'C01']), (r'lzz_pX_CRT\.cpp', ['C14']), (r'structured_lzz_p/', ['C15', 'C16']), (r'structured_lzz_pX/', ['C17']), (r'lzz_pXY', ['C18']), (r'lzz_pX_seq', ['C19']),
  (r'sequence', ['C20']), (r'lzz_pX_extra/src/lzz_pX_extra|lzz_p_extra|vec_lzz_p', ['C23', 'C08', 'C03']), (r'output', ['C24'])]
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r'\+ ?1\b', '+2'), (r'\+ ?1\b(?!\.)', '+0'), (r'- ?1\b', '-0'), (r'- ?1\b', '-2'),
  (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bdA\b', 'dB'), (r'\bdB\b', 'dA'), (r'\badd\(', 'sub('), (r'\bsub\(', 'add('), (r' \+= ', ' -= '), (r' -= ', ' += '),
  (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r'\[i\]\[j\]', '[j][i]'), (r'/ ?2\b', '/2+1'), (r'\bif \(&\w+ ?== ?&\w+\)', 'if (false)'),
  (r'\bNumRows\(\)', 'NumCols()'), (r'\bNumCols\(\)', 'NumRows()'), (r'\bNextPowerOfTwo\(', '-1+NextPowerOfTwo('), ('DEL', '')]
def code_lines(src):
    out = []; com = False
    for k, l in enumerate(src):
        t = l.strip()
        if com:
            if '*/' in t: com = False
            continue
        if t.startswith('/*'):
            if '*/' not in t: com = True
            continue
        if not t or t.startswith('//') or t.startswith('#') or 'cout' in t or 'LogicError' in t or 'throw' in t or 'cerr' in t or not l.startswith(' '): continue
        out.append(k)
    return out
def mutants(f, rng):
    src = open(f).read().split('\n'); ms = []
    for k in code_lines(src):
        c = src[k].split('//')[0]
        for a, b in OPS:
            if a == 'DEL':
                if re.match(r'^\s+[\w\[\]\.\->]+( ?[\+\-\*]?= |\().*;\s*$', c) and not re.match(r'^\s+(return|long|const|for|if|while|zz_p|Vec|Mat)', c): ms.append((k, src[k], re.sub(r'\S.*', ';', c)))
                continue
            for m in re.finditer(a, c): ms.append((k, src[k], c[:m.start()] + re.sub(a, b, m.group(0)) + c[m.end():]))
    return src, ms
files = subprocess.check_output("ls %s/*/src/*.cpp" % R, shell=True, text=True).split()
files = [f for f in files if re.search(pat, f) and not re.search('hermite|/util/', f)]
rng = random.Random(int(seed)); pool = []
for f in files:
    src, ms = mutants(f, rng); pool += [(f, m) for m in ms]
rng.shuffle(pool)
done = 0; L = open(log, 'a')
for f, (k, old, new) in pool:
    if done >= int(n): break
    if old.strip() == new.strip(): continue
    src = open(f).read(); lines = src.split('\n')
    if lines[k] != old: continue
    lines[k] = new; open(f, 'w').write('\n'.join(lines))
    checks = next((c for p, c in MAP if re.search(p, f)), [])
    t0 = time.time(); res = 'SURVIVED'
    try:
        r = subprocess.run(['make', '-f', verif + '/build.mk', '-s', '-j8', 'R=' + R, 'lib'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r.returncode: res = 'nocompile'
        else:
            for c in checks:
                try:
                    p = subprocess.run([verif + '/bin/check', c], cwd=verif, env=dict(os.environ, R=R), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
                    if p.returncode == 1: res = 'killed ' + c; break
                    if p.returncode == 2: res = 'error ' + c; break
                except subprocess.TimeoutExpired:
                    subprocess.call(['pkill', '-f', verif + '/build/drv_']); res = 'timeout ' + c; break
    finally: open(f, 'w').write(src)
    if res != 'nocompile': done += 1
    L.write('%s | %s:%d | %s  ==>  %s | %.0fs\n' % (res, f[len(R) + 1:], k + 1, old.strip(), new.strip(), time.time() - t0)); L.flush()
