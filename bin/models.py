"""TLC models attached to each property and the cases they export.

run() explores the models of one property with TLC and returns
  states: (generated, distinct)   info: one record per model
  cases:  files of model-generated cases, one per line, for the driver
"""
import hashlib, os, re
from concurrent.futures import ThreadPoolExecutor
SPEC = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/spec'

def cfg(W, name, consts, invs=(), extra=()):
    f = '%s/%s.cfg' % (W, name)
    with open(f, 'w') as h:
        h.write('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n')
        for i in invs: h.write('INVARIANT %s\n' % i)
        for x in extra: h.write(x + '\n')
        if consts: h.write('CONSTANTS\n')
        for k, v in consts.items(): h.write('  %s = %s\n' % (k, '"%s"' % v if isinstance(v, str) else v))
    return f

def session(W, seed, deep, T, opts):
    r = []; every = []
    for mode in ('pairs', 'alias', 'random'):
        c = cfg(W, 'Session_' + mode, {'Mode': mode, 'Depth': 30 if deep else 16, 'NSess': 6000 if deep else 500, 'Seed': seed % 60}, ('TypeOK', 'Export'))
        lines, st = T('Session.tla', c, r'^"SESSION ([^"]*)"$')
        if mode == 'pairs' and not deep: lines = [l for k, l in enumerate(sorted(lines)) if k % (3 if ' small small ' in l else opts['thin']) == seed % (3 if ' small small ' in l else opts['thin'])]
        every += sorted(lines)
        r.append((None, st, {'model': 'Session', 'mode': mode, 'states': st[1], 'cases': len(lines)}))
    f = W + '/sessions.txt'
    open(f, 'w').write('\n'.join(every) + '\n')
    r[-1] = (f,) + r[-1][1:]
    return r

def small(W, seed, deep, T, fams):
    r = []
    for which, want in fams:
        c = cfg(W, 'Small_' + which, {'Which': which}, ('Export',))
        lines, st = T('Small.tla', c, r'^"CASE ([^"]*)"$')
        lines = sorted(lines, key=lambda l: hashlib.md5(('%d %s' % (seed, l)).encode()).digest())
        n = len(lines)
        if not deep: lines = lines[:want]
        f = '%s/small_%s.txt' % (W, which)
        open(f, 'w').write('\n'.join(lines) + '\n')
        r.append((f, st, {'model': 'Small', 'family': which, 'states': st[1], 'cases': len(lines), 'of': n}))
    return r

SMALL = {'C01': [('pairs', 700)], 'C02': [('pairs', 1200)], 'C04': [('forms', 700)], 'C05': [('bases', 900)], 'C06': [('points', 900)], 'C07': [('bases', 2400)],
         'C08': [('square', 1500)], 'C09': [('systems', 2500)], 'C10': [('square', 1000)], 'C11': [('square', 1500), ('division', 2500)], 'C12': [('forms', 1200), ('pairs', 1200)],
         'C13': [('nodes', 700)], 'C14': [('moduli', 1500)], 'C15': [('lines', 700)], 'C16': [('twopolys', 700), ('mosaics', 700)], 'C17': [('plines', 700)], 'C18': [('bivar', 900)],
         'C19': [('sequences', 400)], 'C20': [('powers', 1500)], 'C24': [('forms', 500)], 'C21': [('candidates', 1800)]}

def orderbasis(W, seed, deep, T, kind, cut, dcut):
    """the transition system of OrderBasis; its terminal states are cases with predicted degrees"""
    c = cfg(W, 'OrderBasis_' + kind, {'Kind': kind, 'Cut': dcut if deep else cut, 'Seed': seed % 1000}, ('BasisSoFar', 'Minimal', 'KernelAtEnd', 'Export'))
    lines, st = T('OrderBasis.tla', c, r'^"CASE ([^"]*)"$', workers=4 if deep else 1)
    lines = sorted(set(lines))
    f = '%s/orderbasis_%s.txt' % (W, kind)
    open(f, 'w').write('\n'.join(lines) + '\n')
    return [(f, st, {'model': 'OrderBasis', 'kind': kind, 'fraction': '1/%d' % (dcut if deep else cut), 'states': st[1], 'cases': len(lines)})]

ORDERBASIS = {'C05': ('app', 15, 1), 'C06': ('int', 10, 1), 'C07': ('ker', 90, 6)}

def equiv(W, seed, deep, T, pid):
    """the compiled operators against the TLA+ definitions of Algebra"""
    src = open(SPEC + '/Algebra.tla').read().replace('MODULE Algebra ', 'MODULE PureAlgebra ')
    os.makedirs(W + '/pure', exist_ok=True); open(W + '/pure/PureAlgebra.tla', 'w').write(src)
    c = cfg(W, 'AlgebraEquiv', {'N': 200 if deep else 2, 'Seed': (31 * seed + int(pid[1:])) % 60000}, ('Agree',))
    _, st = T('AlgebraEquiv.tla', c, jvm=('-DTLA-Library=' + W + '/pure',))
    return [(None, st, {'model': 'AlgebraEquiv', 'what': 'compiled operators = TLA+ definitions', 'states': st[1]})]

def oracle(W, seed, deep, T, what, cut, dcut):
    """the characterisations of PmlForms/PmlBases against the definitions, exhaustively on tiny domains"""
    c = cfg(W, 'Oracle_' + what, {'What': what, 'Cut': dcut if deep else cut, 'Seed': seed % 1000}, ('Sound',))
    _, st = T('Oracle.tla', c, workers=4 if deep else 1)
    return [(None, st, {'model': 'Oracle', 'what': what, 'fraction': '1/%d' % (dcut if deep else cut), 'states': st[1]})]

ORACLE = {'C04': [('reduced', 8, 1)], 'C05': [('app', 40, 1), ('popov', 40, 1)], 'C06': [('int', 40, 1)], 'C07': [('ker2', 4, 1), ('ker3', None, 4)], 'C21': [('app', 40, 1), ('int', 40, 1), ('ker2', 4, 1)],
          'C11': [('reduced', 8, 1)], 'C20': [('app', 40, 1)]}

def tasks(pid, W, seed, deep, T):
    ts = [lambda: equiv(W, seed, deep, T, pid)]
    if pid == 'C22': ts.append(lambda: session(W, seed, deep, T, {'thin': 10}))
    if pid in SMALL: ts.append(lambda: small(W, seed, deep, T, SMALL[pid]))
    if pid in ORDERBASIS: ts.append(lambda: orderbasis(W, seed, deep, T, *ORDERBASIS[pid]))
    for o in ORACLE.get(pid, []):
      if deep or o[1]: ts.append(lambda o=o: oracle(W, seed, deep, T, *o))
    return ts

def run(pid, deep, W, tlc, stats, CheckError, seed=1):
    res = {'states': (0, 0), 'info': [], 'cases': [], 'violations': []}
    def T(module, c, pat=None, workers=1, jvm=()):
        rc, out = tlc(module, c, W, workers=workers, mem='4g', jvm=jvm, timeout=3000 if deep else 850)
        if rc: raise CheckError('model %s: TLC exit %d\n%s' % (module, rc, out[-3000:]))
        return (re.findall(pat, out, re.M) if pat else []), stats(out)
    with ThreadPoolExecutor(4) as ex: rs = [f.result() for f in [ex.submit(t) for t in tasks(pid, W, seed, deep, T)]]
    for f, st, info in sum(rs, []):
        if f: res['cases'].append(f)
        res['info'].append(info)
        res['states'] = (res['states'][0] + st[0], res['states'][1] + st[1])
    return res
