"""Check driver: python -m dv.run PROPERTY [--tier quick|thorough]."""
import argparse
import importlib
import inspect
import json
import os
import random
import sys
import time
import traceback
import warnings

os.environ.setdefault('TF_USE_LEGACY_KERAS', '1')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('PYTHONHASHSEED', '0')
warnings.filterwarnings('ignore')

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from dv import core  # noqa
from dv import api  # noqa

import logging
logging.disable(logging.ERROR)


def target_loc(t):
  """module:Qual.name -> description with source lines (measured from /repo now)."""
  mod, _, q = t.partition(':')
  try:
    m = importlib.import_module('tensorflow_model_optimization.python.core.' + mod)
    o = m
    for part in q.split('.'):
      o = inspect.getattr_static(o, part) if isinstance(o, type) else getattr(o, part)
    if isinstance(o, (staticmethod, classmethod)):
      o = o.__func__
    if isinstance(o, property):
      o = o.fget
    o = inspect.unwrap(o)
    src, ln = inspect.getsourcelines(o)
    f = inspect.getsourcefile(o)
    return {'function': t, 'file': os.path.relpath(f, REPO), 'line': ln, 'lines': len(src)}
  except Exception as e:  # pylint: disable=broad-except
    return {'function': t, 'missing': str(e)[:80]}


# --------------------------------------------------------------------------
def explore(c, opts):
  """All feasible paths of one contract."""
  from dv import shim
  obls = {}
  work = [[]]
  res = dict(paths=0, infeasible=0, unsupported=None, end_sat=0, end_unsat=0, end_unknown=0,
             raised=[], ops=set(), tfops=set(), missing=None)
  t0 = time.time()
  o = dict(timeout_ms=20000, deadline=t0 + opts.get('budget', 240))
  o.update(c.opts)
  o['tier'] = opts.get('tier', 'quick')
  maxp = c.opts.get('max_paths', 1000)
  while work:
    dec = work.pop()
    sc = core.SymCtx(c, dec, obls, o)
    core._CTX[0] = sc
    try:
      with shim.installed():
        try:
          c.fn(sc)
          r = sc.consistent(full=res['end_sat'] < 3)
          res['end_' + str(r)] = res.get('end_' + str(r), 0) + 1
        except core.PathEnd:
          res['infeasible'] += 1
        except core.Missing as e:
          res['missing'] = str(e)
        except core.Unsupported as e:
          res['unsupported'] = str(e) + ' @ ' + _where(e)
        except core.Skip:
          res['infeasible'] += 1
        except RecursionError as e:
          res['unsupported'] = 'recursion'
        except core.z3.Z3Exception as e:
          res['unsupported'] = 'solver term error: %s @ %s' % (str(e)[:100], _where(e))
        except Exception as e:  # the real code raised on an admissible input
          txt = '%s: %s @ %s' % (type(e).__name__, str(e)[:120], _where(e))
          if os.environ.get('DV_DEBUG'):
            traceback.print_exc()
          if _in_repo(e):
            res['raised'].append(txt)
            sc.prove('no_exception', False)
          else:
            res['unsupported'] = 'engine: ' + txt
    finally:
      sc.cleanup()
      core._CTX[0] = None
    res['ops'] |= sc.assumed_ops
    res['tfops'] |= sc.tfops
    res['paths'] += 1
    work.extend(sc.alts)
    if res['unsupported'] or res['missing']:
      break
    if res['paths'] > maxp:
      res['unsupported'] = 'more than %d paths' % maxp
      break
  res['wall'] = time.time() - t0
  if res['unsupported'] or res['missing']:
    # an incomplete exploration discharges nothing
    pass
  return obls, res


def _frames(e):
  return traceback.extract_tb(e.__traceback__)


def _where(e):
  fr = _frames(e)
  for f in reversed(fr):
    if 'tensorflow_model_optimization' in f.filename:
      return '%s:%d' % (os.path.relpath(f.filename, REPO), f.lineno)
  return '%s:%d' % (os.path.basename(fr[-1].filename), fr[-1].lineno) if fr else '?'


def _in_repo(e):
  """Raised by a `raise`/operation executed by repository code (not our engine)."""
  fr = _frames(e)
  if not fr:
    return False
  if not any('tensorflow_model_optimization' in f.filename for f in fr):
    return False
  last = fr[-1]
  if 'tensorflow_model_optimization' in last.filename:
    return not isinstance(e, (AttributeError, TypeError, NotImplementedError))
  # raised inside an op contract: only the declared error classes count
  return isinstance(e, (ValueError, IndexError)) or type(e).__name__ == 'InvalidArgumentError'


def run_concrete(c, rng, values=None, tier='quick'):
  import tensorflow as tf
  cc = core.ConcCtx(c, rng, values, tier)
  core._CTX[0] = cc
  try:
    try:
      c.fn(cc)
      return 'ok', None, cc
    except core.Skip:
      return 'skip', None, cc
    except core.Missing as e:
      return 'missing', str(e), cc
    except core.Unsupported as e:
      return 'unsupported', str(e), cc
    except core.PathEnd:
      return 'skip', None, cc
    except core.Violated as e:
      return 'violated', {'clause': e.clause, 'info': str(e.info),
                          'index': str(getattr(cc, 'last_idx', None))}, cc
    except Exception as e:  # pylint: disable=broad-except
      if os.environ.get('DV_DEBUG'):
        traceback.print_exc()
      return 'violated', {'clause': 'no_exception',
                          'info': '%s: %s @ %s' % (type(e).__name__, str(e)[:400], _where(e)),
                          'index': None}, cc
  finally:
    core._CTX[0] = None


def _jsonable(v):
  if isinstance(v, tuple):
    return [_jsonable(x) for x in v]
  if isinstance(v, list):
    return [_jsonable(x) for x in v]
  if isinstance(v, dict):
    return {str(k): _jsonable(x) for k, x in v.items()}
  if isinstance(v, (int, float, str, bool)) or v is None:
    return v
  return str(v)


def sweep(c, n, seed, tier, deadline):
  stats = dict(evaluations=0, skipped=0, clauses=0, distinct=0, samples=[], missing=None,
               unsupported=None)
  seen = set()
  tries = 0
  while stats['evaluations'] < n and tries < 4 * n + 20:
    if time.time() > deadline and stats['evaluations'] >= 1:
      stats['cut'] = True
      break
    rng = random.Random('%s/%s/%s/%d' % (c.prop, c.name, seed, tries))
    tries += 1
    r, info, cc = run_concrete(c, rng, None, tier)
    if r == 'skip':
      stats['skipped'] += 1
      continue
    if r == 'missing':
      stats['missing'] = info
      break
    if r == 'unsupported':
      stats['unsupported'] = info
      break
    stats['evaluations'] += 1
    stats['clauses'] += cc.clauses
    key = json.dumps(_jsonable(cc.used), sort_keys=True)
    if key not in seen and cc.clauses:
      seen.add(key)
      stats['distinct'] += 1
      if len(stats['samples']) < 2:
        stats['samples'].append(key[:400])
    if r == 'violated':
      return stats, (cc.used, info)
    if not cc.used:  # input-free contract
      break
  return stats, None


def write_replay(prop, c, kind, values, info, extra=None):
  d = os.path.join(VERIF, 'evidence', 'replay')
  os.makedirs(d, exist_ok=True)
  p = os.path.join(d, '%s-%s.json' % (prop, c.name))
  with open(p, 'w') as f:
    json.dump({'property': prop, 'contract': c.name, 'kind': kind,
               'targets': c.targets, 'values': _jsonable(values), 'failure': _jsonable(info),
               'verifier': _jsonable(extra or {}),
               'rerun': 'cd /verif && ./check.sh %s --replay %s' % (prop, p)}, f, indent=1)
  return p


def load_known():
  out = []
  p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
  if os.path.exists(p):
    for line in open(p):
      line = line.strip()
      if line.startswith('finding: '):
        # finding: property=<id> contract=<name> clause=<clause> match=<text> :: description
        head, _, desc = line[9:].partition(' :: ')
        kv = dict(x.split('=', 1) for x in head.split(' ') if '=' in x)
        kv['desc'] = desc
        out.append(kv)
  return out


def load_contracts(prop):
  api.CONTRACTS.clear()
  import pkgutil
  pk = os.path.join(VERIF, 'contracts')
  for m in sorted(os.listdir(pk)):
    if m.endswith('.py') and not m.startswith('_'):
      src = open(os.path.join(pk, m)).read()
      if "'%s'" % prop in src:
        importlib.import_module('contracts.' + m[:-3])
  cs = [c for c in api.CONTRACTS if c.prop == prop]
  for c in cs:
    for t in c.targets:
      importlib.import_module('tensorflow_model_optimization.python.core.' + t.partition(':')[0])
  return cs


def _untuple(v):
  if isinstance(v, list) and v and v[0] in ('tensor', 'choice'):
    return tuple(v)
  return v


def run_contract(c, tier, seed, deadline, no_proof, known):
  """One contract: prove, then replay / cross-check / deep bounded search. JSON-able result."""
  t0 = time.time()
  tot_budget = deadline - t0
  rec = {'contract': c.name, 'mode': c.mode}
  if c.note:
    rec['note'] = c.note
  out = dict(rec=rec, violations=[], undischarged=[], errors=[], trusted=[], obligations=0, discharged=0,
             paths=0, backends={}, evaluations=0, distinct=0, clauses=0, samples=[])
  violations = []
  need_deep = False
  definite = None
  if c.mode == 'proof' and not no_proof:
    obls, res = explore(c, {'tier': tier, 'budget': min(max(20, tot_budget) * 0.6, 300 if tier == 'quick' else 1500)})
    rec['paths'] = res['paths']
    out['paths'] += res['paths']
    out['trusted'] = sorted(res['ops'])
    out['tfops'] = sorted(res['tfops'])
    incomplete = res['unsupported'] or (('private helper missing: ' + res['missing']) if res['missing'] else None)
    ok_vac = res['end_sat'] + res['end_unknown'] > 0 or res.get('end_sat', 0)
    if incomplete:
      rec['incomplete'] = incomplete
      out['undischarged'].append('%s: %s' % (c.name, incomplete))
      need_deep = True
    elif not obls:
      out['errors'].append('%s: zero obligations' % c.name)
    elif not ok_vac and not any(o.verdict == 'refuted' for o in obls.values()):
      out['errors'].append('%s: vacuous (assumptions contradictory on every path)' % c.name)
    rec['reachable_ends'] = {k: res[k] for k in ('end_sat', 'end_unknown', 'end_unsat')}
    rec['obligations'] = {}
    for nm, ob in obls.items():
      v = ob.verdict
      rec['obligations'][nm] = {'verdict': v if not incomplete or v != 'proved' else 'proved-on-explored-paths',
                                'queries': ob.queries,
                                'backends': sorted(ob.backends), 'solver_s': round(ob.time, 3)}
      out['obligations'] += 1
      if v == 'proved' and not incomplete:
        out['discharged'] += 1
        for b in ob.backends:
          out['backends'][b] = out['backends'].get(b, 0) + 1
      elif v != 'proved':
        need_deep = True
        out['undischarged'].append('%s.%s: %s' % (c.name, nm, v))
        if v == 'refuted':
          for m in ob.models[:6]:
            r, info, cc = run_concrete(c, random.Random('replay'), dict(m))
            if r == 'violated':
              violations.append(('counterexample', cc.used, info))
              break
          else:
            if ob.exact and not incomplete:
              definite = (nm, ob)
    if res['raised']:
      rec['raised'] = res['raised'][:5]
  # bounded part: cross-check, or deep search when something was not discharged
  n = c.deep if (tier == 'thorough' or need_deep) else c.cases
  remaining = max(15, deadline - time.time())
  share = min(remaining * 0.8, 400 if tier == 'quick' else 1500)
  if not violations or any(k.get('contract') == c.name for k in known):
    st, vio = sweep(c, n, seed, tier, time.time() + share)
    rec['bounded'] = {k: st[k] for k in ('evaluations', 'skipped', 'clauses', 'distinct')}
    if st.get('cut'):
      rec['bounded']['cut_by_time'] = True
    out['evaluations'] += st['evaluations']
    out['distinct'] += st['distinct']
    out['clauses'] += st['clauses']
    out['samples'] = [{'contract': c.name, 'case': s} for s in st['samples'][:1]]
    if st['missing'] or st['unsupported']:
      out['undischarged'].append('%s: bounded part not applicable: %s' % (c.name, st['missing'] or st['unsupported']))
    elif vio is None and st['distinct'] < c.min_nontrivial:
      out['errors'].append('%s: bounded part explored only %d non-trivial cases' % (c.name, st['distinct']))
    if vio:
      violations.append(('bounded', vio[0], vio[1]))
      definite = None
  if definite and not violations:
    violations.append(('obligation', None, {'clause': definite[0], 'info': 'solver model does not '
                       'replay at machine scale', 'models': definite[1].models[:1]}))
  out['violations'] = [(k, _jsonable(v), _jsonable(i)) for k, v, i in violations]
  out['stats'] = [core.Stats.solver_s, core.Stats.queries, core.Stats.cvc5]
  rec['wall_s'] = round(time.time() - t0, 1)
  return out


def run_all(prop, cs, tier, seed, deadline, no_proof, known, jobs):
  """Contracts in parallel worker processes; each is decided on its own."""
  if jobs <= 1 or len(cs) < 2:
    return [run_contract(c, tier, seed, deadline, no_proof, known) for c in cs]
  import subprocess
  import tempfile
  env = dict(os.environ, TF_NUM_INTRAOP_THREADS='1', TF_NUM_INTEROP_THREADS='1', OMP_NUM_THREADS='1')
  res, running, todo = {}, [], [(c, no_proof, 0) for c in cs]
  with tempfile.TemporaryDirectory() as tmp:
    while todo or running:
      while todo and len(running) < jobs:
        c, np_, att = todo.pop(0)
        f = os.path.join(tmp, '%s.%d.json' % (c.name, att))
        cmd = [sys.executable, '-m', 'dv.run', prop, '--tier', tier, '--only', c.name, '--worker', f,
               '--budget', str(max(30.0, deadline - time.time()))]
        if np_:
          cmd.append('--no-proof')
        p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=subprocess.DEVNULL,
                             stderr=None if os.environ.get('DV_DEBUG') else subprocess.DEVNULL)
        running.append((c, att, f, p))
      time.sleep(0.05)
      late = time.time() > deadline + 90
      for r in list(running):
        c, att, f, p = r
        if p.poll() is None:
          if late:
            p.kill()
            p.wait()
          else:
            continue
        running.remove(r)
        if os.path.exists(f):
          res[c.name] = json.load(open(f))
        elif att == 0 and not late:
          todo.append((c, True, 1))
        else:
          res[c.name] = dict(rec={'contract': c.name, 'mode': c.mode, 'lost': 'worker ended without a result'},
                             violations=[], undischarged=['%s: worker ended without a result' % c.name], errors=[],
                             trusted=[], obligations=0, discharged=0, paths=0, backends={}, evaluations=0,
                             distinct=0, clauses=0, samples=[], stats=[0, 0, 0])
        if att == 1 and c.name in res:
          res[c.name]['undischarged'].append('%s: the proving worker was lost; bounded part only' % c.name)
  return [res[c.name] for c in cs]


def claimed_level(prop):
  with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
    return next((c['level'] for c in json.load(f)['checks'] if c['property'] == prop), 'proof')


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--only')
  ap.add_argument('--replay')
  ap.add_argument('--no-proof', action='store_true')
  ap.add_argument('--worker')
  ap.add_argument('--budget', type=float)
  ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
  a = ap.parse_args()
  t0 = time.time()
  seed = int(os.environ.get('VERIF_SEED', '1'))
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  import tensorflow as tf
  cs = load_contracts(a.prop)
  if a.only:
    cs = [c for c in cs if c.name == a.only]
  if not cs:
    print('no contract for', a.prop)
    return 3
  if a.replay:
    r = json.load(open(a.replay))
    c = [x for x in cs if x.name == r['contract']][0]
    vals = {k: _untuple(v) for k, v in (r['values'] or {}).items()}
    res, info, _ = run_concrete(c, random.Random(1), vals)
    print('REPLAY', res, json.dumps(_jsonable(info)))
    return 1 if res == 'violated' else 0
  known = [k for k in load_known() if k.get('property') == a.prop]
  tot_budget = a.budget or (600 if tier == 'quick' else 3000)
  deadline = t0 + tot_budget
  if a.worker:
    r = run_contract(cs[0], tier, seed, deadline, a.no_proof, known)
    with open(a.worker + '.tmp', 'w') as f:
      json.dump(r, f)
    os.rename(a.worker + '.tmp', a.worker)
    return 0
  # finite: complete case split over an enumerated family (graphs, sequences); never counted as proved
  finite = lambda c: bool((c.opts or {}).get('finite'))
  has_proof = any(c.mode == 'proof' and not finite(c) for c in cs) and claimed_level(a.prop) != 'exploration'
  violations, undischarged = [], []
  cov = dict(obligations=0, discharged=0, paths=0, functions=[], per_contract=[],
             backends={}, evaluations=0, distinct_nontrivial=0, samples=[],
             clauses_checked=0)
  trusted, tfops = set(), set()
  errors = []
  stats = [0, 0, 0]
  for c, r in zip(cs, run_all(a.prop, cs, tier, seed, deadline, a.no_proof, known, a.jobs)):
    trusted |= set(r['trusted'])
    tfops |= set(r.get('tfops', ()))
    if finite(c):
      cov['enumerated_obligations'] = cov.get('enumerated_obligations', 0) + r['obligations']
      cov['enumerated_discharged'] = cov.get('enumerated_discharged', 0) + r['discharged']
      r['rec']['finite'] = True
    for k in ('obligations', 'discharged', 'paths', 'evaluations'):
      if not (finite(c) and k in ('obligations', 'discharged')):
        cov[k] += r[k]
    cov['distinct_nontrivial'] += r['distinct']
    cov['clauses_checked'] += r['clauses']
    for b, n in r['backends'].items():
      cov['backends'][b] = cov['backends'].get(b, 0) + n
    if len(cov['samples']) < 6:
      cov['samples'] += r['samples']
    undischarged += r['undischarged']
    errors += r['errors']
    violations += [(c, k, v, i) for k, v, i in r['violations']]
    stats = [max(x, y) if a.jobs <= 1 or len(cs) < 2 else x + y for x, y in zip(stats, r['stats'])]
    cov['per_contract'].append(r['rec'])
    for t in c.targets:
      if t not in [f['function'] for f in cov['functions']]:
        cov['functions'].append(target_loc(t))
  cov['operation_contracts_used'] = sorted(tfops)
  if tfops and tier == 'thorough':
    from dv import selfcheck
    x = selfcheck.check(tfops, 2)
    cov['operation_contracts_crosschecked'] = x
    errors += ['operation contract of %s disagrees with TensorFlow: %s' % f for f in x['failures']]
  # report
  rc = 0
  real = []
  for c, kind, vals, info in violations:
    hit = None
    for k in known:
      if k.get('contract') == c.name and k.get('clause') in (None, '*', info.get('clause')) and \
          (k.get('match') is None or k['match'] in json.dumps(_jsonable(vals)) + str(info)):
        hit = k
        break
    if hit:
      print('KNOWN-FINDING: property=%s %s' % (a.prop, hit['desc']))
      continue
    p = write_replay(a.prop, c, kind, vals, info)
    tail = ' no-failing-input-found' if kind == 'obligation' else ''
    print('contract %s clause %s failed: %s' % (c.name, info.get('clause'), str(info.get('info'))[:300]))
    print('VIOLATION property=%s replay=%s%s' % (a.prop, p, tail))
    real.append(p)
    rc = 1
  if rc == 0 and errors:
    rc = 3
  # a run with an undischarged obligation is reported as exploration, never as proof
  level = 'proof' if has_proof and cov['obligations'] and not undischarged else 'exploration'
  cov['rule'] = ('bounded part: inputs drawn by seeded random generation with boundary values from the '
                 "contract's own input declarations; a case is non-trivial when it satisfies the "
                 'preconditions and evaluates at least one clause; distinct by full input value')
  cov['checker_cmd'] = 'cd /verif && ./check.sh %s --tier %s' % (a.prop, tier)
  cov['trusted_base'] = sorted(
      ['TF op contract: ' + t for t in trusted] +
      ['dv engine: op contracts in dv/ops.py (cross-checked on real TF by dv/selfcheck.py)',
       'CPython executes the real function objects; z3 5.x (and cvc5) decide the obligations',
       'machine floats are treated as mathematical reals, int32/int64 as unbounded integers'])
  cov['undischarged'] = undischarged
  cov['solver'] = {'seconds': round(stats[0], 2), 'queries': stats[1], 'cvc5_calls': stats[2]}
  cov['errors'] = errors
  if not cov['samples']:
    cov['samples'] = [{'obligations': [r['contract'] for r in cov['per_contract']]}]
  ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
        'wall_s': round(time.time() - t0, 2),
        'assumptions': cov['trusted_base'] + [r['note'] for r in cov['per_contract'] if r.get('note')],
        'violations': len(real)}
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s %s: obligations %d discharged %d%s paths %d; bounded cases %d (%d clauses); solver %.1fs; wall %.1fs' % (
      a.prop, tier, cov['obligations'], cov['discharged'], ' (enumerated families: %d of %d)' % (
          cov['enumerated_discharged'], cov['enumerated_obligations']) if 'enumerated_obligations' in cov else '', cov['paths'], cov['evaluations'],
      cov['clauses_checked'], stats[0], time.time() - t0))
  for u in undischarged:
    print('  undischarged:', u)
  for e in errors:
    print('  ERROR:', e)
  return rc


if __name__ == '__main__':
  rc = main()
  sys.stdout.flush()
  os._exit(rc)
