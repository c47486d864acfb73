"""Runner shared by all checks: generation, shrinking, replay, evidence.

A check module (vt/checks/<id>.py) defines
  ID, RULE, PARTS = [Part(...), ...]
Each Part has a Hypothesis strategy producing a JSON-able case and a function
run(case, ctx) that executes the code under test and the oracle.  A property
violation is either a Violation raised by the oracle or an exception that the
code in /repo raises on a valid case.  Anything else is a harness error.
"""
import argparse
import collections
import hashlib
import importlib
import json
import os
import signal
import sys
import tempfile
import time
import traceback
import shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('VT_REPO', '/repo'))
LEVEL = 'exploration'


class Violation(AssertionError):
  pass


class HarnessError(Exception):
  pass


class CaseTimeout(BaseException):
  pass


class Skip(Exception):
  """The case is outside the domain (counted, not a failure)."""


class Part:
  def __init__(self, name, strategy, run, quick, thorough=None, shards=None,
               setup=None, case_timeout=240, py=None):
    self.name = name
    self.strategy = strategy      # zero-argument callable
    self.run = run
    self.quick = quick
    self.thorough = thorough if thorough is not None else quick * 10
    self.shards = shards
    self.setup = setup
    self.case_timeout = case_timeout
    self.py = py


class Ctx:
  def __init__(self):
    self.labels = collections.Counter()
    self.is_nontrivial = False

  def label(self, *names):
    for n in names:
      self.labels[str(n)] += 1

  def nontrivial(self, cond=True):
    if cond:
      self.is_nontrivial = True

  # -- oracles ------------------------------------------------------------
  def fail(self, msg):
    raise Violation(msg)

  def check(self, cond, msg='condition failed', *args):
    if not cond:
      raise Violation(msg.format(*args) if args else msg)

  def equal(self, a, b, msg=''):
    if not a == b:
      raise Violation('%s: got %r, expected %r' % (msg, a, b))

  def close(self, got, want, msg='', tol=1e-8, scale=None):
    import numpy as np
    try:
      g = np.asarray(got)
      if g.dtype == object:
        raise TypeError('object array')
    except Violation:
      raise
    except Exception as e:  # the code under test returned something odd
      raise Violation('%s: result %r is not an array (%s)' % (msg, type(got), e))
    w = np.asarray(want)
    if g.shape != w.shape:
      raise Violation('%s: shape %s, expected %s' % (msg, g.shape, w.shape))
    if g.size == 0:
      return
    if scale is None:
      scale = 1.0 + float(np.max(np.abs(w)))
    with np.errstate(all='ignore'):
      d = np.abs(g - w)
      bad = not np.all(d <= tol * scale)
    if bad:
      raise Violation('%s: values differ, max |diff| = %s (scale %g)\n got  %s\n want %s' % (
          msg, np.max(d), scale, _short(g), _short(w)))

  def raises(self, exc, fn, msg=''):
    """fn() must raise exc (class or tuple)."""
    try:
      r = fn()
    except exc as e:
      return e
    raise Violation('%s: expected %s, but the call returned %s' % (msg, exc, _short(r)))


def _short(x, n=600):
  s = repr(x)
  return s if len(s) <= n else s[:n] + '...'


def touches_repo(tb):
  while tb is not None:
    f = os.path.realpath(tb.tb_frame.f_code.co_filename)
    if f.startswith(REPO + os.sep):
      return True
    tb = tb.tb_next
  return False


def innermost_harness(tb):
  """True when the exception was raised directly by harness code."""
  last = None
  while tb is not None:
    last = tb
    tb = tb.tb_next
  f = os.path.realpath(last.tb_frame.f_code.co_filename)
  return f.startswith(os.path.join(HERE, 'vt') + os.sep)


def run_case(part, case):
  """Runs one case.  Returns ctx; raises Violation / HarnessError / Skip."""
  ctx = Ctx()
  case = json.loads(json.dumps(case))
  try:
    part.run(case, ctx)
  except (Violation, Skip, CaseTimeout, KeyboardInterrupt, SystemExit, HarnessError):
    raise
  except BaseException as e:  # pylint: disable=broad-except
    if type(e).__module__.startswith('hypothesis'):
      raise
    tb = e.__traceback__
    if touches_repo(tb) and not innermost_harness(tb):
      text = ''.join(traceback.format_exception(type(e), e, tb)[-6:])
      raise Violation('unexpected %s: %s\n%s' % (type(e).__name__, e, text)) from e
    text = ''.join(traceback.format_exception(type(e), e, tb))
    if isinstance(e, (MemoryError, OSError, ImportError, NameError, SyntaxError)):
      raise HarnessError('case %s\n%s' % (_short(case, 3000), text))
    # The oracle is exercised on valid results all the time; when it cannot
    # even read a result, the result does not have the promised form.
    raise Violation('the oracle could not read the result: %s' % text) from e
  return ctx


def _on_alarm(signum, frame):
  raise CaseTimeout()


def worker(mod, part, n, seed, soft_deadline, out_path):
  """Body of one forked worker."""
  import hypothesis
  from hypothesis import HealthCheck, Phase, Verbosity, given, settings
  import hypothesis.internal.conjecture.engine as eng
  eng.MAX_SHRINKING_SECONDS = 60
  try:
    import hypothesis.internal.conjecture.providers as prov
    from hypothesis.internal.constants_ast import Constants
    prov._get_local_constants = lambda: Constants()  # cases do not depend on source text
  except Exception:
    pass
  res = dict(part=part.name, seed=seed, evals=0, skipped=0, timeskip=0, labels={},
             hashes=[], samples=[], violation=None, error=None, wall=0.0)
  labels = collections.Counter()
  hashes = set()
  state = dict(first=None, last=None, failing=False, excl=0)
  t0 = time.time()
  try:
    import resource
    lim = int(os.environ.get('VT_MEM', str(12 << 30)))
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
  except (ImportError, ValueError, OSError):
    pass
  try:
    if part.setup:
      part.setup()
    if hasattr(mod, 'setup'):
      mod.setup()
    strat = part.strategy()

    def body(case):
      if not state['failing'] and time.time() > soft_deadline:
        res['timeskip'] += 1
        return
      signal.setitimer(signal.ITIMER_REAL, part.case_timeout)
      res['evals'] += 1
      try:
        ctx = run_case(part, case)
      except Skip:
        res['skipped'] += 1
        return
      except CaseTimeout:
        res['timeout_case'] = _short(case, 3000)
        raise
      except Violation as v:
        state['failing'] = True
        rec = (json.loads(json.dumps(case)), str(v))
        state['last'] = rec
        if state['first'] is None:
          state['first'] = rec
        raise
      finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
      for k, c in ctx.labels.items():
        labels[k] += c
      if ctx.is_nontrivial and len(hashes) < 2000000:
        js = json.dumps(case, sort_keys=True)
        h = hashlib.blake2b(js.encode(), digest_size=8).hexdigest()
        if h not in hashes:
          hashes.add(h)
          if len(res['samples']) < 3 and len(hashes) in (1, 20, 100):
            res['samples'].append(case)

    test = given(strat)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    phases=(Phase.generate, Phase.shrink),
                    suppress_health_check=list(HealthCheck), print_blob=False,
                    report_multiple_bugs=False, verbosity=Verbosity.quiet)(test)
    test = hypothesis.seed(seed)(test)
    signal.signal(signal.SIGALRM, _on_alarm)
    try:
      test()
    except CaseTimeout:
      res['error'] = 'a case exceeded %ds (inconclusive): %s' % (
          part.case_timeout, res.get('timeout_case'))
    except Violation:
      pass
    except HarnessError as e:
      if state['first'] is None:
        res['error'] = str(e)
    except BaseException as e:  # Flaky, Unsatisfiable, ...
      if state['first'] is None:
        res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    if state['first'] is not None:
      res['violation'] = dict(case=state['last'][0], message=state['last'][1],
                              first_case=state['first'][0], first_message=state['first'][1])
      res['error'] = None
  except BaseException as e:
    if state['first'] is not None:
      res['violation'] = dict(case=state['last'][0], message=state['last'][1],
                              first_case=state['first'][0], first_message=state['first'][1])
    else:
      res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
  signal.setitimer(signal.ITIMER_REAL, 0)
  res['labels'] = dict(labels)
  res['hashes'] = sorted(hashes)
  res['wall'] = time.time() - t0
  tmp = out_path + '.tmp'
  with open(tmp, 'w') as f:
    json.dump(res, f)
  os.rename(tmp, out_path)


def fork(fn):
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    code = 0
    try:
      os.setpgid(0, 0)
      if not os.environ.get('VT_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
      fn()
    except BaseException:
      traceback.print_exc()
      code = 3
    finally:
      os._exit(code)
  return pid


def isolated(mod, part, case, tmpdir, tag, timeout=300):
  """Runs one case in a fresh forked process; returns ('ok'|'violation'|'error', msg)."""
  path = os.path.join(tmpdir, 'iso_%s.json' % tag)

  def body():
    signal.alarm(timeout)
    out = ('error', 'unknown')
    try:
      if part.setup:
        part.setup()
      if hasattr(mod, 'setup'):
        mod.setup()
      run_case(part, case)
      out = ('ok', '')
    except Skip:
      out = ('ok', 'skipped')
    except Violation as v:
      out = ('violation', str(v))
    except BaseException as e:
      out = ('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__)))
    with open(path, 'w') as f:
      json.dump(out, f)
  pid = fork(body)
  os.waitpid(pid, 0)
  try:
    with open(path) as f:
      return tuple(json.load(f))
  except Exception:
    return ('error', 'process died or timed out')


def load_known(pid):
  path = os.path.join(HERE, 'known_findings.json')
  if not os.path.exists(path):
    return []
  with open(path) as f:
    d = json.load(f)
  return [e for e in d.get('open', []) if e['property'] == pid]


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('id')
  ap.add_argument('--replay')
  ap.add_argument('--part')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=None)
  ap.add_argument('--scale', type=float, default=float(os.environ.get('VT_SCALE', '1')))
  ap.add_argument('--jobs', type=int, default=int(os.environ.get('VT_JOBS', '8')))
  a = ap.parse_args()
  tier = 'thorough' if a.tier == 'thorough' else 'quick'
  seed = a.seed
  if seed is None:
    try:
      seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
      seed = 1
  t0 = time.time()
  tmpdir = tempfile.mkdtemp(prefix='vt_')
  os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(tmpdir, 'hyp')
  os.environ['VT_TMP'] = tmpdir
  tempfile.tempdir = tmpdir
  try:
    code = _main(a, tier, seed, t0, tmpdir)
  except SystemExit:
    raise
  except BaseException:
    traceback.print_exc(file=sys.stdout)
    code = 2
  finally:
    shutil.rmtree(tmpdir, ignore_errors=True)
  sys.stdout.flush()
  sys.exit(code)


def _main(a, tier, seed, t0, tmpdir):
  import numpy  # noqa  (shared by forked workers)
  mod = importlib.import_module('vt.checks.' + a.id.lower())
  import tensornetwork
  where = os.path.realpath(tensornetwork.__file__)
  if not where.startswith(REPO + os.sep):
    print('error: tensornetwork imported from', where)
    return 2
  parts = {p.name: p for p in mod.PARTS}

  if a.replay:
    with open(a.replay) as f:
      rep = json.load(f)
    if rep.get('property') != a.id:
      print('error: replay file is for', rep.get('property'))
      return 2
    part = parts[rep['part']]
    if part.setup:
      part.setup()
    if hasattr(mod, 'setup'):
      mod.setup()
    try:
      run_case(part, rep['case'])
    except Skip as s:
      print('case skipped:', s)
      return 0
    except Violation as v:
      print(v)
      print('VIOLATION property=%s replay=%s' % (a.id, os.path.abspath(a.replay)))
      return 1
    print('replay: property %s held on the recorded case' % a.id)
    return 0

  budget = 420 if tier == 'quick' else 3000
  soft_deadline = t0 + budget
  tasks = []
  for pi, p in enumerate(mod.PARTS):
    if a.part and p.name != a.part:
      continue
    n = max(1, int((p.quick if tier == 'quick' else p.thorough) * a.scale))
    shards = p.shards or max(1, min(8, n // 25))
    shards = min(shards, n)
    for s in range(shards):
      k = n // shards + (1 if s < n % shards else 0)
      sd = int(hashlib.blake2b(('%s/%d/%s/%d' % (a.id, seed, p.name, s)).encode(),
                               digest_size=6).hexdigest(), 16)
      tasks.append((p, k, sd))
  # longest first is unknown: interleave parts
  tasks.sort(key=lambda t: 0)

  findings = 0
  for e in load_known(a.id):
    st, msg = isolated(mod, parts[e['part']], e['case'], tmpdir, 'kf_' + e['id'])
    if st == 'violation':
      print('KNOWN-FINDING: property=%s %s' % (a.id, e['what']))
      findings += 1
    elif st == 'error':
      print('error while reproducing known finding %s: %s' % (e['id'], msg))
      return 2
    else:
      print('note: known finding %s no longer reproduces' % e['id'])

  running = {}
  results = []
  errors = []
  queue = list(enumerate(tasks))
  hard = t0 + budget + 300
  viol = None
  while (queue or running) and viol is None:
    while queue and len(running) < a.jobs:
      i, (p, k, sd) = queue.pop(0)
      out = os.path.join(tmpdir, 'res_%d.json' % i)
      pid = fork(lambda: worker(mod, p, k, sd, soft_deadline, out))
      running[pid] = (p, out, sd)
    pid, status = os.waitpid(-1, os.WNOHANG)
    if pid == 0:
      time.sleep(0.02)
      if time.time() > hard:
        errors.append('time budget exceeded in ' + ', '.join(r[0].name for r in running.values()))
        break
      continue
    if pid not in running:
      continue
    p, out, sd = running.pop(pid)
    if os.path.exists(out):
      with open(out) as f:
        r = json.load(f)
      results.append(r)
      if r['error']:
        errors.append('part %s: %s' % (r['part'], r['error']))
      if r['violation']:
        viol = r
    else:
      errors.append('worker for part %s died (status %d)' % (p.name, status))
  for pid in list(running):
    try:
      os.killpg(pid, signal.SIGKILL)
    except OSError:
      try:
        os.kill(pid, signal.SIGKILL)
      except OSError:
        pass
    try:
      os.waitpid(pid, 0)
    except OSError:
      pass

  evals = sum(r['evals'] for r in results)
  allh = set()
  labels = collections.Counter()
  per_part = collections.OrderedDict()
  samples = []
  for r in results:
    allh.update(r['part'] + h for h in r['hashes'])
    for k, v in r['labels'].items():
      labels[r['part'] + ':' + k] += v
    d = per_part.setdefault(r['part'], dict(evaluations=0, distinct_nontrivial=0, skipped=0,
                                            time_skipped=0, cpu_s=0.0))
    d['evaluations'] += r['evals']
    d['distinct_nontrivial'] += len(r['hashes'])
    d['skipped'] += r['skipped']
    d['time_skipped'] += r['timeskip']
    d['cpu_s'] = round(d['cpu_s'] + r['wall'], 1)
  by_part = collections.OrderedDict()
  for r in results:
    by_part.setdefault(r['part'], []).extend(r['samples'])
  for name, ss in by_part.items():
    for s in ss[:2]:
      js = json.dumps(s)
      samples.append(dict(part=name, case=s if len(js) < 1500 else js[:1500] + '...'))
  wall = time.time() - t0
  ev = dict(property=a.id, tier=tier, seed=seed, level=LEVEL,
            coverage=dict(evaluations=evals, distinct_nontrivial=len(allh), rule=mod.RULE,
                          samples=samples[:12], parts=per_part,
                          distribution=dict(sorted(labels.items()))),
            assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
            violations=1 if viol else 0)
  if not a.part:
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', a.id + '.json')
    with open(path + '.tmp', 'w') as f:
      json.dump(ev, f, indent=1)
    os.rename(path + '.tmp', path)
  else:
    print(json.dumps(ev['coverage'], indent=1)[:6000])

  if viol:
    v = viol['violation']
    part = parts[viol['part']]
    st, msg = isolated(mod, part, v['case'], tmpdir, 'confirm')
    rep = dict(property=a.id, part=viol['part'], case=v['case'], message=v['message'],
               seed=seed, shard_seed=viol['seed'])
    if st != 'violation':
      st2, msg2 = isolated(mod, part, v['first_case'], tmpdir, 'confirm2')
      if st2 == 'violation':
        rep.update(case=v['first_case'], message=msg2)
      else:
        rep['note'] = ('the failure depends on cases run earlier in the same process; '
                       'rerun the check with the same seed to reproduce')
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    h = hashlib.blake2b(json.dumps(rep['case'], sort_keys=True).encode(), digest_size=5).hexdigest()
    rpath = os.path.join(rdir, '%s_%s_%s.json' % (a.id, viol['part'], h))
    with open(rpath, 'w') as f:
      json.dump(rep, f, indent=1)
    print('part %s, case %s' % (rep['part'], _short(rep['case'], 3000)))
    print(rep['message'][:4000])
    print('VIOLATION property=%s replay=%s' % (a.id, rpath))
    return 1
  if errors:
    for e in errors[:5]:
      print('error:', e[-4000:])
    return 2
  print('%s %s seed=%d: held on %d cases (%d distinct non-trivial), %.1fs; %s' % (
      a.id, tier, seed, evals, len(allh), wall,
      ', '.join('%s:%d/%d %.0fs' % (k, d['distinct_nontrivial'], d['evaluations'], d['cpu_s'])
                for k, d in per_part.items())))
  return 0


if __name__ == '__main__':
  sys.modules['vt.core'] = sys.modules['__main__']
  main()
