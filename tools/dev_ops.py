"""Development helper: first shrunk failure for each op of an op-table check."""
import sys, os, importlib, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VT_REPO', '/repo'))
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
from hypothesis import given, settings, seed, HealthCheck, Phase
from vt import core
mod = importlib.import_module('vt.checks.' + sys.argv[1])
backend = sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 200
if backend == 'jax':
  mod.jax64()
strat = mod.strategy(backend)
names = sorted(mod.OPS) if len(sys.argv) < 5 else sys.argv[4:]
from hypothesis import strategies as st
for name in names:
  @st.composite
  def s(draw):
    case = dict(draw(mod.OPS[name][0]))
    case.update(op=name, seed=draw(mod.seeds), layout=draw(st.integers(0, 2)), backend=backend)
    return case
  part = core.Part('x', s, mod.run, 10)
  last = {}
  @seed(1)
  @settings(max_examples=n, deadline=None, database=None, suppress_health_check=list(HealthCheck), report_multiple_bugs=False)
  @given(s())
  def t(case):
    try:
      core.run_case(part, case)
    except core.Skip:
      pass
    except BaseException as e:
      last['c'] = case
      raise
  try:
    t()
  except BaseException as e:
    print('##', name, type(e).__name__, str(e)[:700].replace('\n', '\n   '))
    print('   case', json.dumps(last.get('c')))
