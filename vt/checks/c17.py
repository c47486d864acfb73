"""C17: gates and measurements of finite matrix product states against the state vector."""
from vt import mps
from vt.core import Part
from vt.checks import c16

ID = 'C17'
RULE = ('Random circuits on random finite matrix product states (1-8 sites; NumPy, JAX, TensorFlow, block-sparse): one- and '
        'two-site gates (unitary, general, projectors; every truncation option; every centre), local expectation values and '
        'two-point correlators with arbitrary site lists, mixed with gauge moves; a dense state vector runs in lockstep. '
        'Non-trivial: a two-site gate or a measurement on sites of dimension at least two.')
ASSUMPTIONS = ['after a one-site gate that is not unitary and not at the centre the canonical form is lost (documented): '
               'until the next canonicalisation only the state is compared']

OPS = dict(c16.OPS, gate2=mps.do_gate2, local=mps.do_local, corr=mps.do_correlator)
WEIGHTS = ['gate2'] * 6 + ['gate1'] * 3 + ['local'] * 3 + ['corr'] * 4 + ['position'] * 2 + ['canonicalize']


def run(case, ctx):
  p = mps.Run(case, ctx)
  ctx.is_nontrivial = False
  seen = False
  for op, i, j, k in case['ops']:
    ctx.is_nontrivial = False
    OPS[op](p, i, j, k)
    seen = seen or ctx.is_nontrivial and op in ('gate2', 'local', 'corr')
  ctx.is_nontrivial = bool(seen)
  p.check_state('at the end')


PARTS = [Part('numpy', c16.strategy('numpy', WEIGHTS, 9), run, 4000, 60000),
         Part('symmetric', c16.strategy('symmetric', WEIGHTS, 6), run, 900, 12000),
         Part('tensorflow', c16.strategy('tensorflow', WEIGHTS, 5), run, 160, 2000),
         Part('jax', c16.strategy('jax', WEIGHTS, 4), run, 60, 800)]
