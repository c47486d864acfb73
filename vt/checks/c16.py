"""C16: gauge moves of finite matrix product states against the dense state."""
import numpy as np
from hypothesis import strategies as st
from tensornetwork.backends.backend_factory import get_backend
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from vt import mps, symgen as sg
from vt.core import Part
from vt.gens import seeds

ID = 'C16'
RULE = ('Random finite matrix product states (1-8 sites, unequal dimensions, open outer bonds, rank-deficient tensors, four '
        'dtypes, NumPy, JAX, TensorFlow and block-sparse tensors), then random sequences of position, canonicalize, '
        'one-site gates, environments, transfer operators and gauge checks; after every step the dense state, gauge, '
        'bond dimensions, returned norms and the caller\'s tensors are checked. Non-trivial: the centre moved or the state '
        'was canonicalised with a bond of dimension at least two.')
ASSUMPTIONS = ['states do not vanish']

OPS = dict(position=mps.do_position, canonicalize=mps.do_canonicalize, envs=mps.do_envs, orth=mps.do_orthonormality,
           transfer=mps.do_transfer, dims=mps.do_dims, gate1=mps.do_gate1)
WEIGHTS = ['position'] * 6 + ['canonicalize'] * 3 + ['envs'] * 2 + ['orth', 'transfer', 'dims', 'gate1', 'gate1']


def run(case, ctx):
  p = mps.Run(case, ctx)
  p.check_state('construction')
  p.check_gauge('construction')
  for op, i, j, k in case['ops']:
    OPS[op](p, i, j, k)
  p.check_state('at the end')


def run_random(case, ctx):
  """FiniteMPS.random."""
  rng = np.random.default_rng(case['seed'])
  be, n = case['backend'], case['n']
  dt = np.dtype(['f8', 'c16', 'f4', 'c8'][case['dtype']])
  d = [int(x) for x in rng.integers(1, 5, n)]
  D = [int(x) for x in rng.integers(1, 6, n - 1)]
  ctx.nontrivial(n > 1 and max(D) > 1)
  given = (list(d), list(D))
  canonical = case['canonical']
  np.random.seed(case['seed'] % 2**31)
  m = FiniteMPS.random(d, D, dt.type, canonicalize=canonical, backend=get_backend(be) if case['seed'] % 2 else be)
  ctx.equal((d, D), given, 'the dimensions given')
  ctx.equal((len(m), m.physical_dimensions), (n, d), 'length and physical dimensions of a random state')
  ctx.equal(m.backend.name, be, 'backend of a random state')
  bonds = [1] + D + [1]
  ts = [np.asarray(t) for t in m.tensors]
  for t in ts:
    ctx.equal(t.dtype, dt, 'dtype of a random state')
    ctx.check(np.all(np.isfinite(t)) and np.any(t), 'entries of a random state')
  got = [int(x) for x in m.bond_dimensions]
  ctx.equal((got[0], got[-1]), (1, 1), 'outer bonds of a random state')
  if not canonical:
    ctx.equal(got, bonds, 'bond dimensions of a random state')
    ctx.check(m.center_position is None, 'centre of a random state that is not canonical')
    if dt.kind == 'c':
      ctx.check(all(np.any(t.imag) for t in ts), 'a complex random state is real')
    flat = np.concatenate([t.ravel() for t in ts])
    ctx.equal(len(np.unique(flat)), len(flat), 'repeated entries in a random state')
  else:
    ctx.check(all(a <= b for a, b in zip(got, bonds)), 'bond dimensions {} of a random state, at most {}', got, bonds)
    ctx.equal(m.center_position, 0, 'centre of a random state')
    tol = 1e-4 if dt in (np.float32, np.complex64) else 1e-9
    ctx.check(abs(complex(np.asarray(m.check_canonical()))) < tol, 'a random state is not canonical')
    v = ts[0]
    for t in ts[1:]:
      v = np.tensordot(v, t, 1)
    ctx.close(np.linalg.norm(v), 1.0, 'norm of a random state', tol=tol)
  ctx.raises(ValueError, lambda: FiniteMPS.random(d, D + [2], dt.type, backend=be), 'too many bonds')
  if n > 1:
    ctx.raises(ValueError, lambda: FiniteMPS.random(d, D[:-1], dt.type, backend=be), 'too few bonds')


u = st.integers(0, 63)


def strategy(backend, weights, ops_max):
  return lambda: st.fixed_dictionaries(dict(
      backend=st.just(backend), seed=seeds, n=st.sampled_from([3, 2, 4, 1, 5, 6, 3, 4, 8, 7]), d=st.lists(u, max_size=8),
      b=st.lists(u, max_size=7), dtype=st.integers(0, 3), outer=u, style=u, sym=st.integers(0, len(sg.SYMS) - 1),
      canonical=st.sampled_from([True, True, False]), center=st.integers(0, 50),
      ops=st.lists(st.tuples(st.sampled_from(weights), u, u, u), min_size=1, max_size=ops_max)))


PARTS = [Part('random', lambda: st.fixed_dictionaries(dict(
    backend=st.sampled_from(['numpy', 'numpy', 'jax', 'tensorflow']), seed=seeds, n=st.integers(1, 6), dtype=st.integers(0, 3),
    canonical=st.booleans())), run_random, 250, 2500),
         Part('numpy', strategy('numpy', WEIGHTS, 8), run, 4000, 60000),
         Part('symmetric', strategy('symmetric', WEIGHTS, 5), run, 1000, 12000),
         Part('tensorflow', strategy('tensorflow', WEIGHTS, 4), run, 160, 2000),
         Part('jax', strategy('jax', WEIGHTS, 3), run, 40, 600)]
