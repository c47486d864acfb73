"""C19: matrix product operators against the documented Hamiltonians."""
import math
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork.backends.backend_factory import get_backend
from tensornetwork.matrixproductstates import mpo as M
from vt.core import Part
from vt.gens import pick, seeds

ID = 'C19'
RULE = ('Random couplings and fields (site dependent, zero, negative, large, integer arrays, lists), 2-7 sites or small fermion '
        'lattices, four dtypes, every installed backend: the operator contracted with NumPy must equal the Hamiltonian built '
        'from Kronecker products (Jordan-Wigner for fermions, also its many-body spectrum). Random operators: attributes, '
        'iteration, rolling and rejection of malformed ones. Non-trivial: at least three sites, or a rejected operator.')
ASSUMPTIONS = ['at least two sites', 'couplings of real models are real']
KINDS = [np.float64, np.complex128, np.float32, np.complex64]


def dense(tensors):
  """Contract tensors (left, right, out, in)."""
  r = None
  for t in tensors:
    t = np.asarray(t)
    t = t.astype(np.complex128 if np.iscomplexobj(t) else np.float64)
    if r is None:
      r = t
    else:
      r = np.einsum('abij,bckl->acikjl', r, t)
      r = r.reshape(r.shape[0], r.shape[1], r.shape[2] * r.shape[3], r.shape[4] * r.shape[5])
  return r


def at(ops, n):
  """Kronecker product with {site: operator}."""
  out = np.eye(1)
  for k in range(n):
    out = np.kron(out, ops.get(k, np.eye(2)))
  return out


def backend_of(case):
  b = case['backend']
  return get_backend(b) if case['seed'] % 2 else b


def couplings(case, n, rng):
  mode = case['mode'] % 7
  def one(m):
    if mode == 0:
      return rng.normal(size=m)
    if mode == 1:
      return np.full(m, float(rng.integers(-2, 3)))
    if mode == 2:
      return rng.normal(size=m) * rng.integers(0, 2, m)
    if mode == 3:
      return rng.integers(-3, 4, m)
    if mode == 4:
      return np.zeros(m)
    if mode == 5:
      return rng.normal(size=m) * 100
    return rng.normal(size=m).astype(np.float32)
  return one


def check_common(ctx, mpo, n, dtype, backend, dims, name, what):
  ctx.check(isinstance(mpo, M.FiniteMPO), '{}: not a FiniteMPO', what)
  ctx.equal(len(mpo), n, what + ': number of sites')
  ctx.equal([int(x) for x in mpo.bond_dimensions], dims, what + ': bond dimensions')
  ctx.equal(mpo.backend.name, backend, what + ': backend')
  ctx.equal(mpo.name, name, what + ': name')
  ctx.check(all(a is b for a, b in zip(mpo, mpo.tensors)), '{}: iteration', what)
  for m, t in enumerate(mpo.tensors):
    ctx.equal(tuple(int(x) for x in t.shape), (dims[m], dims[m + 1], 2, 2), what + ': shape of tensor %d' % m)
    d = t.dtype
    ctx.equal(np.dtype(d.as_numpy_dtype if hasattr(d, 'as_numpy_dtype') else d), np.dtype(dtype), what + ': dtype')
  d = mpo.dtype
  ctx.equal(np.dtype(d.as_numpy_dtype if hasattr(d, 'as_numpy_dtype') else d), np.dtype(dtype), what + ': dtype')


def run_spin(case, ctx):
  n = case['n']
  rng = np.random.default_rng(case['seed'])
  dtype = KINDS[case['dtype']]
  tol = 1e-10 if dtype in (np.float64, np.complex128) else 1e-4
  one = couplings(case, n, rng)
  be = backend_of(case)
  kw = {} if case['backend'] == 'numpy' and case['seed'] % 3 == 0 else dict(backend=be)
  name = ['', 'op', None][case['seed'] % 3]
  if name:
    kw['name'] = name
  xxz = case['xxz']
  if xxz:
    a, b, c = one(n - 1), one(n - 1), one(n)
    given = [x.copy() for x in (a, b, c)]
    if case['lists']:
      mpo = M.FiniteXXZ(a.tolist(), b.tolist(), c.tolist(), dtype, **kw)
    else:
      mpo = M.FiniteXXZ(Jz=a, Jxy=b, Bz=c, dtype=dtype, **kw)
    sz = np.diag([-.5, .5])
    sx = np.array([[0, .5], [.5, 0]])
    sy = np.array([[0, .5j], [-.5j, 0]])
    h = sum(c[k] * at({k: sz}, n) for k in range(n)) + 0j
    for k in range(n - 1):
      h = h + a[k] * at({k: sz, k + 1: sz}, n) + b[k] * (at({k: sx, k + 1: sx}, n) + at({k: sy, k + 1: sy}, n))
    what, w, default = 'FiniteXXZ', 5, 'XXZ_MPO'
    args = (a, b, c)
  else:
    a, c = one(n - 1), one(n)
    given = [x.copy() for x in (a, c)]
    mpo = M.FiniteTFI(Jx=a, Bz=c, dtype=dtype, **kw)
    sz, sx = np.diag([-1., 1.]), np.array([[0, 1.], [1, 0]])
    h = sum(c[k] * at({k: sz}, n) for k in range(n))
    for k in range(n - 1):
      h = h + a[k] * at({k: sx, k + 1: sx}, n)
    what, w, default = 'FiniteTFI', 3, 'TFI_MPO'
    args = (a, c)
  ctx.label(what, case['backend'])
  ctx.nontrivial(n >= 3 and bool(np.any(h)))
  check_common(ctx, mpo, n, dtype, case['backend'], [1] + [w] * (n - 1) + [1], name or default, what)
  got = dense(mpo.tensors)
  ctx.equal(got.shape[:2], (1, 1), what + ': boundary')
  ctx.close(got[0, 0], h, what, tol, max(1., np.abs(h).max()))
  ctx.close(got[0, 0], got[0, 0].conj().T, what + ': not hermitian', tol, max(1., np.abs(h).max()))
  for x, y in zip(args, given):
    ctx.check(np.array_equal(x, y) and x.dtype == y.dtype, '{} changed its arguments', what)


def run_fermion(case, ctx):
  n1, n2 = pick([(2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (2, 1), (1, 2), (3, 1), (1, 3), (4, 2), (2, 4), (3, 3)], case['shape'])
  n = n1 * n2
  rng = np.random.default_rng(case['seed'])
  dtype = KINDS[case['dtype']]
  tol = 1e-10 if dtype in (np.float64, np.complex128) else 1e-4
  t1, t2, v = [float(x) for x in rng.normal(size=3)]
  if case['mode'] == 1:
    t1, t2 = -1, -1
  elif case['mode'] == 2:
    t1 = 0
  elif case['mode'] == 3:
    t2, v = 0., 0
  kw = dict(backend=backend_of(case))
  mpo = M.FiniteFreeFermion2D(t1, t2, v, n1, n2, dtype, **kw)
  ctx.label('fermions %dx%d' % (n1, n2), case['backend'])
  ctx.nontrivial(n >= 3)
  w = 2 * n1 + 2
  check_common(ctx, mpo, n, dtype, case['backend'], [1] + [w] * (n - 1) + [1], '2DTFI_MPO', 'FiniteFreeFermion2D')
  got = dense(mpo.tensors)[0, 0]
  # one-body matrix; site = column * n1 + row
  hop = np.zeros((n, n))
  for x in range(n2):
    for y in range(n1):
      s = x * n1 + y
      if y + 1 < n1:
        hop[s, s + 1] = hop[s + 1, s] = t1
      if x + 1 < n2:
        hop[s, s + n1] = hop[s + n1, s] = t2
  hop += v * np.eye(n)
  par, low = np.diag([1., -1.]), np.array([[0, 1.], [0, 0]])
  cs = []
  for k in range(n):
    cs.append(at({**{q: par for q in range(k)}, k: low}, n))
  h = np.zeros((2**n, 2**n))
  for a in range(n):
    for b in range(n):
      if hop[a, b]:
        h += hop[a, b] * cs[a].T @ cs[b]
  scale = max(1., np.abs(h).max())
  ctx.close(got, h, 'FiniteFreeFermion2D %dx%d, t1=%g, t2=%g, v=%g' % (n1, n2, t1, t2, v), tol, scale)
  if n <= 8:
    e = np.linalg.eigvalsh(hop)
    want = np.sort([sum(e[q] for q in range(n) if m >> q & 1) for m in range(2**n)])
    ctx.close(np.linalg.eigvalsh(got), want, 'FiniteFreeFermion2D: spectrum', 1e3 * tol, scale)


def run_generic(case, ctx):
  """Attributes and rejection for arbitrary operators."""
  rng = np.random.default_rng(case['seed'])
  n = 1 + case['n'] % 5
  dtype = KINDS[case['dtype']]
  be = backend_of(case)
  inner = [int(x) for x in rng.integers(1, 4, n - 1)]
  outer = 1 if case['xxz'] else int(rng.integers(1, 4))
  dims = [outer] + inner + [outer]
  phys = [int(x) for x in rng.integers(1, 4, n)]
  ts = []
  for k in range(n):
    t = rng.normal(size=(dims[k], dims[k + 1], phys[k], phys[k]))
    if np.issubdtype(dtype, np.complexfloating):
      t = t + 1j * rng.normal(size=t.shape)
    ts.append(np.asarray(t, dtype=dtype))
  given = [t.copy() for t in ts]
  classes = [M.BaseMPO, M.InfiniteMPO] + ([M.FiniteMPO] if outer == 1 else [])
  for cls in classes:
    mpo = cls(list(ts), backend=be, name='x')
    ctx.equal((len(mpo), [int(x) for x in mpo.bond_dimensions], mpo.name, mpo.backend.name), (n, dims, 'x', case['backend']), cls.__name__)
    for a, b in zip(mpo, given):
      ctx.check(np.array_equal(np.asarray(a), b), '{}: tensors', cls.__name__)
    ctx.equal(cls(list(ts), backend=be).name, None, 'name')
  if outer != 1:
    ctx.raises(ValueError, lambda: M.FiniteMPO(list(ts), backend=be), 'finite operator with open ends')
  inf = M.InfiniteMPO(list(ts), backend=be)
  k = (case['mode'] + case['seed']) % (3 * n + 2) - n
  inf.roll(k)
  order = [(q + k) % n for q in range(n)]
  for q, t in zip(order, inf.tensors):
    ctx.check(np.array_equal(np.asarray(t), given[q]), 'roll({})', k)
  ctx.equal(len(inf), n, 'roll: length')
  inf.roll(n - k)
  for t, g in zip(inf.tensors, given):
    ctx.check(np.array_equal(np.asarray(t), g), 'roll back')
  for a, b in zip(ts, given):
    ctx.check(np.array_equal(a, b), 'an operator changed its tensors')
  if n >= 2:
    other = KINDS[(case['dtype'] + 1) % 4]
    bad = ts[:-1] + [ts[-1].astype(other)]
    for cls in (M.BaseMPO, M.InfiniteMPO, M.FiniteMPO):
      ctx.raises(TypeError, lambda: cls(bad, backend=be), 'tensors of different dtypes')
    odd = ts[:-1] + [np.concatenate([ts[-1]] * 2, axis=1)]
    ctx.raises(ValueError, lambda: M.InfiniteMPO(odd, backend=be), 'unmatched ends')
    ctx.raises(ValueError, lambda: M.FiniteMPO(odd, backend=be), 'unmatched ends')
    ctx.raises(ValueError, lambda: M.FiniteMPO([np.concatenate([ts[0]] * 2, axis=0)] + ts[1:], backend=be), 'left end')
  ctx.nontrivial(n >= 2)


backends = st.sampled_from(['numpy', 'numpy', 'numpy', 'jax', 'tensorflow'])
base = dict(seed=seeds, dtype=st.integers(0, 3), mode=st.integers(0, 6), backend=backends)
PARTS = [
    Part('spin', lambda: st.fixed_dictionaries(dict(base, n=st.integers(2, 7), xxz=st.booleans(), lists=st.booleans())), run_spin,
         2500, 30000),
    Part('fermion', lambda: st.fixed_dictionaries(dict(base, shape=st.integers(0, 11), mode=st.integers(0, 4))), run_fermion, 500, 6000),
    Part('generic', lambda: st.fixed_dictionaries(dict(base, n=st.integers(0, 9), xxz=st.booleans())), run_generic, 1200, 12000)]
