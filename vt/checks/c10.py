"""C10: iterative eigensolvers and linear solvers against dense linear algebra."""
import math
import warnings
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import krylov
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt import symkrylov
from vt.checks import c08

ID = 'C10'
RULE = ('Random linear operators (dense matrices applied to tensors of rank 1-3, hermitian or general, '
        'with operator arguments, identity-like and buffer-returning operators), starting vectors '
        '(generic, random, inside an invariant subspace) and options; Lanczos, Arnoldi and GMRES of the '
        'NumPy and JAX backends and of tn.linalg.krylov. Non-trivial: operator dimension at least 3.')
ASSUMPTIONS = ['eigenvalue lists of ARPACK are compared as sets', 'spectra have separated eigenvalues where selection is judged',
               'JAX only promises precision for enough Krylov vectors or restarts (documented)']

SHAPES = [(2,), (3,), (2, 2), (5,), (2, 3), (6,), (2, 2, 2), (3, 3), (9,), (12,), (3, 4)]
JSHAPES = [(3,), (2, 2), (6,), (2, 2, 2)]


def matrix(n, seed, kind, herm, spread=True):
  """A dense operator with well separated spectrum."""
  cplx = kind in ('complex', 'c64')
  if herm:
    q = np.linalg.qr(arr((n, n), seed, 'complex' if cplx else 'real'))[0]
    rng = np.random.default_rng(seed + 1)
    ev = np.cumsum(rng.uniform(0.4, 1.4, n)) - 0.5 * n
    m = (q * ev) @ q.conj().T
    m = (m + m.conj().T) / 2
  else:
    m = arr((n, n), seed, 'complex' if cplx else 'real')
  return m.astype({'real': np.float64, 'complex': np.complex128, 'f32': np.float32, 'c64': np.complex64}[kind])


class Op:
  """matvec on tensors of a shape; remembers what it returned."""

  def __init__(self, mat, shape, backend, style, watch=True):
    self.mat, self.shape, self.n = mat, shape, math.prod(shape)
    self.style, self.backend = style, backend
    self.returned = []
    self.calls = 0
    self.watch = watch

  def arrays(self):
    """Operator arguments as plain arrays."""
    n = self.n
    if self.style == 1:       # two summed arguments
      half = np.round(self.mat.real * 4) / 8
      return [half.astype(self.mat.dtype), (self.mat - half).astype(self.mat.dtype)]
    if self.style == 2:       # tensor-shaped argument
      return [self.mat.reshape(self.shape + self.shape)]
    return []

  def __call__(self, x, *args):
    self.calls += 1
    if self.style == 1:
      y = ((args[0] + args[1]) @ x.reshape(self.n)).reshape(self.shape)
    elif self.style == 2:
      k = len(self.shape)
      y = np.tensordot(args[0], x, (list(range(k, 2 * k)), list(range(k))))
    elif self.style == 3 and self.identity:
      y = x
    else:
      y = (self.mat @ x.reshape(self.n)).reshape(self.shape)
    if self.watch:
      self.returned.append((y, y.copy()))
    return y

  identity = False

  def check(self, ctx):
    for y, c in self.returned:
      ctx.check(np.array_equal(y, c), 'an array returned by the operator was modified')


def start_vector(case, mat, n, shape):
  """(vector or None, dimension of the invariant subspace it generates)."""
  kind = case['kind']
  s = case['start']
  if s == 0:
    return None, n
  if s == 1 and n > 2 and kind in ('real', 'complex'):
    w, v = np.linalg.eigh(mat)
    k = 1 + case['sub'] % (n - 1)
    rng = np.random.default_rng(case['seed'] + 5)
    idx = sorted(rng.permutation(n)[:k])
    x = v[:, idx] @ rng.uniform(0.5, 1.5, k)
    return (x / np.linalg.norm(x) * case['scale']).astype(mat.dtype).reshape(shape), idx
  x = arr(shape, case['seed'] + 9, kind) * np.asarray(case['scale'], dtype=mat.real.dtype)
  return x.astype(mat.dtype), n


def ritz(mat, x, k):
  """Eigenvalues of mat projected on the k-dimensional Krylov space of x."""
  vs = []
  v = x / np.linalg.norm(x)
  for _ in range(k):
    for _ in range(2):
      for u in vs:
        v = v - u * np.vdot(u, v)
    nv = np.linalg.norm(v)
    if nv < 1e-9:
      break
    vs.append(v / nv)
    v = mat @ vs[-1]
  q = np.stack(vs, 1)
  return np.linalg.eigvalsh(q.conj().T @ mat @ q)


def call_eigsh_lanczos(case, op, x, kw):
  """Runs at the backend or krylov level; returns plain (vals, vecs)."""
  b = backend_factory.get_backend(case['backend'])
  args = op.arrays()
  if case['level']:
    tx = None if x is None else tn.Tensor(b.convert_to_tensor(x), backend=b)
    targs = [tn.Tensor(b.convert_to_tensor(a), backend=b) for a in args]

    def A(t, *ts):
      return tn.Tensor(op(t.array, *[u.array for u in ts]), backend=b)
    return krylov, A, tx, targs, dict(kw, x0=tx)
  return b, op, x, args, dict(kw, initial_state=x)


def eig_common(case, ctx, which_fn, herm):
  shape = tuple(case['shape'])
  n = math.prod(shape)
  mat = matrix(n, case['seed'], case['kind'], herm)
  op = Op(mat, shape, case['backend'], case['style'])
  ctx.nontrivial(n >= 3)
  if herm and case['seed'] % 16 == 0:
    b = backend_factory.get_backend(case['backend'])
    v = np.ones(shape, dtype=mat.dtype)
    for k, ncv in ((2, 3), (3, 4)):
      ctx.raises(ValueError, lambda k=k, ncv=ncv: b.eigsh_lanczos(op, args=op.arrays(), initial_state=v, num_krylov_vecs=ncv, numeig=k, reorthogonalize=False), 'numeig > 1 without reorthogonalisation')
    ctx.raises(ValueError, lambda: b.eigsh_lanczos(op, args=op.arrays(), initial_state=v, num_krylov_vecs=1, numeig=2, reorthogonalize=True), 'numeig > num_krylov_vecs')
  return shape, n, mat, op


TOL = dict(real=1e-7, complex=1e-7, f32=3e-3, c64=3e-3)


def run_lanczos(case, ctx):
  shape, n, mat, op = eig_common(case, ctx, None, True)
  if case['style'] == 3:
    op.identity = True
    mat = np.eye(n, dtype=mat.dtype)
    op.mat = mat
  x, sub = start_vector(case, mat, n, shape)
  if case['style'] == 3:
    sub = 1
  tol = TOL[case['kind']]
  dim = len(sub) if isinstance(sub, list) else sub
  numeig = 1 + case['numeig'] % max(1, dim)
  reortho = numeig > 1 or case['reortho']
  ncv = max(numeig, min(case['ncv'], 40) if case['full'] == 0 else n + case['ncv'] % 3)
  kw = dict(num_krylov_vecs=ncv, numeig=numeig, reorthogonalize=reortho)
  if case['kind'] in ('f32', 'c64'):
    kw['delta'] = 1e-3
  if case['full'] == 2:
    kw.update(ndiag=1 + case['ndiag'] % 5, tol=1e-12)
  if x is None:
    kw.update(shape=shape, dtype=mat.dtype.type)
  x0 = None if x is None else x.copy()
  mod, A, xx, args, kw2 = call_eigsh_lanczos(case, op, x, kw)
  copies = [np.array(a.array if case['level'] else a) for a in args]
  if case['level'] and x is None:
    kw2['backend'] = case['backend']
  np.random.seed(case['seed'] % 2**31)
  vals, vecs = mod.eigsh_lanczos(A, args=args if args or case['reortho'] else None, **kw2)
  vals = np.asarray(vals)
  ctx.equal((len(vals), len(vecs)), (numeig, numeig), 'number of eigenpairs')
  scale = max(1.0, float(np.max(np.abs(mat))) * n)
  E = np.linalg.eigvalsh(mat)
  V = []
  for v in vecs:
    if case['level']:
      ctx.check(isinstance(v, tn.Tensor) and v.backend.name == case['backend'], 'eigenvectors are Tensors')
      v = v.array
    v = np.asarray(v)
    ctx.equal(v.shape, shape, 'shape of an eigenvector')
    ctx.close(np.linalg.norm(v), 1.0, 'norm of an eigenvector', tol=tol)
    V.append(v.ravel())
  V = np.array(V)
  ctx.check(np.all(np.abs(vals.imag) <= tol * scale), 'eigenvalues are real: {}', vals)
  vals = vals.real
  ctx.check(np.all(np.diff(vals) >= -tol * scale), 'eigenvalues ascending: {}', vals)
  if reortho or ncv <= min(6, dim):
    for lam, v in zip(vals, V):
      ctx.close(np.vdot(v, mat @ v).real / scale, lam / scale, 'eigenvalue is the Rayleigh quotient', tol=tol)
  if reortho:
    ctx.close(V.conj() @ V.T, np.eye(numeig), 'eigenvectors orthonormal', tol=max(tol, 1e-6))
  ctx.check(np.all(vals >= E[0] - tol * scale), 'value {} below the smallest eigenvalue {}', vals, E[0])
  if isinstance(sub, list):
    full = ncv >= len(sub)
    want = np.linalg.eigvalsh(mat)[sub][:numeig]
  else:
    full = ncv >= sub
    want = E[:numeig]
  if full and reortho:
    ctx.label('full')
    ctx.close(vals / scale, want / scale, 'eigenvalues of a full Krylov space', tol=tol)
    for lam, v in zip(vals, V):
      ctx.close((mat @ v) / scale, lam * v / scale, 'eigenvalue equation', tol=max(tol * 10, 1e-6))
  elif x0 is not None and case['full'] == 0 and (reortho or ncv <= min(4, dim)):
    ctx.label('partial')
    w = ritz(mat.astype(complex), x0.ravel().astype(complex), ncv)[:numeig]
    if len(w) == numeig:
      ctx.close(vals / scale, w / scale, 'Ritz values of the Krylov space', tol=tol)
  if x0 is not None:
    ctx.check(np.array_equal(np.asarray(x.array if isinstance(x, tn.Tensor) else x), x0), 'initial_state was modified')
    ctx.check(np.array_equal(np.asarray(xx.array if case['level'] else xx), x0), 'initial_state was modified')
  for a, c in zip(args, copies):
    ctx.check(np.array_equal(np.asarray(a.array if case['level'] else a), c), 'an operator argument was modified')
  op.check(ctx)


def key(which):
  return dict(LM=lambda e: -np.abs(e), SM=np.abs, LR=lambda e: -e.real, SR=lambda e: e.real)[which]


def check_selected(ctx, vals, vecs, mat, which, numeig, tol, ordered, full):
  ev = np.linalg.eigvals(mat)
  k = key(which)
  order = sorted(k(ev))
  vals = np.asarray(vals)
  scale = max(1.0, float(np.max(np.abs(ev))))
  for lam, v in zip(vals, vecs):
    ctx.close(np.linalg.norm(v), 1.0, 'norm of an eigenvector', tol=tol)
    ctx.close((mat @ v.ravel()) / scale, lam * v.ravel() / scale, 'eigenvalue equation', tol=tol)
  if full:
    ctx.close(np.sort(k(vals)) / scale, np.array(order[:numeig]) / scale, 'which={}'.format(which), tol=tol)
  left = list(ev)
  for lam in vals:
    i = int(np.argmin(np.abs(np.array(left) - lam)))
    ctx.close(lam / scale, left.pop(i) / scale, 'eigenvalue repeated or wrong', tol=tol)
  if ordered:
    ctx.check(np.all(np.diff(k(vals)) >= -tol * scale), 'order of {}', vals)


def arpack_ok(mat, x0, k, which, ncv):
  """ARPACK can return spurious pairs for few Krylov vectors."""
  if x0 is None:
    return False
  n = mat.shape[0]
  try:
    w, v = scipy.sparse.linalg.eigs(scipy.sparse.linalg.aslinearoperator(mat), k=k, which=which, ncv=ncv,
                                    v0=x0.ravel(), tol=1e-10, maxiter=3000)
  except scipy.sparse.linalg.ArpackError:
    return False
  ok = np.linalg.norm(mat @ v - v * w) < 1e-7 * max(1.0, np.linalg.norm(mat))
  return ok and np.allclose(np.linalg.norm(v, axis=0), 1.0, atol=1e-7) and len(w) == k and n > 0


def run_eigs(case, ctx):
  herm = case['herm']
  shape, n, mat, op = eig_common(case, ctx, None, herm)
  tol = 1e-6
  numeig = 1 + case['numeig'] % max(1, n - 2)
  ncv = n if case['full'] else min(n, numeig + 2 + case['ncv'] % 6)
  which = case['which']
  if which in ('SI', 'LI') or not (numeig < n - 1 and numeig + 1 < ncv):
    if which in ('SI', 'LI') or numeig + 1 >= ncv:
      b = backend_factory.get_backend('numpy')
      ctx.raises(ValueError, lambda: b.eigs(op, num_krylov_vecs=ncv, numeig=numeig, which=which,
                                            initial_state=arr(shape, 1, case['kind'])), 'invalid request')
    raise Skip('outside the range of ARPACK')
  ev = np.linalg.eigvals(mat)
  ks = np.sort(key(which)(ev))
  gap = ks[numeig] - ks[numeig - 1]
  if gap < 0.05 * np.max(np.abs(ev)):
    raise Skip('selection not separated')
  if case['start'] == 1:
    case = dict(case, start=2)
  x, _ = start_vector(case, mat, n, shape)
  kw = dict(num_krylov_vecs=ncv, numeig=numeig, which=which, tol=0 if case['full'] else 1e-10)
  kw['maxiter'] = 3000
  if x is None:
    kw.update(shape=shape, dtype=mat.dtype.type)
  x0 = None if x is None else x.copy()
  if ncv < n and not arpack_ok(mat, x0, numeig, which, ncv):
    raise Skip('ARPACK itself returns a wrong pair')
  mod, A, xx, args, kw2 = call_eigsh_lanczos(case, op, x, kw)
  if case['level'] and x is None:
    kw2['backend'] = 'numpy'
  copies = [np.array(a.array if case['level'] else a) for a in args]
  np.random.seed(case['seed'] % 2**31)
  try:
    vals, vecs = mod.eigs(A, args=args, **kw2)
  except scipy.sparse.linalg.ArpackNoConvergence:
    raise Skip('ARPACK did not converge')
  if case['level']:
    vecs = [v.array for v in vecs]
  ctx.equal((len(vals), len(vecs)), (numeig, numeig), 'number of eigenpairs')
  for v in vecs:
    ctx.equal(v.shape, shape, 'shape of an eigenvector')
  check_selected(ctx, vals, vecs, mat, which, numeig, tol, False, ncv == n)
  if x0 is not None:
    ctx.check(np.array_equal(x, x0), 'initial_state was modified')
  for a, c in zip(args, copies):
    ctx.check(np.array_equal(np.asarray(a.array if case['level'] else a), c), 'an operator argument was modified')
  op.check(ctx)


def krylov_residual(mat, r, k):
  """Smallest residual norm over the Krylov space of dimension k."""
  vs = [r / np.linalg.norm(r)]
  for _ in range(k - 1):
    v = mat @ vs[-1]
    nv = np.linalg.norm(v)
    for _ in range(2):
      for u in vs:
        v = v - u * np.vdot(u, v)
    if np.linalg.norm(v) < 1e-10 * nv:
      break
    vs.append(v / np.linalg.norm(v))
  av = mat @ np.stack(vs, 1)
  y = np.linalg.lstsq(av, r, rcond=None)[0]
  return float(np.linalg.norm(r - av @ y))


def run_gmres(case, ctx):
  shape = tuple(case['shape'])
  n = math.prod(shape)
  ctx.nontrivial(n >= 3)
  dt = matrix(1, 0, case['kind'], False).dtype
  rng_m = matrix(n, case['seed'], case['kind'], False)
  mat = (rng_m / max(1e-3, np.linalg.norm(rng_m, 2)) + [0.0, 1.5, -2.0][case['shift'] % 3] * np.eye(n)).astype(dt)
  if np.linalg.cond(mat) > 1e4:
    raise Skip('ill conditioned')
  op = Op(mat, shape, case['backend'], case['style'] % 3, watch=case['backend'] == 'numpy')
  b = backend_factory.get_backend(case['backend'])
  rhs = (arr(shape, case['seed'] + 3, case['kind']) * case['scale']).astype(dt)
  single = dt in (np.float32, np.complex64)
  x0 = None
  if case['start'] == 1:
    x0 = arr(shape, case['seed'] + 4, case['kind']).astype(dt)
  elif case['start'] == 2:
    x0 = np.linalg.solve(mat, rhs.ravel()).reshape(shape).astype(dt)
  tol = [1e-5, 1e-3, 1e-8][case['tol'] % 3]
  if single:
    tol = max(tol, 1e-4)
  atol = [None, 0.0, 1e-2, 1e-9][case['atol'] % 4]
  nk = [None, n, max(1, n - 2), 1 + case['nk'] % n, n + 3][case['full'] % 5]
  if nk is None and not case['level']:
    nk = n
  maxiter = [1, 2, 5, 40][case['maxiter'] % 4]
  kw = dict(tol=tol, num_krylov_vectors=nk, maxiter=maxiter)
  if nk is None and case['nk'] % 2:
    del kw['num_krylov_vectors']
  if atol is not None:
    kw['atol'] = atol
  args = op.arrays()
  conv = b.convert_to_tensor
  if case['level']:
    T = lambda a: tn.Tensor(conv(a), backend=b)
    A = OPS_L.setdefault((case['backend'], case['style'] % 3), TensorOp(case['style'] % 3))
    if case['style'] % 3 == 0:
      A = lambda t: tn.Tensor(op(t.array), backend=b)
    targs = [T(a) for a in args]
    tb, tx = T(rhs), None if x0 is None else T(x0)
    call = lambda **k: krylov.gmres(A, tb, A_args=targs or None, x0=tx, **dict(kw, **k))
  else:
    tb, tx = conv(rhs.copy()), None if x0 is None else conv(x0.copy())
    targs = [conv(a) for a in args]
    A = op
    call = lambda **k: b.gmres(A, tb, A_args=targs, x0=tx, **dict(kw, **k))
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    if case['bad'] == 0:
      ctx.raises(ValueError, lambda: call(tol=-1.0), 'negative tol')
      ctx.raises(ValueError, lambda: call(num_krylov_vectors=0), 'no krylov vectors')
      return
    x, info = call()
  if case['level']:
    ctx.check(isinstance(x, tn.Tensor), 'solution is a Tensor')
    x = x.array
    xb = tb.array
  else:
    xb = tb
  got = np.asarray(x)
  ctx.equal((got.shape, got.dtype.name), (shape, dt.name), 'shape and dtype of the solution')
  res = np.linalg.norm(rhs.ravel().astype(complex) - mat.astype(complex) @ got.ravel())
  goal = max(tol * np.linalg.norm(rhs), tol if atol is None else atol)
  slack = 1 + 1e-6 if not single else 1.5
  noise = (3e-5 if single else 1e-12) * max(1.0, float(np.linalg.norm(rhs)))
  ctx.label('info0' if info == 0 else 'info>0')
  ctx.check(info >= 0, 'info {}', info)
  if info == 0:
    ctx.check(res <= goal * slack + noise, 'reported convergence with residual {} > {} (norm b {})', res, goal,
              float(np.linalg.norm(rhs)))
  if (nk is None or nk >= n) and goal > (1e-3 if single else 1e-7) * np.linalg.norm(rhs):
    ctx.check(info == 0 and res <= goal * slack + noise, 'full Krylov space: info {} residual {} goal {}', info, res, goal)
  r0v = rhs.ravel() - mat @ (x0.ravel() if x0 is not None else np.zeros(n))
  r0 = np.linalg.norm(r0v)
  if not single and r0 > 0:
    best = krylov_residual(mat, r0v, min(n if nk is None else nk, n))
    ctx.check(res <= best * (1 + 1e-6) + goal * slack + noise, 'residual {} of the Krylov space, {} is possible', res, best)
  ctx.check(res <= r0 * 1.001 + goal + noise, 'residual {} grew from {}', res, r0)
  ctx.check(np.array_equal(np.asarray(xb), rhs), 'b was modified')
  if x0 is not None:
    ctx.check(np.array_equal(np.asarray(tx.array if case['level'] else tx), x0), 'x0 was modified')
  op.check(ctx)


OPS_L = {}


class TensorOp:
  """A tn.Tensor-level operator shared between calls (as users write them)."""

  def __init__(self, style):
    self.style = style

  def __call__(self, t, *args):
    if self.style == 1:
      return ((args[0] + args[1]) @ t.reshape([int(t.size), 1])).reshape(list(t.shape))
    k = t.ndim
    return tn.tensordot(args[0], t, (list(range(k, 2 * k)), list(range(k))))


# -- JAX --------------------------------------------------------------------
def jax_mv(x, H):
  k = x.ndim
  import jax.numpy as jnp
  return jnp.tensordot(H, x, (list(range(k, 2 * k)), list(range(k))))


def jax_tmv(x, H):
  k = x.ndim
  return tn.tensordot(H, x, (list(range(k, 2 * k)), list(range(k))))


def run_jax(case, ctx):
  shape = tuple(case['shape'])
  n = math.prod(shape)
  meth = case['method']
  herm = meth != 'eigs'
  mat = matrix(n, case['seed'], case['kind'], herm)
  ctx.nontrivial(n >= 3)
  ctx.label(meth)
  b = backend_factory.get_backend('jax')
  H = b.convert_to_tensor(mat.reshape(shape + shape))
  x0 = (arr(shape, case['seed'] + 9, case['kind']) * case['scale']).astype(mat.dtype)
  x = b.convert_to_tensor(x0.copy())
  numeig = 1 + case['numeig'] % 2
  full = bool(case['full'])
  if meth == 'gmres':
    return jax_gmres(case, ctx, shape, n, mat, H, x0, x, b)
  if case['start'] == 1 and herm and n > 3:
    w, v = np.linalg.eigh(mat)
    x0 = (v[:, 0] + 0.5 * v[:, 2] - 0.7 * v[:, 3]).astype(mat.dtype).reshape(shape)
    x = b.convert_to_tensor(x0.copy())
    sub = [0, 2, 3]
    ctx.label('invariant')
  else:
    sub = None
  level = case['level']
  T = lambda a: tn.Tensor(a, backend=b)
  start = dict(initial_state=x)
  tstart = dict(x0=T(x))
  if case['start'] == 3 and full:
    start = dict(shape=shape, dtype=mat.dtype.type)
    tstart = dict(start, backend='jax')
    ctx.label('random start')
    np.random.seed(case['seed'] % 2**31)
  if meth == 'lanczos':
    if case['which'] == 0:
      ctx.raises(ValueError, lambda: b.eigsh_lanczos(jax_mv, args=[H], initial_state=x, num_krylov_vecs=n, numeig=2, reorthogonalize=False), 'numeig > 1 without reorthogonalisation')
      ctx.raises(ValueError, lambda: b.eigsh_lanczos(jax_mv, args=[H], initial_state=x, num_krylov_vecs=1, numeig=2, reorthogonalize=True), 'numeig > num_krylov_vecs')
    ncv = n if full else n - 1
    which = 'SA'
    kw = dict(num_krylov_vecs=ncv, numeig=numeig, reorthogonalize=True)
    if level:
      vals, vecs = krylov.eigsh_lanczos(jax_tmv, args=[T(H)], **tstart, **kw)
      vecs = [v.array for v in vecs]
    else:
      vals, vecs = b.eigsh_lanczos(jax_mv, args=[H], **start, **kw)
  else:
    which = pick(['LM', 'LR'] if meth == 'eigs' else ['SA', 'LA', 'LM'], case['which'])
    ncv = n if full else max(numeig + 2, n - 1)
    if ncv > n:
      raise Skip('too small')
    kw = dict(num_krylov_vecs=ncv, numeig=numeig, which=which, maxiter=1 if full else 60, tol=1e-12)
    if meth == 'eigs' and level:
      vals, vecs = krylov.eigs(jax_tmv, args=[T(H)], **tstart, **kw)
      vecs = [v.array for v in vecs]
    else:
      vals, vecs = getattr(b, meth)(jax_mv, args=[H], **start, **kw)
  vals = np.asarray(vals)[:numeig]
  vecs = [np.asarray(v).reshape(-1) for v in vecs]
  ctx.equal(len(vecs), numeig, 'number of eigenvectors')
  ctx.check(np.array_equal(np.asarray(x), x0) and np.array_equal(np.asarray(H), mat.reshape(shape + shape)),
            'arguments were modified')
  ev = np.linalg.eigvals(mat) if meth == 'eigs' else np.linalg.eigvalsh(mat)
  if sub:
    ev = ev[sub]
  k = dict(SA=lambda e: e.real, LA=lambda e: -e.real, LM=lambda e: -np.abs(e), LR=lambda e: -e.real)[which]
  ks = np.sort(k(ev))
  tol = 1e-6
  if full or sub:
    if len(ks) > numeig and ks[numeig] - ks[numeig - 1] < 0.02:
      raise Skip('selection not separated')
    ctx.label('full')
    ctx.close(np.sort(k(vals)), ks[:numeig], '{} which={}'.format(meth, which), tol=tol)
    scale = max(1.0, np.max(np.abs(ev)))
    for lam, v in zip(vals, vecs):
      ctx.close(np.linalg.norm(v), 1.0, 'norm of an eigenvector', tol=tol)
      ctx.close(mat @ v / scale, lam * v / scale, 'eigenvalue equation', tol=1e-5)
    ctx.check(np.all(np.diff(k(vals)) >= -1e-6), 'order of {}', vals)
  elif meth == 'lanczos':
    w = ritz(mat.astype(complex), x0.ravel().astype(complex), ncv)[:numeig]
    ctx.close(vals.real, w, 'Ritz values of the Krylov space', tol=1e-6)
  else:
    if ks[numeig] - ks[numeig - 1] < 0.3 or (meth == 'eigs' and mat.dtype == np.float64):
      raise Skip('convergence of restarts not promised')
    scale = max(1.0, np.max(np.abs(ev)))
    for lam, v in zip(vals, vecs):
      r = np.linalg.norm(mat @ v - lam * v) / scale
      if r > 1e-4:
        raise Skip('restarts not converged')
      ctx.close(np.min(np.abs(ev - lam)), 0.0, 'value is an eigenvalue', tol=1e-3)
    ctx.close(np.sort(k(vals)), ks[:numeig], '{} which={} with restarts'.format(meth, which), tol=1e-3)


def jax_gmres(case, ctx, shape, n, mat, H, x0, x, b):
  c = dict(case, backend='jax', style=2, bad=1)
  run_gmres_jax(c, ctx, shape, n)


def run_gmres_jax(case, ctx, shape, n):
  b = backend_factory.get_backend('jax')
  kind = case['kind']
  g = matrix(n, case['seed'], kind, False)
  mat = (g / max(1e-3, np.linalg.norm(g, 2)) + [1.2, 1.5, -2.0][case['which'] % 3] * np.eye(n)).astype(g.dtype)
  rhs = (arr(shape, case['seed'] + 3, kind) * case['scale']).astype(mat.dtype)
  H = b.convert_to_tensor(mat.reshape(shape + shape))
  tol = [1e-5, 1e-3, 1e-8][case['tol'] % 3]
  nk = n if case['full'] else max(1, n // 2)
  maxiter = [1, 3, 30][case['maxiter'] % 3]
  st0 = case['start'] % 3
  xs = None if st0 == 0 else arr(shape, case['seed'] + 4, kind).astype(mat.dtype)
  kw = dict(tol=tol, num_krylov_vectors=nk, maxiter=maxiter)
  conv = b.convert_to_tensor
  if case['level']:
    T = lambda a: tn.Tensor(conv(a), backend=b)
    x, info = krylov.gmres(jax_tmv, T(rhs), A_args=[T(mat.reshape(shape + shape))],
                           x0=None if xs is None else T(xs), **kw)
    x = x.array
  else:
    x, info = b.gmres(jax_mv, conv(rhs), A_args=[H], x0=None if xs is None else conv(xs), **kw)
  got = np.asarray(x)
  ctx.equal((got.shape, got.dtype.name), (shape, mat.dtype.name), 'shape and dtype of the solution')
  res = np.linalg.norm(rhs.ravel() - mat @ got.ravel())
  goal = max(tol * np.linalg.norm(rhs), tol)
  ctx.label('gmres info0' if info == 0 else 'gmres info>0')
  if info == 0:
    ctx.check(res <= goal * 1.001 + 1e-12, 'reported convergence with residual {} > {} (norm b {})', res, goal,
              float(np.linalg.norm(rhs)))
  if case['full'] or maxiter == 30:
    ctx.check(info == 0, 'no convergence: residual {} goal {}', res, goal)
  r0v = rhs.ravel() - mat @ (xs.ravel() if xs is not None else np.zeros(n))
  r0 = np.linalg.norm(r0v)
  if r0 > 0:
    best = krylov_residual(mat, r0v, nk)
    ctx.check(res <= best * (1 + 1e-6) + goal * 1.001, 'residual {} of the Krylov space, {} is possible', res, best)
  ctx.check(res <= r0 * 1.001 + goal, 'residual {} grew from {}', res, r0)


common = dict(seed=seeds, numeig=st.integers(0, 6), ncv=st.integers(1, 14), ndiag=st.integers(0, 6),
              start=st.integers(0, 3), sub=st.integers(0, 8), reortho=st.booleans(), full=st.integers(0, 2),
              level=st.booleans(), scale=st.sampled_from([1.0, 0.01, 30.0]))
g_lanczos = st.fixed_dictionaries(dict(common, shape=st.sampled_from(SHAPES), backend=st.just('numpy'),
                                       kind=st.sampled_from(['real', 'complex', 'complex', 'f32', 'c64']),
                                       style=st.sampled_from([0, 1, 2, 0, 1, 2, 3])))
g_eigs = st.fixed_dictionaries(dict(common, shape=st.sampled_from(SHAPES[3:]), backend=st.just('numpy'),
                                    kind=st.sampled_from(['real', 'complex']), herm=st.booleans(),
                                    which=st.sampled_from(['LM', 'LR', 'SM', 'SR', 'LM', 'LR', 'SM', 'SR', 'LI', 'SI']),
                                    style=st.integers(0, 2)))
g_gmres = st.fixed_dictionaries(dict(seed=seeds, shape=st.sampled_from(SHAPES), backend=st.just('numpy'),
                                     kind=st.sampled_from(['real', 'complex', 'f32', 'c64']), style=st.integers(0, 2),
                                     shift=st.integers(0, 2), scale=st.sampled_from([1.0, 0.01, 100.0]),
                                     start=st.integers(0, 2), tol=st.integers(0, 2), atol=st.integers(0, 3),
                                     nk=st.integers(0, 11), full=st.integers(0, 4), maxiter=st.integers(0, 3),
                                     level=st.booleans(), bad=st.integers(0, 9)))
g_jax = st.fixed_dictionaries(dict(seed=seeds, shape=st.sampled_from(JSHAPES), kind=st.sampled_from(['real', 'complex']),
                                   method=st.sampled_from(['lanczos', 'eigs', 'eigsh', 'gmres', 'gmres']),
                                   numeig=st.integers(0, 1), full=st.integers(0, 1), start=st.integers(0, 3),
                                   which=st.integers(0, 5), level=st.booleans(), tol=st.integers(0, 2),
                                   maxiter=st.integers(0, 2), scale=st.sampled_from([1.0, 0.01, 100.0])))

PARTS = [
    Part('lanczos', lambda: g_lanczos, run_lanczos, 4000, 60000),
    Part('eigs', lambda: g_eigs, run_eigs, 2500, 30000),
    Part('gmres', lambda: g_gmres, run_gmres, 2500, 30000),
    Part('symmetric', lambda: symkrylov.strategy, symkrylov.run, 2500, 30000),
    Part('jax', lambda: g_jax, run_jax, 400, 4000, setup=c08.jax64),
]
