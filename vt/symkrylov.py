"""Krylov solvers of the symmetric backend against dense linear algebra (part of C10)."""
import warnings
import numpy as np
import scipy.sparse.linalg
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import caching
from tensornetwork.linalg import krylov
from vt import symgen as sg
from vt.core import Skip
from vt.gens import pick, seeds


class Space:
  """The symmetric tensors with given legs, as vectors of their allowed entries."""

  def __init__(self, sym, legs):
    self.sym, self.legs = sym, legs
    self.shape = [sg.leg_dim(l) for l in legs]
    self.mask = np.asarray(sg.mask_of(sym, legs)).astype(bool)
    self.where = np.flatnonzero(self.mask)
    self.dim = len(self.where)

  def dense(self, vec):
    out = np.zeros(self.mask.size, dtype=vec.dtype)
    out[self.where] = vec
    return out.reshape(self.shape)

  def vec(self, dense):
    return np.asarray(dense).reshape(-1)[self.where]

  def operator(self, mat, rng, dtype):
    """A tensor (legs, conjugate legs) whose charge-zero block is mat; the rest is arbitrary."""
    legs = self.legs + [sg.conj_leg(l) for l in self.legs]
    full = sg.rand_values(rng, [self.mask.size] * 2, dtype) * np.asarray(sg.mask_of(self.sym, legs)).reshape(
        [self.mask.size] * 2).astype(dtype)
    full[np.ix_(self.where, self.where)] = mat
    full = full.astype(dtype).reshape(self.shape * 2)
    return sg.build(self.sym, legs, full, rng)


def matrix(n, rng, dtype, herm):
  cplx = np.issubdtype(dtype, np.complexfloating)
  g = rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0)
  if herm:
    q = np.linalg.qr(g)[0]
    ev = np.cumsum(rng.uniform(0.4, 1.4, n)) - 0.5 * n
    g = (q * ev) @ q.conj().T
    g = (g + g.conj().T) / 2
  return g.astype(dtype)


def make_space(case, rng):
  sym = pick(sg.SYMS, case['sym'])
  for _ in range(30):
    nleg = int(rng.integers(1, 4))
    dims = [[int(d) for d in rng.integers(1, 4, rng.integers(1, 3))] for _ in range(nleg)]
    if nleg == 1 and len(dims[0]) == 1:
      dims = [[int(rng.integers(3, 9))]]
    legs = sg.rand_legs(sym, rng, dims)
    sg.fill(sym, rng, legs)
    sp = Space(sym, legs)
    if 1 <= sp.dim <= 14 and sp.mask.size <= 120 and (sp.dim >= 3 or rng.integers(0, 8) == 0):
      return sp
  raise Skip('no allowed entries')


class Operator:

  def __init__(self, space, mat, style, rng):
    self.space, self.mat, self.style = space, mat, style
    self.calls = 0
    self.args = []
    self.rng = rng
    dtype = mat.dtype
    if style == 1:
      self.args = [space.operator(mat, rng, dtype).t]
    elif style == 2:
      half = (np.round(mat.real * 4) / 8).astype(dtype)
      self.args = [space.operator(half, rng, dtype).t, space.operator((mat - half).astype(dtype), rng, dtype).t]
    elif style == 3:
      # output legs permuted, undone by a lazy transposition
      h = space.operator(mat, rng, dtype).t
      k = len(space.shape)
      self.perm = [int(p) for p in rng.permutation(k)]
      self.args = [h.transpose(self.perm + list(range(k, 2 * k)))]

  def __call__(self, x, *args):
    self.calls += 1
    k = len(self.space.shape)
    ins = (list(range(k, 2 * k)), list(range(k)))
    if self.style == 0:
      out = self.space.dense(self.mat @ self.space.vec(x.todense()))
      return sg.build(self.space.sym, self.space.legs, np.asarray(out), self.rng).t
    if self.style == 1:
      return bs.tensordot(args[0], x, ins)
    if self.style == 2:
      return bs.tensordot(args[0], x, ins) + bs.tensordot(args[1], x, ins)
    return bs.tensordot(args[0], x, ins).transpose([int(p) for p in np.argsort(self.perm)])


def tol_of(dtype):
  return 3e-3 if np.dtype(dtype).itemsize == (8 if np.issubdtype(dtype, np.complexfloating) else 4) else 1e-7


def run(case, ctx):
  rng = np.random.default_rng(case['seed'])
  sp = make_space(case, rng)
  n = sp.dim
  ctx.nontrivial(n >= 3)
  meth = case['method']
  ctx.label(meth)
  b = backend_factory.get_backend('symmetric')
  dtype = np.dtype(pick(sg.DTYPES if meth == 'lanczos' else sg.DTYPES[:2], case['dtype']))
  mat = matrix(n, rng, dtype, meth == 'lanczos' or (meth == 'eigs' and case['herm']))
  if meth == 'gmres':
    mat = (mat / max(1e-3, np.linalg.norm(mat, 2)) + pick([1.5, -2.0, 1.2], case['shift']) * np.eye(n)).astype(dtype)
  op = Operator(sp, mat, case['style'], rng)
  tol = tol_of(dtype)
  x, xv = None, None
  if case['start']:
    xv = (sg.rand_values(rng, (n,), dtype) * case['scale']).astype(dtype)
    if case['start'] == 2 and meth == 'lanczos' and n > 2 and tol < 1e-5:
      w, v = np.linalg.eigh(mat)
      sub = sorted(int(i) for i in rng.permutation(n)[:rng.integers(1, n)])
      xv = (v[:, sub] @ rng.uniform(0.5, 1.5, len(sub))).astype(dtype)
    x = sg.build(sp.sym, sp.legs, sp.dense(xv), rng).t
  before = [np.asarray(a.todense()).copy() for a in op.args]
  status = case['caching']
  caching.set_caching_status(status)
  caching.clear_cache()
  try:
    _solve(case, ctx, rng, sp, n, meth, b, dtype, mat, op, tol, x, xv)
    ctx.equal(caching.get_caching_status(), status, 'caching status after the solver')
    if not status:
      ctx.equal(len(caching.get_cacher().cache), 0, 'entries left in the cache')
  finally:
    caching.set_caching_status(False)
    caching.clear_cache()
  for a, d in zip(op.args, before):
    ctx.check(np.array_equal(np.asarray(a.todense()), d), 'an operator argument was modified')
  if x is not None:
    sg.same_tensor(ctx, x, sp.dense(xv), sp.legs, sp.sym, 'initial state after the call', tol=1e-12)


def unpack(ctx, sp, vecs, level, what):
  out = []
  for v in vecs:
    if level:
      ctx.check(isinstance(v, tn.Tensor), '{} are Tensors', what)
      v = v.array
    ctx.check(isinstance(v, bs.BlockSparseTensor), '{}: {}', what, type(v))
    d = np.asarray(v.todense())
    sg.same_tensor(ctx, v, d, sp.legs, sp.sym, what)
    ctx.check(not np.any(d[~sp.mask]), '{}: forbidden entries', what)
    out.append(sp.vec(d))
  return out


def _solve(case, ctx, rng, sp, n, meth, b, dtype, mat, op, tol, x, xv):
  level = case['level']
  T = lambda a: tn.Tensor(a, backend='symmetric')
  if level:
    A = lambda t, *args: T(op(t.array, *[a.array for a in args]))
    args = [T(a) for a in op.args]
    xx = None if x is None else T(x)
  else:
    A, args, xx = op, op.args, x
  kw = {}
  if not level and case['enable'] < 2:
    kw['enable_caching'] = bool(case['enable'])
  if meth == 'gmres':
    return solve_gmres(case, ctx, rng, sp, n, b, dtype, mat, A, args, xx, xv, kw, level, T)
  if x is None:
    np.random.seed(case['seed'] % 2**31)
    ix = [sg.make_leg_index(sp.sym, l, rng) for l in sp.legs]
    kw.update(shape=ix, dtype=dtype.type)
    if level:
      kw['backend'] = 'symmetric'
  kw['x0' if level else 'initial_state'] = xx
  mod = krylov if level else b
  scale = max(1.0, float(np.max(np.abs(mat))) * n)
  E = np.linalg.eigvalsh(mat) if meth == 'lanczos' else np.linalg.eigvals(mat)
  if meth == 'lanczos':
    sub = n
    if xv is not None and case['start'] == 2 and n > 2 and tol < 1e-5:
      w, v = np.linalg.eigh(mat)
      comp = np.abs(v.conj().T @ xv)
      keep = np.flatnonzero(comp > 1e-6)
      sub = len(keep)
      E = w[keep]
    numeig = 1 + case['numeig'] % max(1, min(4, sub))
    full = case['full']
    ncv = n + case['ncv'] % 3 if full else max(numeig, 1 + case['ncv'] % n)
    reortho = numeig > 1 or case['reortho']
    kw.update(num_krylov_vecs=ncv, numeig=numeig, reorthogonalize=reortho)
    if tol > 1e-5:
      kw['delta'] = 1e-3
    if case['ndiag']:
      kw.update(ndiag=case['ndiag'], tol=1e-12)
    vals, vecs = mod.eigsh_lanczos(A, args=args, **kw)
    vals = np.asarray(vals)
    V = np.array(unpack(ctx, sp, vecs, level, 'an eigenvector'))
    ctx.equal((len(vals), len(V)), (numeig, numeig), 'number of eigenpairs')
    for v in V:
      ctx.close(np.linalg.norm(v), 1.0, 'norm of an eigenvector', tol=tol)
    ctx.check(np.all(np.abs(vals.imag) <= tol * scale), 'eigenvalues are real: {}', vals)
    vals = vals.real
    ctx.check(np.all(np.diff(vals) >= -tol * scale), 'eigenvalues ascending: {}', vals)
    ctx.check(np.all(vals >= E[0] - tol * scale), 'values {} below the smallest eigenvalue {}', vals, E[0])
    if reortho or ncv <= min(6, sub):
      for lam, v in zip(vals, V):
        ctx.close(np.vdot(v, mat @ v).real / scale, lam / scale, 'eigenvalue is the Rayleigh quotient', tol=tol)
    if reortho:
      ctx.close(V.conj() @ V.T, np.eye(numeig), 'eigenvectors orthonormal', tol=max(tol, 1e-6))
      if ncv >= sub:
        ctx.label('full')
        ctx.close(vals / scale, E[:numeig] / scale, 'eigenvalues of a full Krylov space', tol=tol)
        for lam, v in zip(vals, V):
          ctx.close(mat @ v / scale, lam * v / scale, 'eigenvalue equation', tol=max(10 * tol, 1e-6))
    if xv is not None and not case['ndiag'] and ncv < sub and (reortho or ncv <= 4):
      from vt.checks import c10
      w = c10.ritz(mat.astype(complex), xv.astype(complex), ncv)[:numeig]
      ctx.label('partial')
      ctx.close(vals / scale, w / scale, 'Ritz values of the Krylov space', tol=tol)
    return None
  from vt.checks import c10
  numeig = 1 + case['numeig'] % max(1, min(4, n - 2))
  which = pick(['LM', 'LR', 'SM', 'SR', 'LI', 'SI'], case['which'])
  if which in ('LI', 'SI') or numeig + 1 >= n:
    if which in ('LI', 'SI'):
      ctx.raises((ValueError, NotImplementedError), lambda: mod.eigs(A, args=args, which=which, numeig=1, num_krylov_vecs=n, **kw), 'unsupported which')
    raise Skip('outside the range of ARPACK')
  k = c10.key(which)
  ks = np.sort(k(E))
  if ks[numeig] - ks[numeig - 1] < 0.05 * np.max(np.abs(E)):
    raise Skip('selection not separated')
  kw.update(num_krylov_vecs=n, numeig=numeig, which=which, tol=0, maxiter=3000)
  try:
    vals, vecs = mod.eigs(A, args=args, **kw)
  except scipy.sparse.linalg.ArpackNoConvergence:
    raise Skip('ARPACK did not converge')
  V = unpack(ctx, sp, vecs, level, 'an eigenvector')
  ctx.equal((len(vals), len(V)), (numeig, numeig), 'number of eigenpairs')
  c10.check_selected(ctx, vals, V, mat, which, numeig, 1e-6, False, True)
  return None


def solve_gmres(case, ctx, rng, sp, n, b, dtype, mat, A, args, x, xv, kw, level, T):
  from vt.checks import c10
  bv = (sg.rand_values(rng, (n,), dtype) * case['scale']).astype(dtype)
  rhs = sg.build(sp.sym, sp.legs, sp.dense(bv), rng).t
  tol = pick([1e-5, 1e-3, 1e-8], case['tol'])
  atol = pick([None, 0.0, 1e-2, 1e-9], case['atol'])
  nk = [None, n, max(1, n - 2), 1 + case['ncv'] % n][case['numeig'] % 4]
  maxiter = [1, 2, 5, 40][case['which'] % 4]
  kw.update(tol=tol, maxiter=maxiter, x0=x)
  if atol is not None:
    kw['atol'] = atol
  if nk is not None:
    kw['num_krylov_vectors'] = nk
  mod = krylov if level else b
  rr = T(rhs) if level else rhs
  np.random.seed(case['seed'] % 2**31)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    if case['bad'] == 0:
      for k, v in (('tol', -1.0), ('num_krylov_vectors', 0), ('num_krylov_vectors', rhs.size + 1)):
        ctx.raises(ValueError, lambda k=k, v=v: mod.gmres(A, rr, A_args=args, **dict(kw, **{k: v})), k)
      return
    y, info = mod.gmres(A, rr, A_args=args, **kw)
  got = unpack(ctx, sp, [y], level, 'the solution')[0]
  ctx.equal(got.dtype, dtype, 'dtype of the solution')
  res = np.linalg.norm(bv - mat @ got)
  goal = max(tol * np.linalg.norm(bv), tol if atol is None else atol)
  noise = 1e-12 * max(1.0, float(np.linalg.norm(bv)))
  ctx.check(info >= 0, 'info {}', info)
  ctx.label('info0' if info == 0 else 'info>0')
  slack = 1 + 1e-6
  if info == 0:
    ctx.check(res <= goal * slack + noise, 'reported convergence with residual {} > {}', res, goal)
  if (nk is None or nk >= n) and goal > 1e-7 * np.linalg.norm(bv) and (xv is not None or np.linalg.norm(bv) > 0.1):
    ctx.check(info == 0 and res <= goal * slack + noise, 'full Krylov space: info {} residual {} goal {}', info, res, goal)
  if xv is not None:
    r0v = bv - mat @ xv
    r0 = np.linalg.norm(r0v)
    if r0 > 0:
      best = c10.krylov_residual(mat, r0v, n if nk is None else min(nk, n))
      ctx.check(res <= best * slack + goal * slack + noise, 'residual {} of the Krylov space, {} is possible', res, best)
    ctx.check(res <= r0 * 1.001 + goal + noise, 'residual {} grew from {}', res, r0)
  sg.same_tensor(ctx, rhs, sp.dense(bv), sp.legs, sp.sym, 'b after the call', tol=1e-12)


strategy = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 30), method=st.sampled_from(['lanczos', 'lanczos', 'eigs', 'gmres']),
    dtype=st.integers(0, 7), herm=st.booleans(), style=st.integers(0, 3), start=st.integers(0, 2),
    scale=st.sampled_from([1.0, 0.01, 30.0]), caching=st.booleans(), enable=st.integers(0, 2), level=st.booleans(),
    numeig=st.integers(0, 5), full=st.booleans(), ncv=st.integers(0, 14), reortho=st.booleans(),
    ndiag=st.sampled_from([0, 0, 0, 1, 3]), which=st.integers(0, 5), shift=st.integers(0, 2), tol=st.integers(0, 2),
    atol=st.integers(0, 3), bad=st.integers(0, 12)))
