"""C18: infinite MPS against a brute-force model of the unit cell."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st
from tensornetwork.backends.backend_factory import get_backend
from tensornetwork.matrixproductstates.infinite_mps import InfiniteMPS
from vt import mps as vm, symgen as sg
from vt.core import Part, Skip
from vt.gens import pick, seeds

ID = 'C18'
RULE = ('Random unit cells (lengths 1-4, unequal physical and bond dimensions, real and complex, products, hidden smaller states in a '
        'larger bond, unnormalised, with connector matrices) under random histories of canonicalize (all options), position, gates '
        'and transfer eigenproblems, in lockstep with a dense model of the unit cell. The infinite states are compared by the reduced '
        'density matrix of the cell, the fidelity per cell and the transfer spectrum; bonds, isometries, Schmidt values and fixed '
        'points by brute force. Non-trivial: a canonicalisation of a cell with a bond dimension of at least two.')
ASSUMPTIONS = ['the dominant transfer eigenvalue is separated: second below 0.9 of it',
               'Schmidt values are judged where they are not lost to the inverse (ratio above 1e-5, or a clear gap and cutoffs given)']


def fuse(ts):
  t = ts[0]
  for x in ts[1:]:
    t = np.tensordot(t, x, (t.ndim - 1, 0))
  return t.reshape(t.shape[0], -1, t.shape[-1])


def transfer(t, s=None):
  s = t if s is None else s
  a, c = t.shape[0], t.shape[2]
  b, d = s.shape[0], s.shape[2]
  return np.einsum('apc,bpd->abcd', t, s.conj()).reshape(a * b, c * d)


class Cell:
  """Dense unit cell with its fixed points."""

  def __init__(self, t):
    self.t = t
    D = self.D = t.shape[0]
    e = transfer(t)
    w, v = np.linalg.eig(e)
    o = np.argsort(-np.abs(w))
    self.spec = w[o]
    self.eta = abs(w[o[0]])
    self.gap = 1. if len(w) == 1 else abs(w[o[1]]) / max(self.eta, 1e-300)
    r = v[:, o[0]].reshape(D, D)
    wl, vl = np.linalg.eig(e.T)
    l = vl[:, np.argmax(np.abs(wl))].reshape(D, D)
    self.l, self.r = [self.fix(x) for x in (l, r)]       # l[a, b], r[c, d]: (ket, bra)
    if D == 1:
      self.gap = 0.

  @staticmethod
  def fix(x):
    x = x / np.trace(x)
    return (x + x.conj().T) / 2

  def rho(self):
    m = np.einsum('ab,apc,bqd,cd->pq', self.l, self.t, self.t.conj(), self.r, optimize=True)
    return m / np.trace(m)

  def canonical(self, cut=0.):
    """(left-canonical cell up to norm in the Schmidt gauge, Schmidt values)."""
    el, ul = np.linalg.eigh(self.l)
    er, ur = np.linalg.eigh(self.r)
    kl, kr = el > max(cut * el[-1], 0), er > max(cut * er[-1], 0)
    el, ul, er, ur = el[kl], ul[:, kl], er[kr], ur[:, kr]
    # l[a, b] = sum_k x[k, a] conj(x[k, b]);  r[c, d] = sum_k y[c, k] conj(y[d, k])
    x = np.sqrt(el)[:, None] * ul.T
    y = ur * np.sqrt(er)
    xi = ul.conj() / np.sqrt(el)
    yi = (ur / np.sqrt(er)).conj().T
    u, s, v = np.linalg.svd(x @ y, full_matrices=False)
    s = s / np.linalg.norm(s)
    t = np.einsum('k,km,ma,apc,cn,nj->kpj', s, v, yi, self.t, xi, u, optimize=True)
    return t, s

  def fidelity(self, other):
    w = np.linalg.eigvals(transfer(self.t, other.t))
    return np.abs(w).max() / np.sqrt(self.eta * other.eta)


class Sim:

  def __init__(self, case, ctx):
    self.ctx, self.case = ctx, case
    self.rng = rng = np.random.default_rng(case['seed'])
    self.be = be = case['backend']
    self.dtype = np.dtype([np.float64, np.complex128, np.float32, np.complex64][case['dtype'] % (4 if be == 'numpy' else 2)])
    self.single = self.dtype in (np.dtype(np.float32), np.dtype(np.complex64))
    self.tol = 5e-3 if self.single else 1e-6
    N = self.N = case['n']
    dims = [pick([2, 2, 3, 1, 2, 4], d) for d in (case['d'] + [0] * N)[:N]]
    while math.prod(dims) > 36:
      dims[int(np.argmax(dims))] -= 1
    D0 = pick([2, 3, 1, 4, 5, 6], case['b'][0])
    bonds = [D0] + [pick([2, 3, 4, 1, 5, 8], b) for b in (case['b'][1:] + [0] * N)[:N - 1]] + [D0]
    style = self.style = case['style'] % 8
    cplx = self.dtype.kind == 'c'
    self.hidden = 0
    ts = [sg.rand_values(rng, (bonds[k], dims[k], bonds[k + 1]), np.complex128 if cplx else np.float64) for k in range(N)]
    if style == 1:     # close to a product
      for t in ts:
        t *= 0.3
        t[0, 0, 0] += 2
    elif style == 2:
      ts = [t * x for t, x in zip(ts, rng.uniform(0.01, 50, N))]
    elif style == 3:    # a smaller state in a larger bond
      self.hidden = h = 1 + int(rng.integers(0, 2))
      for k in range(N):
        t = np.zeros((bonds[k] + h, dims[k], bonds[k + 1] + h), dtype=ts[k].dtype)
        t[:bonds[k], :, :bonds[k + 1]] = ts[k]
        if rng.integers(0, 2):
          up = sg.rand_values(rng, (bonds[k], dims[k], h), ts[k].dtype)
          if case['seed'] % 2:
            t[:bonds[k], :, bonds[k + 1]:] = up
          else:
            t[bonds[k]:, :, :bonds[k + 1]] = up.transpose(2, 1, 0)[:, :, :1]
        ts[k] = t
      bonds = [b + h for b in bonds]
      gs = [np.linalg.qr(rng.normal(size=(b, b)))[0] for b in bonds[:-1]]
      gs.append(gs[0])
      ts = [np.einsum('ab,bpc,dc->apd', gs[k], ts[k], gs[k + 1]) for k in range(N)]
    elif style == 4:     # positive entries: a strongly dominant fixed point
      ts = [np.abs(t).astype(t.dtype) for t in ts]
    C = None
    if case['connector'] % 4 == 1:
      C = sg.rand_values(rng, (bonds[-1], bonds[0]), self.dtype)
    elif case['connector'] % 4 == 2:
      C = np.diag(rng.uniform(0.3, 3, bonds[0])).astype(self.dtype)
    self.given = [t.astype(self.dtype) for t in ts]
    B = get_backend(be)
    self.given = [B.convert_to_tensor(t) for t in self.given]
    self.before = [np.array(t) for t in self.given]
    c = pick([None, 0, 0, N - 1, N // 2], case['center'])
    b = B if case['seed'] % 2 else be
    if C is None:
      self.mps = InfiniteMPS(list(self.given), center_position=c, backend=b)
    else:
      self.mps = InfiniteMPS(list(self.given), center_position=c, connector_matrix=B.convert_to_tensor(C), backend=b)
    ctx.equal(self.mps.center_position, c, 'initial centre')
    for bad in (-1, N, N + 2):
      ctx.raises(ValueError, lambda: InfiniteMPS(list(self.given), center_position=bad, backend=b), 'centre out of range')
    self.cell = None
    self.accept(Cell(fuse(self.read())))
    self.dims = dims
    self.canonical = False

  def wide(self, x):
    x = np.array(x)
    return x.astype(np.complex128 if np.iscomplexobj(x) else np.float64)

  def read(self):
    ts = [self.wide(self.mps.get_tensor(k)) for k in range(self.N)]
    raw = [self.wide(t) for t in self.mps.tensors]
    C = self.mps.connector_matrix
    if C is not None:
      self.ctx.close(ts[-1], raw[-1] @ self.wide(C), 'get_tensor of the last site', 1e-5 if self.single else 1e-10,
                     max(1., np.abs(ts[-1]).max()))
      raw[-1] = ts[-1]
    for a, b in zip(ts[:-1], raw):
      self.ctx.check(np.array_equal(a, b), 'get_tensor differs from the stored tensor')
    return ts

  def accept(self, cell):
    """A new model; outside the domain the rest of the case is dropped."""
    self.cell = cell
    if not cell.eta > 1e-12:
      raise Skip('vanishing state')
    if cell.gap > 0.9:
      raise Skip('dominant eigenvalue is not separated')
    t, s = cell.canonical(1e-12)
    del t
    el = np.linalg.eigvalsh(cell.l)
    er = np.linalg.eigvalsh(cell.r)
    self.ratio = min(el[0] / el[-1], er[0] / er[-1])
    if self.hidden and not self.single:
      # either clearly there or clearly absent
      for e in (el, er):
        e = e / e[-1]
        if np.any((e > 1e-13) & (e < 1e-5)):
          raise Skip('ill-conditioned')
      if s[-1] < 1e-3 * s[0] and s[-1] > 1e-6 * s[0]:
        raise Skip('ill-conditioned')
    elif self.ratio < (1e-2 if self.single else 1e-7):
      raise Skip('ill-conditioned')

  def check(self, what):
    """The state is the model's."""
    ctx, mps = self.ctx, self.mps
    for k, t in enumerate(mps.tensors):
      ctx.equal(len(t.shape), 3, '%s: rank of tensor %d' % (what, k))
      ctx.equal(np.dtype(t.dtype), self.dtype, '%s: dtype of tensor %d' % (what, k))
    ctx.equal(np.dtype(mps.dtype), self.dtype, what + ': dtype')
    ctx.equal([int(x) for x in mps.physical_dimensions], self.dims, what + ': physical dimensions')
    b = [int(x) for x in mps.bond_dimensions]
    ctx.equal(b, [mps.tensors[0].shape[0]] + [t.shape[2] for t in mps.tensors], what + ': bond dimensions')
    ctx.equal(b[1:-1], [t.shape[0] for t in mps.tensors[1:]], what + ': neighbouring bonds')
    for k, (t, x) in enumerate(zip(self.given, self.before)):
      ctx.check(np.array_equal(np.array(t), x), '{}: the tensor given for site {} was changed', what, k)
    new = Cell(fuse(self.read()))
    ctx.close(new.rho(), self.cell.rho(), what + ': reduced density matrix of the unit cell', self.tol, 1.)
    ctx.close(new.fidelity(self.cell), 1., what + ': fidelity per unit cell', self.tol, 1.)
    a, b = [np.sort(np.abs(c.spec[:6]) / c.eta)[::-1] for c in (new, self.cell)]
    m = min(len(a), len(b))
    big = a[:m] > 1e-2
    ctx.close(a[:m][big], b[:m][big], what + ': transfer spectrum', 50 * self.tol, 1.)
    return new


def iso(t, side):
  m = t.reshape(-1, t.shape[2]) if side == 'l' else t.reshape(t.shape[0], -1).conj().T
  return m.conj().T @ m


def do_canon(p, i, j, k):
  ctx, mps = p.ctx, p.mps
  B = get_backend(p.be)
  kw = {}
  if p.hidden or j % 4 == 1:
    kw.update(pseudo_inverse_cutoff=1e-9, truncation_threshold=1e-5) if not p.single else kw.update(
        pseudo_inverse_cutoff=1e-5, truncation_threshold=1e-3)
  if p.single and p.hidden:
    raise Skip('single precision of a hidden state')
  if j % 5 == 2:
    kw.update(precision=1e-12)
  if j % 7 == 3:
    kw.update(num_krylov_vecs=30, maxiter=2000)
  D0 = p.cell.D
  dims = [int(x) for x in mps.bond_dimensions]
  if k % 3 == 1:
    kw.update(left_initial_state=B.convert_to_tensor(sg.rand_values(p.rng, (D0, D0) if k % 2 else (D0 * D0,), p.dtype)))
  if k % 5 == 1:
    kw.update(right_initial_state=B.convert_to_tensor(sg.rand_values(p.rng, (D0, D0), p.dtype)))
  inits = {x: np.array(v) for x, v in kw.items() if x.endswith('state')}
  cut = 1e-8 if p.hidden else 0.
  t, s = p.cell.canonical(cut)
  keep = len(s)
  clear = True
  if p.hidden:
    keep = int((s > 1e-4 * s[0]).sum())
  if i % 3 == 1:
    D = kw['D'] = pick([1, 2, 3, 4, 10], i // 3)
    keep = min(keep, D)
  if i % 8 == 7 and not p.hidden:
    thr = kw['truncation_threshold'] = pick([0.5, 0.1, 0.3, 0.01], j)
    tail = np.sqrt(np.cumsum((s**2)[::-1])) / s[0]
    if np.any(np.abs(tail - thr) < 1e-3 * thr):
      raise Skip('truncation on the edge')
    keep = max(min(keep, len(s) - int((tail <= thr).sum())), 0)
  elif 'truncation_threshold' in kw and not p.hidden:
    if np.sqrt((s**2)[::-1].cumsum())[0] < 10 * kw['truncation_threshold'] * s[0]:
      raise Skip('truncation on the edge')
  if keep < len(s) and s[keep - 1] - s[keep] < 1e-3 * s[0]:
    clear = False
  if p.single and keep < len(s) and s[keep - 1] - s[keep] < 0.1 * s[0]:
    clear = False
  what = 'canonicalize(%s)' % ', '.join('%s=%s' % (x, 'array' if x in inits else v) for x, v in sorted(kw.items()))
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    mps.canonicalize(**kw)
  ctx.label('canonicalize', 'truncating' if keep < len(s) else 'exact')
  ctx.nontrivial(p.cell.D >= 2)
  for x, v in inits.items():
    ctx.check(np.array_equal(np.array(kw[x]), v), '{}: {} was changed', what, x)
  # what is promised of the form
  ctx.equal(mps.center_position, p.N - 1, what + ': centre')
  raw = [p.wide(x) for x in mps.tensors]
  tol = 1e-4 if p.single else 1e-8
  for n in range(p.N - 1):
    ctx.close(iso(raw[n], 'l'), np.eye(raw[n].shape[2]), '%s: site %d is not left isometric' % (what, n), tol, 1.)
  dev = complex(vm.number(mps.check_canonical()))
  ctx.check(abs(dev) <= 10 * tol, '{}: check_canonical is {}', what, dev)
  C = p.wide(mps.connector_matrix)
  ctx.check(C.ndim == 2 and C.shape[0] == C.shape[1], '{}: connector of shape {}', what, C.shape)
  K = C.shape[0]
  ctx.equal([raw[0].shape[0], raw[-1].shape[2]], [K, K], what + ': outer bonds')
  ctx.close(C - np.diag(np.diag(C)), np.zeros((K, K)), what + ': connector is not diagonal', 1e-6, np.abs(C).max())
  lam = 1 / np.diag(C)
  ctx.check(np.all(lam.real > 0) and np.all(np.abs(lam.imag) < 1e-8), '{}: bond spectrum {}', what, lam)
  lam = lam.real
  ctx.check(np.all(np.diff(lam) <= 1e-9), '{}: bond spectrum is not descending: {}', what, lam)
  ctx.close(np.linalg.norm(lam), 1., what + ': norm of the bond spectrum', tol, 1.)
  new = [int(x) for x in mps.bond_dimensions]
  for n, (a, b) in enumerate(zip(new, dims)):
    ctx.check(a <= b, '{}: bond {} grew from {} to {}', what, n, b, a)
  if 'D' in kw:
    ctx.check(K <= kw['D'], '{}: bond dimension {}', what, K)
  p.canonical = True
  if clear:
    ctx.equal(K, keep, what + ': number of Schmidt values')
    ctx.close(lam, s[:keep] / np.linalg.norm(s[:keep]), what + ': Schmidt values', p.tol, 1.)
    p.accept(Cell(t[:keep, :, :keep]))
    got = p.check(what)
  else:
    got = Cell(fuse(p.read()))
    p.dims_only = True
    p.accept(got)
  if keep == len(s) or p.hidden and 'D' not in kw:
    # left fixed point identity, right one the squared spectrum; norm one
    ctx.close(got.l * K, np.eye(K), what + ': left fixed point', 100 * p.tol, 1.)
    ctx.close(got.r, np.diag(lam**2), what + ': right fixed point', 100 * p.tol, 1.)
    ctx.close(got.eta, 1., what + ': norm per cell', p.tol, 1.)
    ctx.close(iso(p.read()[-1], 'l'), np.eye(K), what + ': last site with connector', 100 * p.tol, 1.)


def do_position(p, i, j, k):
  ctx, mps = p.ctx, p.mps
  site = i % p.N
  if mps.center_position is None:
    ctx.raises(ValueError, lambda: mps.position(site), 'position without a centre')
    return
  normalize = bool(j % 3)
  if k % 8 == 7:
    for bad in (-1, p.N):
      ctx.raises(ValueError, lambda: mps.position(bad), 'position out of range')
  old = mps.center_position
  dims = [int(x) for x in mps.bond_dimensions]
  C = None if mps.connector_matrix is None else np.array(mps.connector_matrix)
  mps.position(site, normalize=normalize)
  what = 'position(%d, normalize=%s) from %d' % (site, normalize, old)
  ctx.label('position')
  ctx.equal(mps.center_position, site, what + ': centre')
  ctx.check(C is None or np.array_equal(C, np.array(mps.connector_matrix)), '{}: connector changed', what)
  for n in range(min(old, site), max(old, site) + 1):
    if n != site:
      t = p.wide(mps.tensors[n])
      m = iso(t, 'l' if n < site else 'r')
      ctx.close(m, np.eye(len(m)), '%s: site %d is not isometric' % (what, n), 1e-4 if p.single else 1e-8, 1.)
  for a, b in zip([int(x) for x in mps.bond_dimensions], dims):
    ctx.check(a <= b, '{}: bonds grew from {} to {}', what, dims, mps.bond_dimensions)
  if normalize:
    ctx.close(np.linalg.norm(p.wide(mps.tensors[site])), 1., what + ': norm of the centre', 1e-4 if p.single else 1e-8, 1.)
  elif not p.single:
    ctx.close(Cell(fuse(p.read())).eta, p.eta_now, what + ': norm per cell changed', 1e-7, p.eta_now)
  p.check(what)


def do_gate(p, i, j, k):
  ctx, mps = p.ctx, p.mps
  two = bool(j % 2) and p.N > 1
  n = i % (p.N - two)
  shape = p.dims[n:n + 1 + two]
  m = math.prod(shape)
  g = sg.rand_values(p.rng, (m, m), p.dtype)
  if k % 2:
    g = (np.eye(m) + 0.3 * g).astype(p.dtype)
  arg = get_backend(p.be).convert_to_tensor(g.reshape(shape + shape))
  if two:
    what = 'two-site gate at %d, centre %s' % (n, mps.center_position)
    cp = pick([None, n, n + 1], k)
    mps.apply_two_site_gate(arg, n, n + 1, center_position=cp)
  else:
    what = 'one-site gate at %d' % n
    mps.apply_one_site_gate(arg, n)
  ctx.label('gate')
  lo, hi = math.prod(p.dims[:n]), math.prod(p.dims[n + 1 + two:])
  G = np.kron(np.kron(np.eye(lo), p.wide(g)), np.eye(hi))
  p.accept(Cell(np.einsum('pq,aqc->apc', G, p.cell.t)))
  ctx.check(np.array_equal(np.array(arg).reshape(m, m), g), '{}: the gate was changed', what)
  p.check(what)


def do_eigs(p, i, j, k):
  ctx, mps = p.ctx, p.mps
  B = get_backend(p.be)
  left = bool(i % 2)
  name = pick([1, 'l', 'left'], j) if left else pick([-1, 'r', 'right'], j)
  D0 = p.cell.D
  kw = {}
  if k % 3 == 1:
    kw['initial_state'] = B.convert_to_tensor(sg.rand_values(p.rng, (D0, D0), p.dtype))
  if k % 5 == 1:
    kw['precision'] = 1e-12
  if k % 7 == 1:
    kw['num_krylov_vecs'] = 40
    kw['maxiter'] = 1000
  what = 'transfer_matrix_eigs(%r%s)' % (name, ''.join(', ' + x for x in kw))
  ctx.label('eigs')
  eta, v = mps.transfer_matrix_eigs(name, **kw)
  eta = complex(vm.number(eta))
  v = p.wide(v)
  ctx.equal(v.shape, (D0, D0), what + ': shape')
  tol = 1e-3 if p.single else 1e-6
  nv = np.linalg.norm(v)
  ctx.check(nv > 1e-12, '{}: zero eigenvector', what)
  v = v / nv
  E = transfer(p.current().t)
  now = p.current()
  got = (E.T @ v.reshape(-1) if left else E @ v.reshape(-1)).reshape(D0, D0)
  ctx.close(eta, now.eta, what + ': dominant eigenvalue', tol, now.eta)
  ctx.close(got, eta * v, what + ': eigenvector', 10 * tol, now.eta)
  x = B.convert_to_tensor(sg.rand_values(p.rng, (D0, D0), p.dtype))
  x0 = p.wide(x)
  got = p.wide(mps.unit_cell_transfer_operator(name, x))
  want = (E.T @ x0.reshape(-1) if left else E @ x0.reshape(-1)).reshape(D0, D0)
  ctx.close(got, want, 'unit_cell_transfer_operator(%r)' % (name,), 1e-4 if p.single else 1e-9, max(np.abs(want).max(), 1e-30) * D0)
  ctx.check(np.array_equal(p.wide(x), x0), 'unit_cell_transfer_operator changed its argument')
  ctx.raises(ValueError, lambda: mps.apply_transfer_operator(0, pick([0, 2, 'up'], k), x), 'unknown direction')
  p.check(what)


def current(self):
  return Cell(fuse(self.read()))


Sim.current = current
OPS = {'canon': do_canon, 'position': do_position, 'gate': do_gate, 'eigs': do_eigs}


def run(case, ctx):
  p = Sim(case, ctx)
  ctx.label('N%d' % p.N, 'style %d' % p.style)
  p.check('construction')
  for op, i, j, k in case['ops']:
    p.eta_now = p.current().eta
    OPS[op](p, i, j, k)


def run_random(case, ctx):
  rng = np.random.default_rng(case['seed'])
  be = case['backend']
  N = case['n']
  d = [int(x) for x in rng.integers(1, 5, N)]
  D = [int(x) for x in rng.integers(1, 6, N + 1)]
  D[-1] = D[0]
  dt = np.dtype([np.float64, np.complex128, np.float32, np.complex64][case['dtype']])
  m = InfiniteMPS.random(d, D, dt.type, backend=get_backend(be) if case['seed'] % 2 else be)
  ctx.nontrivial(max(D) > 1)
  ctx.label(be)
  ctx.equal([tuple(int(x) for x in t.shape) for t in m.tensors], [(D[k], d[k], D[k + 1]) for k in range(N)], 'shapes of a random state')
  for t in m.tensors:
    ctx.equal(np.dtype(t.dtype.as_numpy_dtype if hasattr(t.dtype, 'as_numpy_dtype') else t.dtype), dt, 'dtype of a random state')
  ctx.equal(m.center_position, 0, 'centre of a random state')
  ctx.equal(len(m), N, 'len')
  ctx.check(m.connector_matrix is None, 'connector of a random state')
  ctx.equal([int(x) for x in m.bond_dimensions], D, 'bond dimensions')
  ctx.equal([int(m.bond_dimension(k)) for k in range(N + 1)], D, 'bond dimension')
  ctx.raises(IndexError, lambda: m.bond_dimension(N + 1), 'bond dimension out of range')
  ctx.raises(ValueError, lambda: InfiniteMPS.random(d, D[:-1] + [D[0] + 1], dt.type, backend=be), 'open outer bonds')
  ctx.raises(ValueError, lambda: InfiniteMPS.random(d, D + [D[0]], dt.type, backend=be), 'too many bonds')
  ctx.raises(ValueError, lambda: InfiniteMPS.random(d + [2], D, dt.type, backend=be), 'too few bonds')


u = st.integers(0, 63)


def strategy(backend, ops):
  return lambda: st.fixed_dictionaries(dict(
      backend=st.just(backend), seed=seeds, n=st.integers(1, 4), dtype=st.integers(0, 3), d=st.lists(u, max_size=4),
      b=st.lists(u, min_size=1, max_size=4), style=u, connector=u, center=u,
      ops=st.lists(st.tuples(st.sampled_from(['canon'] * 3 + ['position', 'gate', 'eigs']), u, u, u), min_size=1, max_size=ops)))


PARTS = [Part('numpy', strategy('numpy', 5), run, 1500, 20000, case_timeout=120),
         Part('jax', strategy('jax', 2), run, 16, 300, case_timeout=240),
         Part('random', lambda: st.fixed_dictionaries(dict(backend=st.sampled_from(['numpy', 'jax', 'tensorflow']), seed=seeds,
                                                           n=st.integers(1, 4), dtype=st.integers(0, 3))), run_random, 120, 1000)]
