"""Finite matrix product states run in lockstep with their dense state."""
import math
import warnings
import numpy as np
import tensornetwork as tn
from tensornetwork.backends.backend_factory import get_backend
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from vt.core import Skip
from vt.gens import pick
from vt import symgen as sg

KINDS = [np.float64, np.complex128, np.float32, np.complex64]
LIMIT = 6000


def dense_of(t):
  if hasattr(t, 'todense'):
    return np.asarray(t.todense())
  return np.array(t)


def state_of(tensors):
  """The dense state; the outer bonds are its first and last index."""
  psi = dense_of(tensors[0])
  for t in tensors[1:]:
    psi = np.tensordot(psi, dense_of(t), (psi.ndim - 1, 0))
  return psi


def on_site(op, psi, site):
  """Apply op[out, in] to physical index `site`."""
  return np.moveaxis(np.tensordot(op, psi, (1, site + 1)), 0, site + 1)


def on_two(gate, psi, site):
  return np.moveaxis(np.tensordot(gate, psi, ([2, 3], [site + 1, site + 2])), [0, 1], [site + 1, site + 2])


def cut(psi, bond):
  """Matrix of the state between sites bond-1 and bond."""
  return psi.reshape(math.prod(psi.shape[:bond + 1]), -1)


def truncate(psi, bond, D, err, relative):
  """(state after truncation, kept, discarded values, clear); the documented truncation rule."""
  m = cut(psi, bond)
  u, s, v = np.linalg.svd(m.astype(np.complex128 if np.iscomplexobj(m) else np.float64), full_matrices=False)
  keep = len(s)
  clear = True
  if err is not None:
    lim = err * s[0] if relative else err
    tail = np.sqrt(np.cumsum((s**2)[::-1]))        # norm of the k smallest
    drop = int((tail <= lim).sum())
    clear = clear and not np.any(np.abs(tail - lim) <= 1e-6 * max(s[0], 1e-300))
    keep -= drop
  if D is not None:
    keep = min(keep, D)
  if 0 < keep < len(s) and s[keep - 1] - s[keep] < 1e-5 * s[0]:
    clear = False
  if keep == 0:
    clear = False
  return ((u[:, :keep] * s[:keep]) @ v[:keep]).reshape(psi.shape), keep, s[keep:], clear, s


class Run:
  """A FiniteMPS and its dense state."""

  def __init__(self, case, ctx):
    self.ctx = ctx
    self.be = case['backend']
    self.rng = rng = np.random.default_rng(case['seed'])
    self.dtype = np.dtype(KINDS[case['dtype'] % (2 if self.be in ('symmetric', 'tensorflow') else 4)])
    single = self.dtype in (np.dtype(np.float32), np.dtype(np.complex64))
    self.tol = 3e-4 if single else 1e-8
    N = case['n']
    self.sym = None
    dims = [pick([2, 2, 3, 1, 2, 4], d) for d in case['d']][:N]
    while len(dims) < N:
      dims.append(2)
    outer = pick([(1, 1)] * 5 + [(2, 1), (1, 3), (2, 2), (3, 2)], case['outer'])
    while math.prod(dims) * outer[0] * outer[1] > LIMIT:
      dims[int(np.argmax(dims))] -= 1
    bonds = [outer[0]] + [pick([2, 3, 1, 4, 5, 2, 8], b) for b in (case['b'] + [1] * N)[:N - 1]] + [outer[1]]
    if self.be == 'symmetric':
      self.make_symmetric(case, dims, bonds)
    else:
      self.given = []
      for n in range(N):
        t = sg.rand_values(rng, (bonds[n], dims[n], bonds[n + 1]), self.dtype)
        style = (case['style'] + n * (case['style'] % 3)) % 8
        if style == 5:      # sparse entries, rank deficient
          t = t * (rng.integers(0, 2, t.shape)).astype(self.dtype)
          t[0, 0, 0] += 1
        elif style == 6:    # repeated blocks
          t = np.repeat(t[:, :, :1], t.shape[2], axis=2)
        elif style == 7:
          t = t * self.dtype.type(3.)
        self.given.append(t)
      self.given = [get_backend(self.be).convert_to_tensor(t) for t in self.given]
    self.before = [dense_of(t).copy() for t in self.given]
    self.psi = self.wide(state_of(self.given))
    if np.linalg.norm(self.psi) < 1e-3 * math.prod(np.linalg.norm(t) for t in self.before):
      raise Skip('vanishing state')
    self.broken = False
    canonical = case['canonical']
    center = case['center'] % N if case['center'] < 40 else None
    be = get_backend(self.be) if case['seed'] % 2 else self.be
    if canonical:
      self.mps = FiniteMPS(list(self.given), center_position=center, canonicalize=True, backend=be)
      self.normalize()
      ctx.equal(self.mps.center_position, 0 if center is None else center, 'initial centre')
    else:
      if center is not None:
        ctx.raises(ValueError, lambda: FiniteMPS(list(self.given), center_position=center, canonicalize=False, backend=be),
                   'centre of a state that is not canonical')
      self.mps = FiniteMPS(list(self.given), canonicalize=False, backend=be)
      ctx.equal(self.mps.center_position, None, 'initial centre')
    self.N = N

  def wide(self, x):
    x = np.asarray(x)
    return x.astype(np.complex128 if np.iscomplexobj(x) else np.float64)

  def normalize(self):
    self.psi = self.psi / np.linalg.norm(self.psi)

  def make_symmetric(self, case, dims, bonds):
    rng = self.rng
    self.sym = sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
    N = case['n']
    left = sg.rand_leg(sym, rng, [bonds[0]])
    if rng.integers(0, 2):
      left = [(np.zeros_like(left[0][0]), left[0][1])]
    self.given, self.phys = [], []
    for n in range(N):
      phys = sg.rand_leg(sym, rng, [dims[n]])
      flow = bool(rng.integers(0, 2))
      c = sg.fuse_all(sym, [left[0][0], phys[0][0]], [left[0][1], phys[0][1]])
      c = sg.dual(sym, c)       # what the right leg must carry
      c = c[rng.integers(0, len(c), bonds[n + 1])] if rng.integers(0, 3) else np.concatenate([c] * 8)[:bonds[n + 1]]
      right = [(sg.dual(sym, c) if flow else c, flow)]
      t = sg.random_tensor(sym, [left, phys, right], rng, self.dtype)
      self.given.append(t.t)
      self.phys.append(phys)
      left = sg.conj_leg(right)

  # -- operators
  def operator(self, sites, kind, out=None):
    """(dense operator with indices out.., in.., tensor of the backend)."""
    shape = [self.psi.shape[s + 1] for s in sites]
    n = math.prod(shape)
    if self.sym is not None:
      legs = [self.phys[s] for s in sites]
      full = legs + [sg.conj_leg(l) for l in legs]
      mask = sg.mask_of(self.sym, full).reshape(n, n)
    else:
      mask = np.ones((n, n), dtype=bool)
    m = sg.rand_values(self.rng, (n, n), self.wide(np.zeros(1, self.dtype)).dtype) * mask
    if kind == 'unitary':
      u, _, v = np.linalg.svd(m)
      w = u @ v
      if self.sym is not None:
        m = np.zeros_like(m)
        h = np.where(mask, w + w.conj().T, 0)
        e, x = np.linalg.eigh(h)
        if np.iscomplexobj(h):
          m = (x * np.exp(1j * e)) @ x.conj().T
        else:            # orthogonal, block-diagonal
          m = np.linalg.inv(np.eye(n) + (np.where(mask, w - w.T, 0))) @ (np.eye(n) - np.where(mask, w - w.T, 0))
        m = m * mask
      else:
        m = w
    elif kind == 'projector':
      m = np.diag((self.rng.integers(0, 3, n) > 0).astype(m.dtype))
    elif kind == 'hermitian':
      m = m + m.conj().T
    elif kind == 'identity':
      m = np.eye(n, dtype=m.dtype)
    m = m.astype(self.dtype).reshape(shape + shape)
    if self.sym is not None:
      t = sg.build(self.sym, full, m, self.rng).t
    else:
      t = get_backend(self.be).convert_to_tensor(m)
    return self.wide(m), t

  # -- checks
  def check_state(self, what):
    ctx, mps = self.ctx, self.mps
    for n, t in enumerate(mps.tensors):
      ctx.equal(len(t.shape), 3, '%s: rank of tensor %d' % (what, n))
      ctx.equal(np.dtype(t.dtype.as_numpy_dtype if hasattr(t.dtype, 'as_numpy_dtype') else t.dtype), self.dtype,
                '%s: dtype of tensor %d' % (what, n))
    got = state_of(mps.tensors)
    ctx.equal(got.shape, self.psi.shape, what + ': shape of the state')
    ctx.close(got, self.psi, what + ': state', self.tol, max(np.linalg.norm(self.psi), 1e-30))
    for n, (t, b) in enumerate(zip(self.given, self.before)):
      ctx.check(np.array_equal(dense_of(t), b), '{}: the tensor given for site {} was changed', what, n)

  def check_gauge(self, what):
    c = self.mps.center_position
    if c is None or self.broken:
      return
    for n, t in enumerate(self.mps.tensors):
      t = dense_of(t)
      if n < c:
        m = t.reshape(-1, t.shape[2])
        self.ctx.close(m.conj().T @ m, np.eye(t.shape[2]), '%s: site %d, left of the centre %d, is not left isometric' % (what, n, c),
                       self.tol, 1.)
      elif n > c:
        m = t.reshape(t.shape[0], -1)
        self.ctx.close(m @ m.conj().T, np.eye(t.shape[0]), '%s: site %d, right of the centre %d, is not right isometric' % (what, n, c),
                       self.tol, 1.)

  def check_dims(self, what):
    ctx, mps = self.ctx, self.mps
    shapes = [tuple(int(x) for x in t.shape) for t in mps.tensors]
    want = [shapes[0][0]] + [s[2] for s in shapes]
    ctx.equal(want[:-1], [s[0] for s in shapes], what + ': neighbouring bonds')
    ctx.equal([int(x) for x in mps.bond_dimensions], want, what + ': bond_dimensions')
    ctx.equal([int(mps.bond_dimension(b)) for b in range(self.N + 1)], want, what + ': bond_dimension')
    ctx.equal([int(x) for x in mps.physical_dimensions], list(self.psi.shape[1:-1]), what + ': physical_dimensions')
    ctx.equal(len(mps), self.N, what + ': len')
    ctx.raises(IndexError, lambda: mps.bond_dimension(self.N + 1), what + ': bond_dimension out of range')
    for n in range(self.N):
      ctx.check(mps.get_tensor(n) is mps.tensors[n], '{}: get_tensor({})', what, n)
    ctx.raises((IndexError, ValueError), lambda: mps.get_tensor(self.N), what + ': get_tensor out of range')
    ctx.raises((IndexError, ValueError), lambda: mps.get_tensor(-1), what + ': get_tensor(-1)')

  def envs(self, direction):
    """Reduced density matrices from the actual tensors, for all cuts."""
    ts = [self.wide(dense_of(t)) for t in self.mps.tensors]
    out = {}
    if direction == 'left':
      e = np.eye(ts[0].shape[0])
      out[0] = e
      for n, t in enumerate(ts):
        e = np.einsum('ab,apc,bpd->cd', e, t, t.conj(), optimize=True)
        out[n + 1] = e
    else:
      e = np.eye(ts[-1].shape[2])
      out[self.N - 1] = e
      for n in reversed(range(self.N)):
        e = np.einsum('cd,apc,bpd->ab', e, ts[n], ts[n].conj(), optimize=True)
        out[n - 1] = e
    return out


def do_position(p, i, j, k, reject=True):
  ctx, mps = p.ctx, p.mps
  site = i % p.N
  if mps.center_position is None:
    ctx.raises(ValueError, lambda: mps.position(site), 'position without a centre')
    return
  if k % 16 == 15 and reject:
    bad = [-1, p.N][i % 2]
    ctx.raises(ValueError, lambda: mps.position(bad), 'position out of range')
    ctx.raises(ValueError, lambda: mps.position(site, max_truncation_err=1.0), 'truncation error 1')
    return
  normalize = not j % 2 and not p.broken
  D = pick([None, None, 1, 2, 3, 2, 4, 30], k)
  err = pick([None, None, None, 0.0, 1e-3, 0.1, 0.4, 0.8], k // 8)
  if p.broken:
    D = err = None
  old = mps.center_position
  single = p.tol > 1e-6
  psi = p.psi
  clear = True
  dims = [int(x) for x in mps.bond_dimensions]
  want = list(dims)
  Z = np.linalg.norm(psi)
  steps = [(n + 1, n) for n in range(old, site)] if site > old else [(n, n) for n in range(old, site, -1)]
  for bond, _ in steps:
    use = (D is not None and D < dims[bond]) or err is not None
    if use:
      psi, keep, _, ok, s = truncate(psi, bond, D, err, True)
      if single and (err is not None or ok and np.any(s[:keep] < 1e-3 * s[0])):
        ok = False
      if err is not None and err < 1e-9:
        ok = False      # only rounding decides what is kept
      clear = clear and ok
      if not clear:
        break
      want[bond] = keep
    else:
      want[bond] = None
    Z = np.linalg.norm(psi)
    if normalize:
      psi = psi / Z
  if not steps and normalize:
    psi = psi / Z
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    got = mps.position(site, normalize=normalize, D=D, max_truncation_err=err)
  what = 'position(%d, normalize=%s, D=%s, err=%s) from %d' % (site, normalize, D, err, old)
  ctx.label('position', 'truncating' if D is not None or err is not None else 'exact')
  ctx.equal(mps.center_position, site, what + ': centre')
  new = [int(x) for x in mps.bond_dimensions]
  for b in range(p.N + 1):
    on_way = any(b == x for x, _ in steps)
    if not on_way:
      ctx.equal(new[b], dims[b], '%s: bond %d' % (what, b))
    else:
      ctx.check(new[b] <= dims[b], '{}: bond {} grew from {} to {}', what, b, dims[b], new[b])
      if D is not None:
        ctx.check(new[b] <= D, '{}: bond {} has dimension {}', what, b, new[b])
      if clear and want[b] is not None and p.sym is None:
        ctx.equal(new[b], want[b], '%s: bond %d' % (what, b))
  if not p.broken:
    z = complex(np.asarray(got)).real if not hasattr(got, 'todense') else float(got.todense())
    if clear:
      ctx.close(z, Z, what + ': returned norm', p.tol, max(Z, 1e-30))
  if clear:
    p.psi = psi
  else:
    # the choice among equal values is free; the loss is bounded by the Schmidt values
    now = p.wide(state_of(mps.tensors))
    if not normalize:
      loss = np.linalg.norm(now - p.psi)**2
      if err is not None and D is None:
        ctx.check(loss <= len(steps) * (err * np.linalg.norm(p.psi))**2 * (1 + 1e-6) + p.tol * np.linalg.norm(p.psi)**2,
                  '{}: lost {}', what, loss)
    p.psi = now
  ctx.nontrivial(bool(steps) and max(dims[1:-1] + [0]) >= 2)
  p.check_state(what)
  p.check_gauge(what)


def do_canonicalize(p, i, j, k):
  mps = p.mps
  old = mps.center_position
  normalize = bool(i % 2)
  if k % 4 == 0:
    mps.center_position = old = None      # documented reset
  z = mps.canonicalize(normalize) if j % 2 else mps.canonicalize(normalize=normalize)
  what = 'canonicalize(normalize=%s), centre %s' % (normalize, old)
  p.ctx.label('canonicalize')
  p.ctx.equal(mps.center_position, 0 if old is None else old, what + ': centre')
  if not normalize:
    p.ctx.close(complex(np.asarray(z)).real, np.linalg.norm(p.psi), what + ': returned norm', p.tol, np.linalg.norm(p.psi))
  else:
    p.normalize()
  p.broken = False
  p.ctx.nontrivial(max([int(x) for x in mps.bond_dimensions]) >= 2)
  p.check_state(what)
  p.check_gauge(what)


def do_envs(p, i, j, k):
  if p.broken:
    return
  mps, ctx = p.mps, p.ctx
  ctx.label('envs')
  for direction, f, lo, hi in (('left', mps.left_envs, 0, p.N), ('right', mps.right_envs, -1, p.N - 1)):
    sites = [int(x) for x in p.rng.integers(lo, hi + 1, 1 + k % 4)]
    want = p.envs(direction)
    got = f(sites if j % 2 else np.array(sites))
    ctx.equal(sorted(int(x) for x in got), sorted(set(sites)), direction + '_envs: sites')
    for s in sites:
      ctx.close(dense_of(got[s]), want[s], '%s_envs at %d, centre %s' % (direction, s, mps.center_position), p.tol,
                max(np.linalg.norm(want[s]), 1e-30))
    ctx.equal(f([]), {}, direction + '_envs of no site')
    for bad in (lo - 1, hi + 1):
      ctx.raises(ValueError, lambda: f([bad]), '%s_envs at %d' % (direction, bad))
  p.check_state('envs')


def do_orthonormality(p, i, j, k):
  mps, ctx = p.mps, p.ctx
  site = i % p.N
  t = p.wide(dense_of(mps.tensors[site]))
  m = t.reshape(-1, t.shape[2])
  l = np.linalg.norm(m.conj().T @ m - np.eye(t.shape[2]))
  m = t.reshape(t.shape[0], -1)
  r = np.linalg.norm(m @ m.conj().T - np.eye(t.shape[0]))
  for names, want in ((('l', 'left'), l), (('r', 'right'), r)):
    got = mps.check_orthonormality(names[j % 2], site)
    ctx.close(complex(number(got)), want, 'check_orthonormality %s at %d' % (names[0], site), 10 * p.tol, max(want, 1.))
  ctx.raises(ValueError, lambda: mps.check_orthonormality(['up', 1, ''][k % 3], site), 'check_orthonormality of an unknown side')
  c = mps.center_position
  if c is None:
    ctx.raises(ValueError, mps.check_canonical, 'check_canonical without a centre')
  else:
    dev = 0.
    for n, t in enumerate(mps.tensors):
      t = p.wide(dense_of(t))
      if n < c:
        m = t.reshape(-1, t.shape[2])
        dev += np.linalg.norm(m.conj().T @ m - np.eye(t.shape[2]))**2
      elif n > c:
        m = t.reshape(t.shape[0], -1)
        dev += np.linalg.norm(m @ m.conj().T - np.eye(t.shape[0]))**2
    ctx.label('check_canonical')
    ctx.close(complex(number(mps.check_canonical())), np.sqrt(dev), 'check_canonical', 10 * p.tol, max(1., np.sqrt(dev)))
  p.check_state('check_orthonormality')


def number(x):
  if hasattr(x, 'todense'):
    x = x.todense()
  return np.asarray(x).reshape(())[()]


def do_transfer(p, i, j, k):
  mps, ctx = p.mps, p.ctx
  site = i % p.N
  t = p.wide(dense_of(mps.tensors[site]))
  for names, ax, sub in (((1, 'l', 'left'), 0, 'ab,apc,bpd->cd'), ((-1, 'r', 'right'), 2, 'cd,apc,bpd->ab')):
    if p.sym is None:
      x = sg.rand_values(p.rng, (t.shape[ax],) * 2, p.dtype)
      arg = get_backend(p.be).convert_to_tensor(x)
    else:
      leg = sg.conj_leg(sg.read_legs(mps.tensors[site])[ax])
      s = sg.random_tensor(p.sym, [leg, sg.conj_leg(leg)], p.rng, p.dtype)
      x, arg = s.dense, s.t
    got = mps.apply_transfer_operator(site, names[k % 3], arg)
    want = np.einsum(sub, p.wide(x), t, t.conj(), optimize=True)
    ctx.close(dense_of(got), want, 'apply_transfer_operator %s at %d' % (names[k % 3], site), p.tol, max(np.linalg.norm(want), 1e-30))
    ctx.check(np.array_equal(dense_of(arg), x), 'apply_transfer_operator changed its argument')
  ctx.raises(ValueError, lambda: mps.apply_transfer_operator(site, pick([0, 2, 'up'], k), arg), 'unknown direction')


def do_dims(p, i, j, k):
  p.check_dims('dims')


def do_gate1(p, i, j, k, kinds=('unitary', 'general', 'projector', 'hermitian')):
  mps, ctx = p.mps, p.ctx
  site = i % p.N
  if k % 16 == 15:
    _, two = p.operator([site, site], 'general') if p.sym is None else (0, mps.tensors[site])
    ctx.raises(ValueError, lambda: mps.apply_one_site_gate(two, site), 'gate of rank other than 2')
    _, one = p.operator([site], 'general')
    ctx.raises(ValueError, lambda: mps.apply_one_site_gate(one, pick([-1, p.N], j)), 'site out of range')
    return p.check_state('rejected gate')
  kind = pick(kinds, j)
  m, t = p.operator([site], kind)
  new = on_site(m, p.psi, site)
  if np.linalg.norm(new) < 1e-3 * np.linalg.norm(p.psi):
    return None
  old = mps.center_position
  mps.apply_one_site_gate(t, site)
  ctx.label('one-site ' + kind)
  p.psi = new
  ctx.equal(mps.center_position, old, 'apply_one_site_gate: centre')
  if kind != 'unitary' and old is not None and site != old:
    p.broken = True        # documented
  ctx.check(np.array_equal(dense_of(t).reshape(m.shape), m.astype(p.dtype)), 'apply_one_site_gate changed the gate')
  what = 'apply_one_site_gate (%s) at %d' % (kind, site)
  p.check_state(what)
  p.check_gauge(what)
  ctx.nontrivial(p.psi.shape[site + 1] >= 2)
  return None


def do_gate2(p, i, j, k):
  mps, ctx = p.mps, p.ctx
  if p.N < 2:
    return
  site = i % (p.N - 1)
  c = mps.center_position
  D = pick([None, None, 2, 1, 3, None, 4, 20], j)
  err = pick([None, None, None, 0.0, 1e-2, 0.3, 1.0, 0.1], k)
  if c is not None and (D is not None or err) and k % 8:
    site = min(max(c - j // 8 % 2, 0), p.N - 2)
  relative = bool(k // 8 % 2)
  center = pick([None, site, site + 1], i // 8)
  m, t = p.operator([site, site + 1], pick(['unitary', 'general', 'unitary', 'projector', 'hermitian', 'identity'], k // 16 + j // 16))
  near = c in (site, site + 1) and c is not None
  kw = dict(max_singular_values=D, max_truncation_err=err, center_position=center, relative=relative)
  if k % 16 == 15:
    far = [q for q in range(p.N) if q not in (site, site + 1)]
    if far:
      ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, site, site + 1, center_position=far[0]), 'centre away from the gate')
      ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, min(site, far[0]), max(site + 1, far[0])), 'sites that are no neighbours')
    ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, site + 1, site), 'exchanged sites')
    ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, p.N - 1, p.N), 'sites out of range')
    ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, -1, 0), 'sites out of range')
    _, one = p.operator([site], 'general')
    ctx.raises(ValueError, lambda: mps.apply_two_site_gate(one, site, site + 1), 'gate of rank two')
    return p.check_state('rejected gate')
  if (D or err) and (not near):
    ctx.raises(ValueError, lambda: mps.apply_two_site_gate(t, site, site + 1, **kw), 'truncation away from the centre')
    return p.check_state('rejected gate')
  if p.broken and (D is not None or err):
    return None
  new = on_two(m, p.psi, site)
  if np.linalg.norm(new) < 1e-3 * np.linalg.norm(p.psi):
    return None
  dims = [int(x) for x in mps.bond_dimensions]
  use = D is not None or err is not None
  full = min(dims[site] * new.shape[site + 1], new.shape[site + 2] * dims[site + 2])
  ok = True
  want_tw = np.zeros(0)
  if use and near and not p.broken:
    psi, keep, want_tw, ok, s = truncate(new, site + 1, D, err, relative)
    # the tensor has more singular values (zero ones) or fewer than the dense state
    keep = min(keep, full)
    if err == 0.0:
      ok = False if D is None or keep < D else ok
    if err is not None and err * (s[0] if relative else 1) >= np.linalg.norm(s) * 0.999999:
      return None        # everything would be discarded
    if p.tol > 1e-6 and err is not None:
      ok = False
  else:
    psi, keep = new, None
  what = 'apply_two_site_gate at (%d, %d), centre %s -> %s, D=%s, err=%s, relative=%s' % (site, site + 1, c, center, D, err, relative)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    tw = mps.apply_two_site_gate(t, site, site + 1, **kw)
  ctx.label('two-site', 'two-site truncated' if use else 'two-site exact')
  ctx.equal(mps.center_position, None if not near else site if center is None else center, what + ': centre')
  now = [int(x) for x in mps.bond_dimensions]
  ctx.equal(now[:site + 1] + now[site + 2:], dims[:site + 1] + dims[site + 2:], what + ': other bonds')
  if D is not None:
    ctx.check(now[site + 1] <= D, '{}: bond has dimension {}', what, now[site + 1])
  ctx.check(now[site + 1] <= full, '{}: bond has dimension {} of at most {}', what, now[site + 1], full)
  lost = float(np.linalg.norm(dense_of(tw)))
  scale = np.linalg.norm(new)
  if use and near and not p.broken:
    got = p.wide(state_of(mps.tensors))
    ctx.close(lost, np.linalg.norm(got - new), what + ': reported truncation is not the distance to the exact state', 10 * p.tol, scale)
    if ok:
      if p.sym is None:
        ctx.equal(now[site + 1], keep, what + ': kept singular values')
      ctx.close(lost, np.linalg.norm(want_tw), what + ': reported truncation', 10 * p.tol, scale)
    else:
      if err is not None and D is None:
        lim = err * (s[0] if relative else 1)
        ctx.check(lost <= lim * (1 + 1e-5) + p.tol * scale, '{}: lost {} of at most {}', what, lost, lim)
      psi = got
  elif not use:
    ctx.check(lost == 0, '{}: reports a truncation of {}', what, lost)
  p.psi = psi
  if not near and c is not None:
    p.broken = False        # no centre is claimed any more
  p.check_state(what)
  p.check_gauge(what)
  ctx.check(np.array_equal(dense_of(t), m.astype(p.dtype)), 'apply_two_site_gate changed the gate')
  ctx.nontrivial(max(m.shape) >= 2)
  return None


def expect(psi, phi):
  return np.vdot(phi, psi)


def do_local(p, i, j, k):
  if p.broken:
    return
  mps, ctx = p.mps, p.ctx
  sites = [int(x) for x in p.rng.integers(0, p.N, 1 + k % 4)]
  kinds = ['general', 'hermitian', 'projector', 'general', 'unitary']
  ops = [p.operator([s], pick(kinds, j + n)) for n, s in enumerate(sites)]
  got = mps.measure_local_operator([o for _, o in ops], sites if k % 3 else np.array(sites))
  what = 'measure_local_operator at %s, centre %s' % (sites, mps.center_position)
  ctx.label('local')
  ctx.equal(len(got), len(sites), what + ': number of results')
  n2 = np.linalg.norm(p.psi)**2
  for (m, t), s, g in zip(ops, sites, got):
    ctx.close(complex(g), expect(on_site(m, p.psi, s), p.psi), what + ', site %d' % s, 10 * p.tol, n2 * max(1., np.linalg.norm(m)))
    ctx.check(np.array_equal(dense_of(t), m.astype(p.dtype)), 'measure_local_operator changed an operator')
  ctx.raises(ValueError, lambda: mps.measure_local_operator([ops[0][1]] * 2, [0]), 'lists of different length')
  p.check_state(what)
  p.check_gauge(what)
  ctx.nontrivial(max(p.psi.shape[1:-1]) >= 2)


def do_correlator(p, i, j, k):
  if p.broken:
    return
  mps, ctx = p.mps, p.ctx
  site1 = i % p.N
  # the same second operator acts on several sites: they need equal dimensions
  dim = p.psi.shape[int(p.rng.integers(0, p.N)) + 1]
  ok = [s for s in range(p.N) if p.psi.shape[s + 1] == dim]
  if p.sym is not None:
    ref = ok[0]
    ok = [s for s in ok if sg.same_leg(p.phys[s], p.phys[ref])]
  sites2 = [ok[int(x)] for x in p.rng.integers(0, len(ok), 1 + k % 5)]
  if not j % 4:
    sites2 = sorted(set(sites2))
  m1, t1 = p.operator([site1], pick(['general', 'hermitian', 'unitary', 'projector'], j))
  m2, t2 = p.operator([ok[0]], pick(['general', 'unitary', 'hermitian'], j // 4))
  got = mps.measure_two_body_correlator(t1, t2, site1, sites2 if k % 3 else np.array(sites2))
  what = 'measure_two_body_correlator at %d and %s, centre %s' % (site1, sites2, mps.center_position)
  ctx.label('correlator')
  ctx.equal(len(got), len(sites2), what + ': number of results')
  n2 = np.linalg.norm(p.psi)**2 * max(1., np.linalg.norm(m1)) * max(1., np.linalg.norm(m2))
  for s, g in zip(sites2, got):
    want = expect(on_site(m1, on_site(m2, p.psi, s), site1), p.psi)
    ctx.close(complex(g), want, what + ', site %d' % s, 10 * p.tol, n2)
  ctx.raises(ValueError, lambda: mps.measure_two_body_correlator(t1, t2, pick([-1, p.N, p.N + 1], k), sites2), 'site1 out of range')
  p.check_state(what)
  p.check_gauge(what)
  ctx.nontrivial(p.N >= 2 and max(p.psi.shape[1:-1]) >= 2)
