"""C20: DMRG against exact diagonalisation."""
import math
import os
import warnings
import numpy as np
from hypothesis import strategies as st
from tensornetwork.backends.backend_factory import get_backend
from tensornetwork.matrixproductstates import dmrg as dm
from tensornetwork.matrixproductstates import mpo as M
from tensornetwork.matrixproductstates.finite_mps import FiniteMPS
from vt import mps as vm, symgen as sg
from vt.checks import c19
from vt.core import Part, Skip
from vt.gens import pick, seeds

ID = 'C20'
RULE = ('Random hermitian operators (built-in models, random sums of products, random dense operators split into MPOs; complex, '
        'unequal dimensions, degenerate and zero spectra), starting states, centres and histories of run_one_site, run_two_site, '
        'position and energy calls on NumPy, JAX and block-sparse tensors: every energy must be real, equal the expectation value '
        'of the current state, not lie below the exact ground energy, and not rise; environments are contracted by brute force; '
        'full bond dimension must reach the ground state. Non-trivial: a sweep on at least two sites whose ground state is not '
        'the starting state.')
ASSUMPTIONS = ['open states (outer bonds of dimension one)', 'two-site runs need two sites']

dm.stdout = open(os.devnull, 'w')


def split_mpo(h, dims, rng):
  """MPO tensors (left, right, out, in) of a dense operator."""
  n = len(dims)
  t = h.reshape(dims + dims).transpose([x for k in range(n) for x in (k, n + k)])
  t = t.reshape([d * d for d in dims])
  out, left, rest = [], 1, t.reshape(1, -1)
  for k in range(n - 1):
    u, s, v = np.linalg.svd(rest.reshape(left * dims[k]**2, -1), full_matrices=False)
    r = max(1, int((s > 1e-13 * max(s[0], 1e-300)).sum()))
    # spread the weights, mix the bond
    g = np.linalg.qr(rng.normal(size=(r, r)))[0]
    a = (u[:, :r] * np.sqrt(s[:r])) @ g
    b = g.T @ (np.sqrt(s[:r])[:, None] * v[:r])
    out.append(a.reshape(left, dims[k], dims[k], r).transpose(0, 3, 1, 2))
    left, rest = r, b
  out.append(rest.reshape(left, dims[-1], dims[-1], 1).transpose(0, 3, 1, 2))
  return out


class Sim:

  def __init__(self, case, ctx):
    self.ctx, self.case = ctx, case
    self.rng = rng = np.random.default_rng(case['seed'])
    self.be = be = case['backend']
    self.dtype = np.dtype([np.float64, np.complex128][case['dtype'] % 2])
    n = self.n = case['n']
    cplx = self.dtype.kind == 'c'
    kind = case['kind'] % 6
    dims = [2] * n
    self.sym = None
    if be == 'symmetric':
      self.symmetric(case)
    else:
      if kind in (0, 1):
        one = c19.couplings(case, n, rng)
        scale = 100 if case['mode'] % 7 == 5 else 1
        mode = lambda m: one(m) / scale
        if n == 1:
          kind = 3
        elif kind == 0:
          self.mpo = M.FiniteXXZ(mode(n - 1), mode(n - 1), mode(n), self.dtype, backend=be)
        else:
          self.mpo = M.FiniteTFI(np.asarray(mode(n - 1), dtype=float), np.asarray(mode(n), dtype=float), self.dtype, backend=be)
      if kind in (2, 3, 4):
        dims = [pick([2, 2, 3, 1, 4, 2], int(x)) for x in rng.integers(0, 6, n)]
        while math.prod(dims) > 64:
          dims[int(np.argmax(dims))] -= 1
        m = math.prod(dims)
        if kind == 4:     # low rank, degenerate
          q = rng.normal(size=(m, max(1, m // 3))) + (1j * rng.normal(size=(m, max(1, m // 3))) if cplx else 0)
          h = -q @ q.conj().T
        else:
          h = rng.normal(size=(m, m)) + (1j * rng.normal(size=(m, m)) if cplx else 0)
          h = h + h.conj().T
        h /= max(1., np.linalg.norm(h, 2))
        ts = split_mpo(h, dims, rng)
        self.mpo = M.FiniteMPO([t.astype(self.dtype) for t in ts], backend=be)
      elif kind == 5:     # sum of random two-site terms
        dims = [2 + int(x) for x in rng.integers(0, 2, n)]
        while math.prod(dims) > 64:
          dims[int(np.argmax(dims))] -= 1
        m = math.prod(dims)
        h = np.zeros((m, m), dtype=self.dtype)
        for k in range(n - 1):
          w = dims[k] * dims[k + 1]
          x = rng.normal(size=(w, w)) + (1j * rng.normal(size=(w, w)) if cplx else 0)
          h = h + np.kron(np.kron(np.eye(math.prod(dims[:k])), x + x.conj().T), np.eye(math.prod(dims[k + 2:])))
        h /= max(1., np.linalg.norm(h, 2))
        self.mpo = M.FiniteMPO([t.astype(self.dtype) for t in split_mpo(h, dims, rng)], backend=be)
      D = [pick([2, 3, 1, 4, 8, 2], int(x)) for x in rng.integers(0, 6, n - 1)]
      if case['full']:
        D = [min(math.prod(dims[:k + 1]), math.prod(dims[k + 1:])) for k in range(n - 1)]
      ts = [sg.rand_values(rng, (a, d, b), self.dtype) for a, d, b in zip([1] + D, dims, D + [1])]
      self.mps = FiniteMPS([get_backend(be).convert_to_tensor(t) for t in ts], center_position=case['center'] % n, backend=be)
    self.dims = dims if self.sym is None else self.dims
    self.before = [vm.dense_of(t).copy() for t in self.mpo.tensors]
    self.H = c19.dense(self.before)[0, 0]
    self.spec = np.linalg.eigvalsh((self.H + self.H.conj().T) / 2)
    self.scale = max(1., np.abs(self.spec).max())
    if self.sym is not None:
      # the total charge of the state is conserved
      m = self.sector()
      self.spec = np.linalg.eigvalsh(((self.H + self.H.conj().T) / 2)[np.ix_(m, m)])
    self.d = dm.FiniteDMRG(self.mps, self.mpo) if case['seed'] % 2 else dm.FiniteDMRG(self.mps, self.mpo, name='x')
    ctx.equal(self.d.name, 'x' if not case['seed'] % 2 else 'FiniteDMRG', 'name')
    ctx.check(self.d.mps is self.mps and self.d.mpo is self.mpo, 'the simulation works on the given state')

  # -- charges
  def symmetric(self, case):
    """A random U1-symmetric chain."""
    rng, n = self.rng, self.n
    self.sym = sym = pick([('U',), ('P',), (3,), ('U', 'P'), ('U',)], case['kind'])
    self.dims = [int(x) for x in rng.integers(2, 4, n)]
    while math.prod(self.dims) > 64:
      self.dims[int(np.argmax(self.dims))] -= 1
    base = sg.values(sym, 3, rng)
    phys = [[(base[:d], True)] for d in self.dims]
    be = get_backend('symmetric')
    cplx = self.dtype.kind == 'c'
    # an operator of random charge-conserving terms on neighbours
    m = math.prod(self.dims)
    legs = phys
    col = sg.fuse_all(sym, [l[0][0] for l in legs], [True] * n)
    mask = np.all(col[:, None, :] == col[None, :, :], axis=2)
    x = rng.normal(size=(m, m)) + (1j * rng.normal(size=(m, m)) if cplx else 0)
    h = np.where(mask, x + x.conj().T, 0)
    h /= max(1., np.linalg.norm(h, 2))
    self.mpo = M.FiniteMPO(self.sym_split(h, phys), backend='symmetric')
    self.total = col
    # a state
    left = [(np.zeros((1, len(sym)), dtype=np.int64), False)]
    ts = []
    want = col[int(rng.integers(0, m))]      # total charge
    for k in range(n):
      c = sg.fuse_all(sym, [left[0][0], phys[k][0][0]], [False, True])
      if k == n - 1:
        v = want[None, :]
      elif case['full']:
        a = sg.fuse_all(sym, [l[0][0] for l in phys[:k + 1]], [True] * (k + 1))
        b = sg.mod(sym, want[None, :] - sg.fuse_all(sym, [l[0][0] for l in phys[k + 1:]], [True] * (n - k - 1)))
        v = a if len(a) <= len(b) else b
        q = []
        for x in np.unique(np.concatenate([a, b]), axis=0):
          cnt = min(int(np.all(a == x, 1).sum()), int(np.all(b == x, 1).sum()))
          q += [x] * cnt
        v = np.array(q, dtype=np.int64).reshape(-1, len(sym))
      else:
        v = c[rng.permutation(len(c))[:max(1, int(rng.integers(1, 5)))]]
      right = [(v, True)]
      ts.append(sg.random_tensor(sym, [left, phys[k], right], rng, self.dtype).t)
      left = sg.conj_leg(right)
    psi = vm.state_of(ts)
    if not np.linalg.norm(psi) > 1e-3:
      raise Skip('vanishing state')
    self.want = want
    del be
    self.mps = FiniteMPS(ts, center_position=case['center'] % n, backend='symmetric')

  def sector(self):
    return np.nonzero(np.all(self.total == self.want, axis=1))[0]

  def sym_split(self, h, phys):
    """Charge-conserving MPO of a dense operator: exact, one bond state per pair of operator basis elements."""
    sym, n, dims = self.sym, self.n, self.dims
    t = h.reshape(dims + dims).transpose([x for k in range(n) for x in (k, n + k)])
    out = []
    left = [(np.zeros((1, len(sym)), dtype=np.int64), False)]
    rest = t.reshape(1, -1)
    for k in range(n):
      d = dims[k]
      if k == n - 1:
        a = rest.reshape(len(left[0][0]), d, d, 1)
        right = [(np.zeros((1, len(sym)), dtype=np.int64), True)]
      else:
        rows = rest.reshape(len(left[0][0]) * d * d, -1)
        # charge flowing through the bond for every row
        p = phys[k][0][0]
        q = sg.fuse_all(sym, [left[0][0], p, p], [False, True, False])
        us, vs, cs = [], [], []
        for x in np.unique(q, axis=0):
          sel = np.nonzero(np.all(q == x, axis=1))[0]
          u, s, v = np.linalg.svd(rows[sel], full_matrices=False)
          r = int((s > 1e-12).sum())
          for m in range(r):
            w = np.zeros(len(q), dtype=u.dtype)
            w[sel] = u[:, m] * np.sqrt(s[m])
            us.append(w)
            vs.append(v[m] * np.sqrt(s[m]))
            cs.append(x)
        if not us:
          raise Skip('zero operator')
        a = np.stack(us, 1).reshape(len(left[0][0]), d, d, len(us))
        rest = np.stack(vs, 0)
        right = [(np.array(cs, dtype=np.int64), True)]
      legs = [left, right, phys[k], sg.conj_leg(phys[k])]
      dense = a.transpose(0, 3, 1, 2).astype(self.dtype)
      full = dense * sg.mask_of(sym, legs)
      if np.abs(full - dense).max() > 1e-6:     # rounding of weak operators
        raise AssertionError('operator violates charge conservation')
      out.append(sg.build(sym, legs, full, self.rng).t)
      left = sg.conj_leg(right)
    return out

  # -- checks
  @staticmethod
  def b_random(shape, dtype, rng):
    x = rng.normal(size=shape)
    if np.issubdtype(dtype, np.complexfloating):
      x = x + 1j * rng.normal(size=shape)
    return x.astype(dtype)

  def state(self):
    psi = vm.state_of(self.mps.tensors)
    return psi.reshape(-1)

  def expectation(self):
    psi = self.state()
    nn = np.linalg.norm(psi)
    return (np.vdot(psi, self.H @ psi) / nn**2), nn

  def check_energy(self, e, what, exact=True, tol=1e-6):
    ctx = self.ctx
    e = complex(vm.number(e))
    ctx.check(abs(e.imag) <= 1e-8 * self.scale, '{}: energy {} is not real', what, e)
    want, _ = self.expectation()
    if exact:
      ctx.close(e, want, what + ': energy is not the expectation value', tol, self.scale)
    ctx.check(e.real >= self.spec[0] - 1e-8 * self.scale, '{}: energy {} below the ground state {}', what, e, self.spec[0])
    return e.real

  def check_gauge(self, what):
    c = self.mps.center_position
    for k, t in enumerate(self.mps.tensors):
      t = vm.dense_of(t)
      if k < c:
        m = t.reshape(-1, t.shape[2])
        self.ctx.close(m.conj().T @ m, np.eye(t.shape[2]), '%s: site %d is not left isometric' % (what, k), 1e-8, 1.)
      elif k > c:
        m = t.reshape(t.shape[0], -1)
        self.ctx.close(m @ m.conj().T, np.eye(t.shape[0]), '%s: site %d is not right isometric' % (what, k), 1e-8, 1.)
    for k, (t, b) in enumerate(zip(self.mpo.tensors, self.before)):
      self.ctx.check(np.array_equal(vm.dense_of(t), b), '{}: the operator was changed at site {}', what, k)

  def check_envs(self, what):
    """All stored environments against a brute-force contraction."""
    ts = [vm.dense_of(t) for t in self.mps.tensors]
    ws = self.before
    c = self.mps.center_position
    d = self.d
    e = np.ones((1, 1, 1))
    for k in range(self.n + 1):
      if k <= c:
        self.ctx.check(k in d.left_envs, '{}: left environment {} is missing', what, k)
      if k in d.left_envs:
        self.ctx.close(vm.dense_of(d.left_envs[k]), e, '%s: left environment %d, centre %d' % (what, k, c), 1e-8, max(1., np.abs(e).max()))
      if k < self.n:
        e = np.einsum('wab,apc,wvqp,bqd->vcd', e, ts[k], ws[k], ts[k].conj(), optimize=True)
    e = np.ones((1, 1, 1))
    for k in reversed(range(-1, self.n)):
      if k >= c:
        self.ctx.check(k in d.right_envs, '{}: right environment {} is missing', what, k)
      if k in d.right_envs:
        self.ctx.close(vm.dense_of(d.right_envs[k]), e, '%s: right environment %d, centre %d' % (what, k, c), 1e-8, max(1., np.abs(e).max()))
      if k >= 0:
        e = np.einsum('vcd,apc,wvqp,bqd->wab', e, ts[k], ws[k], ts[k].conj(), optimize=True)


def full_bonds(p):
  return [min(math.prod(p.dims[:k + 1]), math.prod(p.dims[k + 1:])) for k in range(p.n - 1)]


def run(case, ctx):
  p = Sim(case, ctx)
  ctx.label('n%d' % p.n)
  last = None
  for op, i, j, k in case['ops']:
    what = op
    if op in ('one', 'two'):
      sweeps = i % 4
      kw = dict(num_sweeps=sweeps, num_krylov_vecs=pick([10, 4, 20, 2, 10], j), verbose=0)
      if k % 3 == 1:
        kw.update(precision=1e-10, tol=1e-10, delta=1e-8)
      elif k % 3 == 2:
        kw.update(precision=1e-3, ndiag=1)
      e0, _ = p.expectation()
      start = p.state()
      exact = True
      with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if op == 'one':
          e = p.d.run_one_site(**kw)
        else:
          if p.n < 2:
            continue
          D = pick([64, 2, 3, 1, 64, 4], j // 5)
          e = p.d.run_two_site(D, **kw)
          exact = D >= max(full_bonds(p)) or sweeps == 0
          if sweeps:
            ctx.check(max(int(x) for x in p.mps.bond_dimensions) <= D, 'run_two_site({}): bond dimensions {}', D, p.mps.bond_dimensions)
      what = '%s-site run, %d sweeps, %s' % (op, sweeps, kw)
      got = p.check_energy(e, what, exact)
      ctx.label('%s-site' % op, 'sweeps %d' % sweeps)
      if exact:
        # variational: never worse than the starting state
        ctx.check(got <= e0.real + 1e-7 * p.scale, '{}: energy rose from {} to {}', what, e0.real, got)
      new, nn = p.expectation()
      if exact:
        ctx.close(nn, 1., what + ': state is not normalised', 1e-8)
      ctx.equal(p.mps.center_position, 0, what + ': centre')
      if sweeps:
        s = np.vdot(start, p.state()) / np.linalg.norm(start) / nn
        ctx.nontrivial(p.n >= 2 and abs(s) < 1 - 1e-9)
      last = got
    elif op == 'energy':
      e = p.d.compute_energy()
      last = p.check_energy(e, 'compute_energy', True, 1e-9)
    elif op == 'position':
      site = i % p.n
      if j % 8 == 7:
        ctx.raises(IndexError, lambda: p.d.position(p.n), 'position out of range')
        ctx.raises(IndexError, lambda: p.d.position(-1), 'position out of range')
      e0, _ = p.expectation()
      # environments of the current gauge
      p.d.compute_left_envs()
      p.d.compute_right_envs()
      p.check_envs('computed environments')
      r = p.d.position(site)
      ctx.check(r is p.d, 'position returns the simulation')
      ctx.equal(p.mps.center_position, site, 'position')
      what = 'position(%d)' % site
      p.check_envs(what)
      e1, _ = p.expectation()
      ctx.close(e1, e0, what + ' changed the state', 1e-8, p.scale)
    elif op == 'moved':      # the centre moved behind the simulation's back
      p.mps.position(i % p.n)
    elif op == 'changed':    # the state replaced between two runs
      rng = np.random.default_rng([case['seed'], i, j, k])
      site = i % p.n
      p.mps.position(site)
      if p.sym is not None:
        # another amplitude tensor of the same charges
        t = p.mps.tensors[site]
        t = t.copy()
        t.data = p.b_random(t.data.shape, t.dtype, rng)
        p.mps.tensors[site] = t / np.linalg.norm(t.data)
      elif p.n > 1 and site < p.n - 1 and j % 2:
        m = np.prod(p.dims[site:site + 2])
        u = np.linalg.qr(rng.normal(size=(m, m)))[0].astype(p.mps.tensors[0].dtype)
        u = p.mps.backend.convert_to_tensor(u.reshape((p.dims[site], p.dims[site + 1]) * 2))
        p.mps.apply_two_site_gate(u, site, site + 1, center_position=site)
      else:
        t = p.mps.tensors[site]
        x = rng.normal(size=t.shape)
        p.mps.tensors[site] = p.mps.backend.convert_to_tensor((x / np.linalg.norm(x)).astype(t.dtype))
      what = 'state changed at site %d' % site
      ctx.label('changed')
    p.check_gauge(what)
  del last
  if case['full'] and p.n >= 2:
    # from full bond dimensions (a truncated state may be stuck for good)
    p = Sim(case, ctx)
    if [int(x) for x in p.mps.bond_dimensions[1:-1]] != full_bonds(p) and p.sym is None:
      ctx.fail('bond dimensions {} of a full random state, want {}', p.mps.bond_dimensions, full_bonds(p))
    two = case['mode'] % 2
    what = 'converged %s-site run' % ('two' if two else 'one')
    kw = dict(num_sweeps=40, precision=1e-12, tol=1e-12, num_krylov_vecs=20, delta=1e-9)
    for _ in range(3):
      e = p.d.run_two_site(max(64, 1), **kw) if two else p.d.run_one_site(**kw)
    ctx.label(what)
    e = p.check_energy(e, what)
    ctx.close(e, p.spec[0], what + ': not the ground state', 1e-5, p.scale)
    p.check_gauge(what)


def run_reject(case, ctx):
  be = case['backend']
  rng = np.random.default_rng(case['seed'])
  n = 2 + case['n'] % 4
  b = get_backend(be)
  mpo = M.FiniteXXZ(np.ones(n - 1), np.ones(n - 1), np.ones(n), np.float64, backend=be)
  mps = FiniteMPS.random([2] * n, [2] * (n - 1), np.float64, backend=be)
  k = case['kind'] % 6
  ctx.label('kind %d' % k)
  ctx.nontrivial()
  one = np.ones((1, 1, 1))
  if k == 0:
    other = M.FiniteXXZ(np.ones(n), np.ones(n), np.ones(n + 1), np.float64, backend=be)
    ctx.raises(ValueError, lambda: dm.FiniteDMRG(mps, other), 'operator of another length')
  elif k == 1:
    other = M.FiniteXXZ(np.ones(n - 1), np.ones(n - 1), np.ones(n), pick([np.float32, np.complex128], case['seed']), backend=be)
    ctx.raises(TypeError, lambda: dm.FiniteDMRG(mps, other), 'operator of another dtype')
  elif k == 2:
    other = M.FiniteXXZ(np.ones(n - 1), np.ones(n - 1), np.ones(n), np.float64, backend={'numpy': 'jax', 'jax': 'numpy'}[be])
    ctx.raises(TypeError, lambda: dm.FiniteDMRG(mps, other), 'operator of another backend')
  elif k == 3:
    ts = [rng.normal(size=(1 if m == 0 else 2, 2, 1 if m == n - 1 else 2)) for m in range(n)]
    bad = FiniteMPS(ts, canonicalize=False, backend=be)
    ctx.raises(ValueError, lambda: dm.FiniteDMRG(bad, mpo), 'state that is not canonical')
  elif k == 4:
    lb, rb = [(one.astype(np.float32), one), (one, one.astype(np.float32)), (one.astype(np.complex128), one)][case['seed'] % 3]
    ctx.raises(TypeError, lambda: dm.BaseDMRG(mps, mpo, b.convert_to_tensor(lb), b.convert_to_tensor(rb), 'x'), 'boundary of another dtype')
  else:
    d = dm.BaseDMRG(mps, mpo, one, one, 'x')
    for bad in (-1, n, n + 3):
      ctx.raises(IndexError, lambda: d.position(bad), 'position out of range')


u = st.integers(0, 63)


def programs(backend, ops):
  run_op = st.sampled_from(['one', 'two'])
  between = st.sampled_from(['changed', 'changed', 'moved', 'position', 'energy'])
  free = st.lists(st.tuples(st.sampled_from(['one', 'two'] * 2 + ['position', 'energy', 'moved', 'changed'] * (backend != 'jax')), u, u, u),
                  min_size=1, max_size=ops)
  if backend == 'jax':
    return free
  # two runs with something in between
  again = st.tuples(*[st.tuples(o, u, u, u) for o in (run_op, between, run_op)]).map(list)
  return st.one_of(free, again)


def strategy(backend, nmax, ops, full):
  return lambda: st.fixed_dictionaries(dict(
      backend=st.just(backend), seed=seeds, n=st.integers(1 if backend == 'numpy' else 2, nmax), dtype=st.integers(0, 1),
      kind=u, mode=st.integers(0, 6), full=st.sampled_from([False] * full + [True]), center=u,
      ops=programs(backend, ops)))


PARTS = [Part('numpy', strategy('numpy', 6, 4, 3), run, 700, 10000, case_timeout=120),
         Part('symmetric', strategy('symmetric', 4, 3, 3), run, 160, 2500, case_timeout=120),
         Part('jax', strategy('jax', 4, 2, 4), run, 16, 240, case_timeout=240),
         Part('reject', lambda: st.fixed_dictionaries(dict(backend=st.sampled_from(['numpy', 'jax']), seed=seeds, n=u, kind=u)), run_reject,
              150, 1000)]
