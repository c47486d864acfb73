"""C26: random and constant initialisers are reproducible, typed and in range."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import block_sparse as bs
from tensornetwork.backends import backend_factory
from tensornetwork.block_sparse import charge as ch
from tensornetwork.linalg import initialization, node_linalg
from vt import symgen as sg
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds

ID = 'C26'
RULE = ('(dense) every creation routine (backend methods, tn functions, node functions, the *_like functions) on NumPy, TensorFlow and '
        'JAX; (symmetric) the same on block-sparse tensors and charge arrays with all charge types, multi-leg indices and the symmetric '
        'backend; (mps) the random states. Random shapes (scalars, empty and unit dimensions included), dtypes, bounds and seeds '
        '(0 and the largest included): shape, dtype, exact entries, equality for equal seeds whatever was drawn in between, '
        'difference for different seeds, bounds, real and imaginary parts, and mean, variance and correlation within six standard '
        'errors. Non-trivial: a random tensor of at least eight entries or a constant one with at least two.')
ASSUMPTIONS = ['seeds lie in [0, 2**32 - 2]', 'rounding to single precision may reach the upper bound']

KINDS = [np.float64, np.complex128, np.float32, np.complex64]
SEEDS = [0, 1, 2, 10, 11, 2**31 - 1, 2**31, 2**32 - 2]
BOUNDS = [None, (0.0, 1.0), (-1.0, 1.0), (0, 1), (-2.5, -1.5), (3.0, 3.5), (1e-3, 2e-3), (-1e4, 1e4), (5.0, 5.0), (-3, 0)]


def native(be, dtype):
  if be == 'tensorflow':
    import tensorflow as tf
    return tf.as_dtype(dtype)
  return dtype


def moments(ctx, x, kind, bounds, what):
  """Mean, variance and independence within six standard errors."""
  parts = [x.real, x.imag] if np.iscomplexobj(x) else [x]
  n = x.size
  for p in parts:
    p = p.astype(np.float64).ravel()
    if kind == 'randn':
      mean, var, m4 = 0., 1., 3.
    else:
      lo, hi = bounds
      mean, var = (lo + hi) / 2., (hi - lo)**2 / 12.
      m4 = 1.8
      eps = 1e-6 * max(abs(lo), abs(hi))
      ctx.check(np.all(p >= lo - eps * 0) or np.all(p >= np.float32(lo)), '{}: an entry {} is below the bound {}', what, p.min() if n else 0, lo)
      ctx.check(np.all(p <= hi) or np.all(p <= np.float32(hi)), '{}: an entry {} is above the bound {}', what, p.max() if n else 0, hi)
    if n >= 30:
      s = np.sqrt(var)
      ctx.check(abs(p.mean() - mean) <= 7 * s / np.sqrt(n) + 1e-6 * max(1, abs(mean)), '{}: mean {} of {} entries', what, p.mean(), n)
      if n >= 200:
        got = ((p - mean)**2).mean()
        ctx.check(abs(got - var) <= 8 * var * np.sqrt((m4 - 1) / n) + 1e-6 * var, '{}: variance {} of {} entries', what, got, n)
  if n >= 8 and (kind == 'randn' or bounds[1] > bounds[0]):
    for p in parts:
      ctx.check(len(np.unique(p)) > n // 2, '{}: only {} different entries of {}', what, len(np.unique(p)), n)
    if len(parts) == 2:
      ctx.check(not np.array_equal(parts[0], parts[1]), '{}: equal real and imaginary parts', what)
      if n >= 200:
        c = np.corrcoef(parts[0].ravel(), parts[1].ravel())[0, 1]
        ctx.check(abs(c) < 8 / np.sqrt(n), '{}: real and imaginary parts are correlated ({})', what, c)


def shape_of(case, rng):
  k = case['shape'] % 12
  if k == 0:
    return ()
  if k == 1:
    return (0,)
  if k == 2:
    return (2, 0, 3)
  if k < 5:
    return (int(rng.integers(100, 3000)),)
  if k == 5:
    return (int(rng.integers(10, 40)), int(rng.integers(10, 40)))
  return tuple(int(x) for x in rng.integers(1, 6, 1 + k % 5))


def disturb(be, rng):
  """Draw something else in between."""
  k = int(rng.integers(0, 4))
  b = backend_factory.get_backend(be)
  if k == 1:
    b.randn((3,))
  elif k == 2:
    b.random_uniform((2, 2), seed=int(rng.integers(1, 100)))
  elif k == 3:
    np.random.randn(2)


def plain(x, be, ctx, what, kind):
  """NumPy array of a result of any type, after checking its type."""
  if kind == 'tensor':
    ctx.check(isinstance(x, tn.Tensor), '{}: got {}', what, type(x))
    ctx.equal(x.backend.name, be, what + ': backend')
    shape = tuple(x.shape)
    x = x.array
  elif kind == 'node':
    ctx.check(isinstance(x, tn.Node), '{}: got {}', what, type(x))
    ctx.equal(x.backend.name, be, what + ': backend')
    ctx.check(all(e.is_dangling() for e in x.edges), '{}: connected edges', what)
    shape = tuple(x.shape)
    x = x.tensor
  else:
    shape = tuple(x.shape)
  m = type(x).__module__
  ctx.check(m.startswith(be), '{}: an array of {}', what, m)
  out = np.array(x)
  ctx.equal(tuple(int(i) for i in shape), out.shape, what + ': shape')
  return out


def run_dense(case, ctx):
  be = case['backend']
  rng = np.random.default_rng(case['seed'])
  kind = ['backend', 'tensor', 'node'][case['level'] % 3]
  b = backend_factory.get_backend(be)
  shape = shape_of(case, rng)
  dt = pick(KINDS, case['dtype'])
  given = case['dtype'] % 5 != 4
  arg = native(be, dt) if case['dtype'] % 7 else dt
  if not given:
    dt = np.float64
  mod = {'tensor': tn, 'node': node_linalg}.get(kind)
  bearg = b if case['level'] % 2 else be

  def call(name, *a, **kw):
    if given:
      kw['dtype'] = arg
    if kind == 'backend':
      return getattr(b, name)(*a, **kw)
    if kind == 'node' and case['level'] % 5 == 0:
      kw.update(name='given')
    return getattr(mod, name)(*a, backend=bearg, **kw)

  op = pick(['randn', 'random_uniform', 'randn', 'random_uniform', 'ones', 'zeros', 'eye', 'like'], case['op'])
  what = '%s %s(%s, %s) on %s' % (kind, op, shape, np.dtype(dt).name if given else 'default', be)
  ctx.label(be, op, kind)
  if op == 'eye':
    n = int(rng.integers(0, 6))
    m = [None, int(rng.integers(0, 6)), n][case['shape'] % 3]
    kw = {} if m is None and case['shape'] % 2 else dict(M=m)
    x = plain(call('eye', n, **kw), be, ctx, what, kind)
    ctx.equal(x.dtype, np.dtype(dt), what + ': dtype')
    ctx.check(np.array_equal(x, np.eye(n, m)), '{}: entries of eye({}, M={}): {}', what, n, m, x)
    ctx.nontrivial(x.size > 1)
  elif op in ('ones', 'zeros'):
    x = plain(call(op, list(shape) if case['shape'] % 5 == 0 and be != 'jax' else shape), be, ctx, what, kind)
    ctx.equal((x.dtype, x.shape), (np.dtype(dt), shape), what + ': dtype and shape')
    ctx.check(np.all(x == (op == 'ones')), '{}: entries {}', what, x)
    ctx.nontrivial(x.size > 1)
  elif op == 'like':
    fn, v = (initialization.ones_like, 1) if case['op'] % 16 > 7 else (initialization.zeros_like, 0)
    src = arr(shape, case['seed'], 'complex' if case['shape'] % 2 else 'f32')
    kw = dict(dtype=arg) if given else {}
    if case['level'] % 2:
      t = tn.Tensor(src, backend=be)
      other = ['numpy', 'jax', 'tensorflow', None][case['level'] // 2 % 4]
      if other:
        kw['backend'] = other
      x = plain(fn(t, **kw), be, ctx, what, 'tensor')          # the backend of the tensor
      ctx.equal(x.dtype, np.dtype(dt) if given else src.dtype, what + ': dtype')
    else:
      x = plain(fn(src, backend=be, **kw), be, ctx, what, 'tensor')
      if given:
        ctx.equal(x.dtype, np.dtype(dt), what + ': dtype')
    ctx.equal(x.shape, shape, what + ': shape')
    ctx.check(np.all(x == v), '{}: entries {}', what, x)
    ctx.nontrivial(x.size > 1)
  else:
    s = pick(SEEDS, case['s']) if case['s'] % 3 else int(rng.integers(0, 2**32 - 2))
    t = pick(SEEDS, case['s'] + 1 + case['shape']) if case['s'] % 2 else s + 1
    kw = {}
    bounds = (0., 1.)
    if op == 'random_uniform':
      q = pick(BOUNDS, case['bounds'])
      if q is not None:
        kw['boundaries'] = bounds = q
    seeded = lambda k: plain(call(op, shape, seed=k, **kw), be, ctx, what, kind)
    if case['s'] % 11 == 10:
      np.random.seed(case['seed'])
      x = plain(call(op, shape, **kw), be, ctx, what + ' without seed', kind)
      y = plain(call(op, shape, **kw), be, ctx, what + ' without seed', kind)
      if x.size >= 2 and (op == 'randn' or bounds[0] < bounds[1]):
        ctx.check(not np.array_equal(x, y), '{}: two draws without seed are equal', what)
      ctx.label('no seed')
    else:
      x = seeded(s)
      disturb(be, rng)
      y = seeded(s)
      ctx.check(np.array_equal(x, y), '{}: two draws with seed {} differ', what, s)
      disturb(be, rng)
      z = seeded(t)
      if t != s and x.size >= 2 and (op == 'randn' or bounds[0] < bounds[1]):
        ctx.check(not np.array_equal(x, z), '{}: seeds {} and {} give the same entries', what, s, t)
      if s == 0:
        ctx.label('seed 0')
      if kind != 'backend' and np.dtype(dt) == x.dtype:
        y = np.array(getattr(b, op)(shape, seed=s, **kw, **(dict(dtype=arg) if given else {})))
        ctx.check(np.array_equal(x, y), '{}: the backend method differs from the function', what)
    ctx.equal((x.dtype, x.shape), (np.dtype(dt), shape), what + ': dtype and shape')
    ctx.check(bool(np.all(np.isfinite(x))), '{}: entries that are not finite', what)
    moments(ctx, x, op, bounds, what)
    ctx.nontrivial(x.size >= 8)


def run_symmetric(case, ctx):
  rng = np.random.default_rng(case['seed'])
  sym = pick(sg.SYMS, case['sym'])
  ranks = [(1,), (2, 2), (1, 1, 1), (2, 1), (1, 2, 1), (), (3,), (1, 1)]
  struct = pick(ranks, case['shape'])
  legs = sg.rand_legs(sym, rng, [[int(x) for x in rng.integers(0 if case['shape'] % 9 == 8 else 1, 6, k)] for k in struct])
  if legs and int(np.prod([sg.leg_dim(l) for l in legs])) > 20000:
    raise Skip('large')
  if not legs:
    legs = [[(sg.values(sym, 4, rng), False)], [(sg.values(sym, 3, rng), True)]]
  index = [sg.make_leg_index(sym, l, rng) for l in legs]
  dt = pick(KINDS, case['dtype'])
  given = case['dtype'] % 5 != 4
  if not given:
    dt = np.float64
  mask = sg.mask_of(sym, legs)
  level = case['level'] % 4
  b = backend_factory.get_backend('symmetric')
  op = pick(['randn', 'random', 'randn', 'random', 'ones', 'zeros', 'eye', 'like', 'chargearray', 'charges'], case['op'])
  what = 'symmetric %s %s of %s' % (op, np.dtype(dt).name if given else 'default', [sg.leg_dim(l) for l in legs])
  ctx.label(op)
  kw = dict(dtype=dt) if given else {}

  def verify(t, dense, lg=legs, m=what):
    ctx.equal(np.dtype(t.dtype), np.dtype(dt), m + ': dtype')
    sg.same_tensor(ctx, t, dense, lg, sym, m)

  if op in ('ones', 'zeros'):
    fn = [getattr(bs, op), getattr(bs.BlockSparseTensor, op), getattr(b, op), lambda i, **k: getattr(tn, op)(i, backend='symmetric', **k).array]
    verify(fn[level](index, **kw), mask.astype(dt) if op == 'ones' else np.zeros(mask.shape, dtype=dt))
    ctx.nontrivial(mask.sum() > 1)
    return
  if op == 'eye':
    i = index[0]
    leg = legs[0]
    other = sg.conj_leg(leg)
    a = (i,) if case['shape'] % 2 else (i, sg.make_leg_index(sym, other, rng))
    t = [lambda: b.eye(a[0], M=a[1] if len(a) > 1 else None, **kw), lambda: bs.eye(*a, **kw)][level % 2]()
    # the Kronecker delta, block by block: rows and columns of equal charge in order
    n = sg.leg_dim(leg)
    verify(t, np.eye(n, dtype=dt), [leg, other])
    ctx.nontrivial(n > 1)
    return
  if op == 'like':
    dense = sg.rand_values(rng, mask.shape, dt) * mask.astype(dt)
    s = sg.build(sym, legs, np.asarray(dense, dtype=dt), rng)
    k = case['level'] // 4 % 5
    if k == 0:
      verify(bs.initialization.ones_like(s.t), mask.astype(dt))
    elif k == 1:
      verify(bs.initialization.zeros_like(s.t), np.zeros(mask.shape, dtype=dt))
    elif k == 2:
      t = bs.initialization.empty_like(s.t)
      ctx.equal((len(t.data), np.dtype(t.dtype)), (int(mask.sum()), np.dtype(dt)), what + ': empty_like')
      t.data[...] = s.t.data
      verify(t, s.dense)
    else:
      lo, hi = pick(BOUNDS[1:], case['bounds'])
      fn = bs.initialization.randn_like if k == 3 else lambda z: bs.initialization.random_like(z, (lo, hi))
      res = []
      for _ in range(2):
        np.random.seed(case['seed'] % 2**32)
        res.append(fn(s.t))
      verify(res[0], np.array(res[1].todense()))
      ctx.check(not np.any(np.asarray(res[0].todense())[~mask]), '{}: entries outside the blocks', what)
      moments(ctx, np.asarray(res[0].data), 'randn' if k == 3 else 'random', (lo, hi), what)
    verify(s.t, s.dense, m=what + ': the given tensor')
    ctx.nontrivial(mask.sum() > 1)
    return
  if op == 'charges':
    d = int(rng.integers(0, 200))
    k = case['shape'] % 3
    np.random.seed(case['seed'] % 2**32)
    lo, hi = sorted(int(x) for x in rng.integers(-5, 6, 2))
    if k == 0:
      make = lambda: ch.U1Charge.random(d, lo, hi)
    elif k == 1:
      lo, hi = 0, 1
      make = lambda: ch.Z2Charge.random(d) if case['level'] % 2 else ch.Z2Charge.random(d, 0, 1)
      ctx.raises(ValueError, lambda: ch.Z2Charge.random(d, 0, 2), what + ': values that are no Z2 charge')
    else:
      n = 2 + case['bounds'] % 6
      lo, hi = sorted(int(x) for x in rng.integers(0, n, 2))
      C = ch.ZNCharge(n)
      if case['level'] % 2:
        make = lambda: C.random(d, lo, hi)
      else:
        lo, hi = 0, n - 1
        make = lambda: C.random(d)
      ctx.raises(ValueError, lambda: C.random(d, 0, n), what + ': values that are no ZN charge')
      ctx.raises(ValueError, lambda: C.random(d, -1, 1), what + ': values that are no ZN charge')
    np.random.seed(case['seed'] % 2**32)
    c = make()
    np.random.seed(case['seed'] % 2**32)
    e = make()
    v = sg.charge_values(c)
    ctx.equal((len(c), v.shape), (d, (d, 1)), what + ': size')
    ctx.check(np.array_equal(v, sg.charge_values(e)), '{}: equal seeds give different charges', what)
    ctx.check(d == 0 or (v.min() >= lo and v.max() <= hi), '{}: charges {} out of [{}, {}]', what, v.ravel(), lo, hi)
    if d >= 60 and hi - lo <= 1:
      ctx.equal(set(v.ravel().tolist()), set(range(lo, hi + 1)), what + ': values that occur')
    ctx.nontrivial(d > 7)
    return
  bounds = (0., 1.)
  if op == 'chargearray':
    q = pick(BOUNDS, case['bounds'])
    if q is not None:
      kw['boundaries'] = bounds = q
    if case['level'] % 2:
      np.random.seed(case['seed'] % 2**32)
      t = bs.ChargeArray.random(index, **kw)
      np.random.seed(case['seed'] % 2**32)
      u = bs.ChargeArray.random(index, **kw)
      ctx.check(np.array_equal(t.data, u.data), '{}: equal seeds give different data', what)
      moments(ctx, np.asarray(t.data), 'random', bounds, what)
      ctx.equal((np.dtype(t.dtype), tuple(int(x) for x in t.shape), len(t.data)), (np.dtype(dt), mask.shape, mask.size), what + ': dtype, shape')
    ctx.nontrivial(mask.size >= 8)
    return
  s = pick(SEEDS, case['s']) if case['s'] % 3 else int(rng.integers(0, 2**32 - 2))
  t2 = s + 1
  if op == 'random':
    q = pick(BOUNDS, case['bounds'])
    if q is not None:
      kw['boundaries'] = bounds = q
  name = 'random_uniform' if op == 'random' else op

  def draw(k):
    if level == 0:
      np.random.seed(k)
      return getattr(bs, op)(index, **kw)
    if level == 1:
      np.random.seed(k)
      return getattr(bs.BlockSparseTensor, op)(index, **kw)
    if level == 2:
      return getattr(b, name)(index, seed=k, **kw)
    return getattr(tn, name)(index, seed=k, backend='symmetric', **kw).array

  x = draw(s)
  np.random.randn(3)
  y = draw(s)
  z = draw(t2)
  ctx.check(np.array_equal(x.data, y.data), '{}: two draws with seed {} differ', what, s)
  n = int(mask.sum())
  if n >= 2 and (op == 'randn' or bounds[0] < bounds[1]):
    ctx.check(not np.array_equal(x.data, z.data), '{}: seeds {} and {} give the same entries', what, s, t2)
  verify(x, np.asarray(y.todense()))
  ctx.check(not np.any(np.asarray(x.todense())[~mask]), '{}: entries outside the blocks', what)
  moments(ctx, np.asarray(x.data), op, bounds, what)
  ctx.nontrivial(n >= 8)


def run_mps(case, ctx):
  rng = np.random.default_rng(case['seed'])
  be = case['backend']
  dt = pick(KINDS, case['dtype'])
  N = 1 + case['shape'] % 5
  d = [int(x) for x in rng.integers(1, 4, N)]
  inf = case['op'] % 2
  D = [int(x) for x in rng.integers(1, 5, N - 1)]
  out = int(rng.integers(1, 4))
  full = [out] + D + [out] if inf else [1] + D + [1]
  can = bool(case['level'] % 2)

  def make():
    np.random.seed(case['seed'] % 2**32)
    if inf:
      return tn.InfiniteMPS.random(d, full, dt, backend=be)
    return tn.FiniteMPS.random(d, D, dt, canonicalize=can, backend=be)

  a, b = make(), make()
  what = '%s.random(%s, %s, %s) on %s' % (type(a).__name__, d, full, np.dtype(dt).name, be)
  ctx.label(type(a).__name__)
  ctx.equal(len(a), N, what + ': length')
  for n in range(N):
    x, y = np.array(a.tensors[n]), np.array(b.tensors[n])
    ctx.check(np.array_equal(x, y), '{}: equal seeds give different states', what)
    ctx.equal(x.dtype, np.dtype(dt), what + ': dtype')
    if inf or not can:
      ctx.equal(x.shape, (full[n], d[n], full[n + 1]), what + ': shape')
      moments(ctx, x, 'randn', None, what)
    ctx.equal(x.shape[1], d[n], what + ': physical dimension')
    ctx.check(x.shape[0] <= full[n] and x.shape[2] <= full[n + 1], '{}: bond dimensions {}', what, x.shape)
  ctx.raises(ValueError, lambda: tn.FiniteMPS.random(d, D + [2], dt, backend=be), what + ': too many bonds')
  ctx.raises(ValueError, lambda: tn.InfiniteMPS.random(d, [2] * N, dt, backend=be), what + ': too few bonds')
  ctx.raises(ValueError, lambda: tn.InfiniteMPS.random(d, [2] * N + [3], dt, backend=be), what + ': different ends')
  ctx.nontrivial(sum(np.array(t).size for t in a.tensors) >= 8)


u = st.integers(0, 255)
F = dict(seed=seeds, op=u, level=u, shape=u, dtype=u, s=u, bounds=u)


def dense_strategy(be):
  return lambda: st.fixed_dictionaries(dict(F, backend=st.just(be)))


g_symmetric = st.fixed_dictionaries(dict(F, sym=u))

PARTS = [Part('numpy', dense_strategy('numpy'), run_dense, 2500, 30000),
         Part('tensorflow', dense_strategy('tensorflow'), run_dense, 1200, 12000),
         Part('jax', dense_strategy('jax'), run_dense, 500, 6000, case_timeout=120),
         Part('symmetric', lambda: g_symmetric, run_symmetric, 2500, 30000),
         Part('mps', lambda: st.fixed_dictionaries(dict(F, backend=st.sampled_from(['numpy', 'numpy', 'tensorflow', 'jax']))), run_mps, 200, 2000)]
