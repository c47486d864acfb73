"""C14: caching of block structure never changes a result."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork.block_sparse as bs
from tensornetwork.backends.symmetric.symmetric_backend import SymmetricBackend
from vt.core import Part, Violation
from vt.gens import seeds
from vt import symgen as sg
from vt.checks import c12

ID = 'C14'
RULE = ('Programs of block-sparse operations over several symmetry types whose legs share the same raw charge data, '
        'run once with caching off and once with cache on/off/clear events interleaved (also around exceptions and '
        'Krylov solvers); every result must be identical, and equal to the dense result. Non-trivial: at least two '
        'symmetry types and three operations with caching on.')
ASSUMPTIONS = ['one process-wide cache, single-threaded use']

FAMILY = [('U',), ('P',), (3,), (4,), ('U', 'P'), ('U', 'U'), ('P', 'U'), ('P', 'P'), (2,), (3, 'U')]
OPS = ['transpose', 'contiguous', 'tensordot', 'tensordot', 'pair', 'outer', 'trace', 'add', 'matmul', 'conj', 'reshape',
       'arrays', 'decomp', 'decomp', 'lanczos']
EVENTS = ['on', 'on', 'off', 'clear', 'set1', 'set0', 'raise', 'nested']


class Prog(c12.Prog):
  """A program of C12 whose legs come from raw data shared by all symmetries; keeps a log of results."""

  def __init__(self, sym, raw, seed, dtype, ctx):  # pylint: disable=super-init-not-called
    self.ctx = ctx
    self.sym = sym
    self.rng = np.random.default_rng(seed)
    self.dtype = sg.DTYPES[dtype % 2]
    self.tol = 1e-9
    self.pool = []
    self.log = []
    k = len(sym)
    for legs in raw:
      ls = []
      for leg in legs:
        ls.append([(np.array(v, dtype=np.int64).reshape(-1, k), f) for v, f in leg])
      self.add(sg.random_tensor(sym, ls, self.rng, self.dtype))

  def new(self, t, dense, legs, what, dtype=None):
    self.log.append((what, np.array(t.data), np.array(t.todense())))
    return super().new(t, dense, legs, what, dtype)


def op_arrays(p, s, o, k):
  if not s.legs:
    return
  i = sg.make_leg_index(p.sym, s.legs[0], p.rng)
  leg = s.legs[0]
  want = np.eye(sg.leg_dim(leg)) * sg.mask_of(p.sym, [leg, sg.conj_leg(leg)])
  p.new(bs.eye(i), want, [leg, sg.conj_leg(leg)], 'eye')


def op_decomp(p, s, o, k):
  if len(s.legs) < 2:
    return
  be = SymmetricBackend()
  piv = 1 + k % (len(s.legs) - 1)
  if k % 3 == 0:
    Q, R = be.qr(s.t, piv)
    ops = [Q, R]
    r = be.tensordot(Q, R, ([Q.ndim - 1], [0]))
  else:
    U, S, V, _ = be.svd(s.t, piv)
    ops = [U, V]
    r = be.tensordot(be.tensordot(U, be.diagflat(S), ([U.ndim - 1], [0])), V, ([U.ndim - 1], [0]))
    p.log.append(('svd: S', np.array(S.data), np.array(sg.charge_values(S.flat_charges[0]))))
  for x in ops:
    p.log.append(('factor', np.array(x.data), np.array(x.todense())))
  p.new(r, s.dense, s.legs, 'product of the factors')


def op_lanczos(p, s, o, k):
  if not s.legs or not sg.mask_of(p.sym, s.legs).sum() or np.linalg.norm(s.dense) < 1e-6 or len(s.legs) > 3:
    return
  be = SymmetricBackend()
  if c12.size(s.legs) > 60:
    return
  h = p.rand(s.legs + [sg.conj_leg(l) for l in s.legs])
  n = len(s.legs)
  ax = list(range(n, 2 * n))
  calls = []

  def A(v, h, fail):
    calls.append(1)
    if fail and len(calls) >= 2:
      raise RuntimeError('matvec failed')
    return be.tensordot(h, v, (ax, list(range(n))))

  H = be.addition(h.t, h.t.conj().transpose(list(range(n, 2 * n)) + list(range(n))))
  status = bs.get_caching_status()
  e, v = be.eigsh_lanczos(A, [H, False], s.t.copy(), num_krylov_vecs=3, numeig=1, enable_caching=bool(k % 2))
  p.ctx.equal(bool(bs.get_caching_status()), bool(status), 'caching status after eigsh_lanczos')
  p.log.append(('lanczos', np.array(e), np.array(v[0].todense())))
  calls.clear()
  if sg.mask_of(p.sym, s.legs).sum() > 4:
    try:
      be.eigsh_lanczos(A, [H, True], s.t.copy(), num_krylov_vecs=3, numeig=1, enable_caching=bool(k % 2))
    except RuntimeError:
      p.ctx.label('exception inside a cached solver')
    p.ctx.equal(bool(bs.get_caching_status()), bool(status), 'caching status after a failing solver')


TABLE = dict(c12.OPS, arrays=op_arrays, decomp=op_decomp, lanczos=op_lanczos)


def execute(case, ctx, events):
  raw = raw_legs(case)
  syms = [FAMILY[x % len(FAMILY)] for x in case['syms']]
  progs = [Prog(s, raw, case['seed'] + n, case['dtype'], ctx) for n, s in enumerate(syms)]
  status = events and case['start'] > 0
  bs.set_caching_status(status)
  on_ops = 0
  for w, op, i, j, k, ev in case['ops']:
    if events and ev is not None:
      ctx.label('event ' + ev)
      if ev == 'on':
        bs.enable_caching()
        status = True
      elif ev == 'off':
        bs.disable_caching()
        status = False
      elif ev == 'clear':
        bs.clear_cache()
        ctx.check(bs.get_cacher().is_empty, 'cache is not empty after clear_cache')
      elif ev in ('set1', 'set0'):
        status = ev == 'set1'
        bs.set_caching_status(status)
      elif ev == 'nested':
        bs.enable_caching()
        bs.enable_caching()
        bs.disable_caching()
        status = False
      elif ev == 'raise':
        # an operation that fails leaves the mode alone
        p = progs[w % len(progs)]
        s = p.pool[i % len(p.pool)]
        if s.legs and sg.leg_dim(s.legs[0]):
          ctx.raises(ValueError, lambda: bs.tensordot(s.t, s.t, [[0], [0]]), 'contraction of equal flows')
      ctx.equal(bool(bs.get_caching_status()), status, 'caching status after ' + ev)
    on_ops += status
    for p in (progs if w % 3 == 0 else [progs[w % len(progs)]]):
      s, o = p.pool[i % len(p.pool)], p.pool[j % len(p.pool)]
      ctx.label(op)
      TABLE[op](p, s, o, k)
    if events:
      ctx.equal(bool(bs.get_caching_status()), status, 'caching status after ' + op)
  return [p.log for p in progs], on_ops


def raw_legs(case):
  rng = np.random.default_rng(case['seed'])
  pool = []
  alphabet = [rng.integers(0, 2, 2 * int(rng.integers(1, 3))).tolist() for _ in range(3)]
  flows = [bool(rng.integers(0, 2)) for _ in range(8)]
  for n, legs in enumerate(case['legs']):
    pool.append([[(alphabet[e % 3], flows[(e + n) % 8]) for e in leg] for leg in legs])
  return pool


def run_cache(case, ctx):
  try:
    bs.disable_caching()
    bs.clear_cache()
    ref, _ = execute(case, ctx, False)
    ctx.check(bs.get_cacher().is_empty, 'operations filled the cache although caching is off')
    got, on_ops = execute(case, ctx, True)
  finally:
    bs.disable_caching()
    bs.clear_cache()
  ctx.nontrivial(len(set(case['syms'])) >= 2 and on_ops >= 3)
  for n, (a, b) in enumerate(zip(ref, got)):
    ctx.equal([x[0] for x in b], [x[0] for x in a], 'operations')
    for x, y in zip(a, b):
      ctx.check(x[1].dtype == y[1].dtype and x[1].shape == y[1].shape and np.array_equal(x[1], y[1]),
                '{}: stored data differ with caching (symmetry {})', x[0], FAMILY[case['syms'][n] % len(FAMILY)])
      ctx.check(np.array_equal(x[2], y[2]), '{}: dense result differs with caching', x[0])


u = st.integers(0, 63)
leg = st.lists(st.integers(0, 15), min_size=1, max_size=2)
g_cache = st.fixed_dictionaries(dict(
    seed=seeds, dtype=st.integers(0, 1), start=st.integers(0, 3), syms=st.lists(st.integers(0, 9), min_size=1, max_size=4),
    legs=st.lists(st.lists(leg, min_size=1, max_size=3), min_size=1, max_size=2),
    ops=st.lists(st.tuples(u, st.sampled_from(OPS), u, u, u, st.one_of(st.none(), st.sampled_from(EVENTS))),
                 min_size=2, max_size=8)))

PARTS = [Part('cache', lambda: g_cache, run_cache, 2500, 40000)]
