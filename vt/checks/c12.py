"""C12: block-sparse tensor algebra against the same algebra on dense arrays."""
import math
import numpy as np
from hypothesis import strategies as st
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import BlockSparseTensor, ChargeArray, Index
from vt.core import Part, Skip
from vt.gens import pick, seeds
from vt import symgen as sg

ID = 'C12'
RULE = ('Programs over a pool of block-sparse tensors of one product symmetry (rank 0 to 5, fused legs, lazily '
        'permuted storage, all flows, empty sectors); every operation is mirrored on the dense arrays and on the '
        'list of leg charges and flows; operands are compared again after every operation. Non-trivial: at least '
        'two operations and a tensor with at least two allowed elements.')
ASSUMPTIONS = ['at most 20000 dense elements per tensor (25000 in the part with large tensors)']
LIMIT = 20000


def size(legs):
  if sum(len(l) for l in legs) > 16:
    return LIMIT + 1
  return math.prod(sg.leg_dim(l) for l in legs)


def real_tol(*arrs):
  return 2e-4 if any(np.asarray(a).dtype in (np.float32, np.complex64) for a in arrs) else 1e-9


class Prog:
  def __init__(self, case, ctx):
    self.ctx = ctx
    self.sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
    self.rng = np.random.default_rng(case['seed'])
    self.dtype = sg.DTYPES[case['dtype'] % 4]
    self.tol = real_tol(np.zeros(0, self.dtype))
    self.pool = []
    for dims in case['pool']:
      legs = sg.rand_legs(self.sym, self.rng, dims, 1 + int(self.rng.integers(0, 2)))
      if size(legs) <= LIMIT:
        self.add(sg.random_tensor(self.sym, legs, self.rng, self.dtype))
    if not self.pool:
      raise Skip('too large')

  def other(self, k):
    """A dtype of the same precision."""
    return sg.DTYPES[k % 2 + (2 if self.tol > 1e-6 else 0)]

  def add(self, s):
    if len(self.pool) < 8:
      self.pool.append(s)

  def verify(self, s, what):
    sg.same_tensor(self.ctx, s.t, s.dense, s.legs, self.sym, what, self.tol)

  def new(self, t, dense, legs, what, dtype=None):
    s = sg.SymT(t, np.asarray(dense), legs)
    self.verify(s, what)
    if dtype is not None:
      self.ctx.equal(np.dtype(t.dtype), np.dtype(dtype), what + ': dtype')
    self.add(s)
    return s

  def rand(self, legs, dtype=None):
    return sg.random_tensor(self.sym, legs, self.rng, dtype or self.dtype)


def perm_of(rng, n):
  return [int(x) for x in rng.permutation(n)]


def axes_form(k, a):
  return list(a) if k % 3 == 0 else tuple(a) if k % 3 == 1 else np.array(a, dtype=np.int64)


def regroup(p, t, legs, shape, what):
  """Legs after a reshape: the elementary legs in order, grouped to the shape."""
  flat = [e for l in legs for e in l]
  cut = [len(x) for x in t.charges]
  p.ctx.equal(sum(cut), len(flat), what + ': number of elementary legs')
  out, s = [], 0
  for c in cut:
    out.append(flat[s:s + c])
    s += c
  p.ctx.equal([sg.leg_dim(l) for l in out], [int(x) for x in shape], what + ': shape')
  return out


def op_transpose(p, s, o, k):
  perm = perm_of(p.rng, len(s.legs))
  if not perm:
    return
  f = [lambda: s.t.transpose(axes_form(k, perm)), lambda: bs.transpose(s.t, perm, shuffle=bool(k % 2)),
       lambda: s.t.transpose(perm, shuffle=True)][k % 3]
  p.new(f(), s.dense.transpose(perm), [s.legs[q] for q in perm], 'transpose')
  p.ctx.raises(ValueError, lambda: s.t.transpose(perm + [0]), 'transpose with too many axes')
  if len(perm) == 2:
    p.new(s.t.T, s.dense.T, s.legs[::-1], '.T')
    p.new(s.t.H, s.dense.conj().T, [sg.conj_leg(l) for l in s.legs[::-1]], '.H')


def op_reshape(p, s, o, k):
  flat = [e for l in s.legs for e in l]
  if not flat or any(len(v) == 0 for v, _ in flat):
    return
  cuts = sorted(set(int(x) for x in p.rng.integers(1, len(flat), k % 4))) if len(flat) > 1 else []
  if k % 5 == 0:
    cuts = list(range(1, len(flat)))
  b = [0] + cuts + [len(flat)]
  groups = [flat[x:y] for x, y in zip(b[:-1], b[1:])]
  shape = [sg.leg_dim(g) for g in groups]
  arg = list(shape)
  if k % 3 == 1:
    arg = [sg.make_leg_index(p.sym, g, p.rng) for g in groups]
  elif k % 3 == 2:
    arg = tuple(shape)
  t = bs.reshape(s.t, arg) if k % 2 else s.t.reshape(arg)
  p.new(t, s.dense.reshape(shape), regroup(p, t, s.legs, shape, 'reshape'), 'reshape')
  p.ctx.raises(ValueError, lambda: s.t.reshape(shape + [2]), 'reshape to another size')
  if len(flat) == 1 and len(flat[0][0]) == 4:
    p.ctx.raises(ValueError, lambda: s.t.reshape((2, 2)), 'reshape splitting an elementary leg')


def op_contiguous(p, s, o, k):
  if k % 3 == 0:
    t = s.t.contiguous()
  elif k % 3 == 1:
    t = s.t.contiguous(p.rng.permutation(sum(len(l) for l in s.legs)).tolist() if s.legs else None)
  else:
    c = s.t.copy()
    t = c.contiguous(perm_of(p.rng, sum(len(l) for l in s.legs)) if k % 2 and s.legs else None, inplace=True)
    p.ctx.check(t is c, 'contiguous(inplace=True) returned another object')
  p.new(t, s.dense, s.legs, 'contiguous')
  if k % 3 == 0 and s.legs:
    # the linear order of the data is the order of the legs
    m = sg.mask_of(p.sym, s.legs)
    p.ctx.close(t.data, s.dense[m], 'contiguous: linear order of the data', p.tol)


def op_scale(p, s, o, k):
  z = pick([2, -0.5, 1.5 - 0.5j, 0, np.float64(3.), np.complex128(1 + 1j), True], k)
  if isinstance(z, complex) or np.iscomplexobj(z):
    z = z if np.iscomplexobj(s.dense) or k % 2 else 2.0
  which = k % 4
  if which == 0:
    p.new(s.t * z, s.dense * z, s.legs, 'product with a number')
  elif which == 1 and not isinstance(z, np.generic):
    p.new(z * s.t, z * s.dense, s.legs, 'number times tensor')
  elif which == 2:
    z = z if z != 0 else 3.
    p.new(s.t / z, s.dense / z, s.legs, 'quotient')
  else:
    p.new(-s.t, -s.dense, s.legs, 'negative')
    p.new(s.t**2, s.dense**2, s.legs, 'power')
  p.ctx.raises(TypeError, lambda: s.t * np.ones(2), 'product with an array')


def op_conj(p, s, o, k):
  t = bs.conj(s.t) if k % 2 else s.t.conj()
  p.new(t, s.dense.conj(), [sg.conj_leg(l) for l in s.legs], 'conj')


def op_add(p, s, o, k):
  dt = p.dtype if k % 3 else p.other(k)
  r = p.rand(s.legs, dt)
  if k % 5 == 0:
    r = s
  elif k % 5 == 1 and s.legs:     # a lazily transposed partner
    perm = perm_of(p.rng, len(s.legs))
    inv = [int(x) for x in np.argsort(perm)]
    q = p.rand([s.legs[x] for x in perm], dt)
    r = sg.SymT(q.t.transpose(inv), q.dense.transpose(inv), s.legs)
    p.verify(r, 'transposed partner')
  want = s.dense + r.dense if k % 2 else s.dense - r.dense
  got = s.t + r.t if k % 2 else s.t - r.t
  p.new(got, want, s.legs, 'sum' if k % 2 else 'difference', np.result_type(s.dense.dtype, r.dense.dtype))
  p.verify(r, 'second operand of a sum')
  if s.legs and k % 2:
    n = k % len(s.legs)
    if sg.leg_dim(s.legs[n]):
      bad = list(s.legs)
      m = k % len(bad[n])
      bad[n] = list(bad[n])
      bad[n][m] = (bad[n][m][0], not bad[n][m][1])
      b = p.rand(bad)
      p.ctx.raises((ValueError, TypeError), lambda: s.t + b.t, 'sum of tensors with different flows')
      v = bad[n][m][0].copy()
      v[0] = sg.mod(p.sym, v[:1] + 1)[0]
      bad[n][m] = (v, s.legs[n][m][1])
      b = p.rand(bad)
      p.ctx.raises((ValueError, TypeError), lambda: s.t - b.t, 'difference of tensors with different charges')


def matches(a, b):
  return [(x, y) for x in range(len(a.legs)) for y in range(len(b.legs))
          if sg.same_leg(a.legs[x], sg.conj_leg(b.legs[y]))]


def dense_tensordot(a, b, ax, bx):
  return np.tensordot(a.dense, b.dense, [list(ax), list(bx)])


def contract(p, a, b, ax, bx, k, what):
  free = [a.legs[x] for x in range(len(a.legs)) if x not in ax] + [b.legs[x] for x in range(len(b.legs)) if x not in bx]
  if size(free) > LIMIT:
    return
  want = dense_tensordot(a, b, ax, bx)
  arg = [axes_form(k, ax), axes_form(k + 1, bx)]
  n = len(ax)
  if list(ax) == list(range(len(a.legs) - n, len(a.legs))) and list(bx) == list(range(n)) and k % 2:
    arg = n if k % 4 == 1 else np.int64(n)
  elif list(ax) == list(bx) and n == 1 and k % 2:
    arg = list(ax)       # tensordot(a, b, [n]) contracts leg n of both
  dt = np.result_type(a.dense.dtype, b.dense.dtype)
  t = bs.tensordot(a.t, b.t, tuple(arg) if k % 3 == 0 and isinstance(arg, list) and len(arg) == 2 else arg)
  p.new(t, want, free, what, dt)
  p.verify(b, what + ': second operand')
  p.verify(a, what + ': first operand')


def op_tensordot(p, s, o, k):
  n = p.rng.integers(0, len(s.legs) + 1)
  ax = [int(x) for x in p.rng.permutation(len(s.legs))[:n]]
  if k % 7 == 0:
    ax = sorted(ax)
  extra = sg.rand_legs(p.sym, p.rng, [[[1, 2, 3][int(p.rng.integers(0, 3))]] for _ in range(p.rng.integers(0, 3))])
  legs = [sg.conj_leg(s.legs[x]) for x in ax] + extra
  if size(legs) > LIMIT:
    return
  order = perm_of(p.rng, len(legs)) if k % 3 else list(range(len(legs)))
  r = p.rand([legs[x] for x in order], p.dtype if k % 2 else p.other(k))
  bx = [order.index(x) for x in range(len(ax))]
  p.ctx.label('contract %d' % len(ax))
  if k % 5 == 0:
    contract(p, r, s, bx, ax, k, 'tensordot')
  else:
    contract(p, s, r, ax, bx, k, 'tensordot')
  p.add(r)
  if ax and k % 2:
    p.ctx.raises(ValueError, lambda: bs.tensordot(s.t, r.t, [ax, bx + [0]]), 'tensordot with axes of different lengths')
    q = ax[0]
    if sg.leg_dim(s.legs[q]):
      p.ctx.raises(ValueError, lambda: bs.tensordot(s.t, s.t, [[q], [q]]), 'contraction of equal flows')
      w = [(v.copy(), not f) for v, f in s.legs[q]]
      w[0][0][0] = sg.mod(p.sym, w[0][0][:1] + 1)[0]
      bad = p.rand([w])
      p.ctx.raises(ValueError, lambda: bs.tensordot(s.t, bad.t, [[q], [0]]), 'contraction of different charges')


def op_pair(p, s, o, k):
  """Contract two tensors of the pool along legs that happen to match."""
  if k % 3 == 0:
    o = sg.SymT(s.t.conj(), s.dense.conj(), [sg.conj_leg(l) for l in s.legs])
  ms = [m for m in matches(s, o)]
  ax, bx = [], []
  for x, y in [ms[q] for q in perm_of(p.rng, len(ms))]:
    if x not in ax and y not in bx and len(ax) < 1 + k % 4:
      ax.append(x)
      bx.append(y)
  if ax:
    p.ctx.label('pair')
    contract(p, s, o, ax, bx, k, 'tensordot of pool tensors')
    if len(s.legs) <= 2 and len(o.legs) <= 2 and ax == [len(s.legs) - 1] and bx == [0]:
      p.new(s.t @ o.t, s.dense @ o.dense, s.legs[:-1] + o.legs[1:], '@')


def op_matmul(p, s, o, k):
  if not 1 <= len(s.legs) <= 2:
    if len(s.legs) > 2:
      p.ctx.raises(ValueError, lambda: s.t @ s.t, '@ of tensors of rank 3')
    return
  extra = sg.rand_legs(p.sym, p.rng, [[2], [3]][:k % 2])
  r = p.rand([sg.conj_leg(s.legs[-1])] + extra)
  p.new(s.t @ r.t, s.dense @ r.dense, s.legs[:-1] + extra, '@')


def op_outer(p, s, o, k):
  if size(s.legs + o.legs) > LIMIT:
    return
  if k % 2:
    o = p.rand(o.legs, p.other(k))
  want = np.tensordot(s.dense, o.dense, 0)
  t = bs.outerproduct(s.t, o.t) if k % 3 else bs.tensordot(s.t, o.t, 0 if k % 2 else [[], []])
  p.new(t, want, s.legs + o.legs, 'outerproduct', np.result_type(s.dense.dtype, o.dense.dtype))


def op_trace(p, s, o, k):
  # a tensor with one or more pairs of matching legs
  base = [l for l in s.legs if sg.leg_dim(l)][:2]
  if not base:
    return
  pair = base[0] if len(base) == 1 or k % 2 else base[0] + base[1]
  free = [l for l in s.legs][:k % 3]
  legs = [pair, sg.conj_leg(pair)] + free
  if size(legs) > LIMIT:
    return
  order = perm_of(p.rng, len(legs))
  r = p.rand([legs[x] for x in order])
  a, b = order.index(0), order.index(1)
  if k % 4 == 0:
    a, b = b, a
  args = {}
  if {a, b} == {len(legs) - 2, len(legs) - 1} and a < b and k % 3:
    pass
  else:
    args = {'axes': [(a, b), [a, b], np.array([a, b])][k % 3]}
  want = np.trace(r.dense, axis1=a, axis2=b)
  got = bs.trace(r.t, **args)
  left = [r.legs[x] for x in range(len(legs)) if x not in (a, b)]
  p.ctx.label('trace fused' if len(pair) > 1 else 'trace')
  if left:
    p.new(got, want, left, 'trace', p.dtype)
  else:
    p.ctx.close(np.asarray(got).reshape(()), want, 'trace', p.tol)
  p.verify(r, 'traced tensor')
  if left and sg.leg_dim(left[0]):
    ok = [x for x in range(len(r.legs)) if sg.same_leg(r.legs[x], sg.conj_leg(left[0]))]
    n = [x for x in range(len(r.legs)) if x not in (a, b)][0]
    if a not in ok:
      p.ctx.raises(ValueError, lambda: bs.trace(r.t, axes=(a, n)), 'trace of legs that do not match')


def op_elementwise(p, s, o, k):
  which = k % 4
  if which == 0:
    p.new(bs.abs(s.t), np.abs(s.dense), s.legs, 'abs')
  elif which == 1 and not np.iscomplexobj(s.dense):
    p.new(bs.sign(s.t), np.sign(s.dense), s.legs, 'sign')
  elif which == 2:
    a = bs.abs(s.t)
    p.new(bs.sqrt(a), np.sqrt(np.abs(s.dense)), s.legs, 'sqrt')
    if np.iscomplexobj(s.dense):
      p.new(bs.sqrt(s.t), np.sqrt(s.dense), s.legs, 'sqrt')
  else:
    p.ctx.close(np.asarray(bs.norm(s.t)), np.asarray(np.linalg.norm(s.dense.ravel())), 'norm', p.tol)


def op_copy(p, s, o, k):
  c = s.t.copy()
  p.ctx.check(c is not s.t, 'copy returned the same object')
  p.new(c, s.dense, s.legs, 'copy')
  if len(c.data):
    c2 = s.t.copy()
    c2.data[:] = 77
    c2.flat_flows  # pylint: disable=pointless-statement
    p.verify(s, 'tensor whose copy was changed')
  p.ctx.check(isinstance(repr(s.t), str), 'repr')
  if s.legs:
    p.ctx.equal(int(s.t.size), size(s.legs), 'size')
  if size(s.legs) == 1:
    p.ctx.close(np.asarray(s.t.item()).reshape(()), s.dense.reshape(()), 'item', p.tol)
  else:
    p.ctx.raises(ValueError, s.t.item, 'item of a larger tensor')


def op_like(p, s, o, k):
  m = sg.mask_of(p.sym, s.legs)
  if not s.legs:
    return
  dt = s.dense.dtype
  which = k % 6
  idx = [sg.make_leg_index(p.sym, l, p.rng) for l in s.legs]
  idx = tuple(idx) if k % 2 else idx
  dtype = p.other(k)
  if which == 0:
    p.new(bs.ones_like(s.t), m.astype(dt), s.legs, 'ones_like', dt)
    p.new(bs.zeros_like(s.t), np.zeros(m.shape, dt), s.legs, 'zeros_like', dt)
  elif which == 1:
    p.new(bs.ones(idx, dtype=dtype), m.astype(dtype), s.legs, 'ones', dtype)
    p.new(bs.zeros(idx, dtype=dtype), np.zeros(m.shape, dtype), s.legs, 'zeros', dtype)
  elif which == 2:
    for t, d in ((bs.randn_like(s.t), dt), (bs.randn(idx, dtype=dtype), dtype)):
      filled(p, t, s, m, 'randn', d, None)
  elif which == 3:
    for t, d, b in ((bs.random_like(s.t, (2, 3)), dt, (2, 3)), (bs.random(idx, (-3, -2), dtype=dtype), dtype, (-3, -2)),
                    (bs.random(idx, dtype=dtype), dtype, (0, 1)), (bs.random_like(s.t), dt, (0, 1))):
      filled(p, t, s, m, 'random', d, b)
  elif which == 4:
    t = bs.empty_like(s.t)
    t.data = np.ones(t.data.shape, t.dtype)
    p.new(t, m.astype(dt), s.legs, 'empty_like', dt)
  else:
    junk = sg.rand_values(p.rng, s.dense.shape, dtype)
    t = BlockSparseTensor.fromdense(idx, junk)
    p.new(t, junk * m, s.legs, 'fromdense of an array with other elements', dtype)
    p.ctx.raises(ValueError, lambda: BlockSparseTensor.fromdense(idx, junk[None]), 'fromdense with another shape')


def filled(p, t, s, m, what, dtype, bounds):
  d = np.asarray(t.todense())
  sg.same_tensor(p.ctx, t, d, s.legs, p.sym, what)
  p.ctx.equal(np.dtype(t.dtype), np.dtype(dtype), what + ': dtype')
  x = d[m]
  parts = [x.real, x.imag] if np.iscomplexobj(x) else [x]
  for y in parts:
    p.ctx.check(np.all(np.isfinite(y)), '{}: not finite', what)
    p.ctx.check(np.all(y != 0) or bounds is None or bounds[0] == 0, '{}: zero element', what)
    if bounds:
      p.ctx.check(np.all((y >= bounds[0]) & (y <= bounds[1])), '{}: element outside the boundaries', what)
    if len(y) > 3:
      p.ctx.check(len(set(y.tolist())) > 1, '{}: constant values', what)


def op_compare(p, s, o, k):
  r = p.rand(s.legs)
  if p.rng.integers(0, 2):
    r = sg.SymT(s.t.copy(), s.dense, s.legs)
  a, b = s.t, r.t
  p.ctx.check(bool(bs.compare_shapes(a, b)), 'compare_shapes of equal shapes')
  same = len(s.legs) == len(o.legs) and all(sg.same_leg(x, y) for x, y in zip(s.legs, o.legs))
  if not same:
    p.ctx.check(not bs.compare_shapes(a, o.t), 'compare_shapes of different shapes')


OPS = {'transpose': op_transpose, 'reshape': op_reshape, 'contiguous': op_contiguous, 'scale': op_scale, 'conj': op_conj,
       'add': op_add, 'tensordot': op_tensordot, 'pair': op_pair, 'matmul': op_matmul, 'outer': op_outer, 'trace': op_trace,
       'elementwise': op_elementwise, 'copy': op_copy, 'like': op_like, 'compare': op_compare}


def run_prog(case, ctx):
  p = Prog(case, ctx)
  ctx.nontrivial(len(case['ops']) >= 2 and any(np.count_nonzero(s.dense) >= 2 for s in p.pool))
  for s in p.pool:
    p.verify(s, 'constructed tensor')
  for op, i, j, k in case['ops']:
    s, o = p.pool[i % len(p.pool)], p.pool[j % len(p.pool)]
    if k % 4 == 3:
      s = p.pool[-1]
    ctx.label(op)
    OPS[op](p, s, o, k)
    for q in p.pool:
      p.verify(q, 'pool tensor after ' + op)


# -- identity, diagonal and charge arrays ------------------------------------
def run_arrays(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  dtype = sg.DTYPES[case['dtype'] % 4]
  legs = sg.rand_legs(sym, rng, case['dims'], 1)
  if size(legs) > 3000:
    raise Skip('too large')
  k = case['k']
  ctx.nontrivial(size(legs) >= 4)
  # charge arrays hold every element
  flat = [e for l in legs for e in l]
  n = len(flat)
  perm = rng.permutation(n) if k % 2 else np.arange(n)
  inv = np.argsort(perm)
  order, q = [], 0
  for l in legs:
    order.append([int(x) for x in inv[q:q + len(l)]])
    q += len(l)
  dense = sg.rand_values(rng, [len(v) for v, _ in flat], dtype)
  stored = dense.transpose(perm)
  cs = [sg.make_charge(sym, flat[x][0], int(rng.integers(0, 7)), rng) for x in perm]
  A = ChargeArray(np.array(stored), cs, [flat[x][1] for x in perm], order=order, check_consistency=True)
  D = dense.reshape([sg.leg_dim(l) for l in legs])

  def chk(t, want, wl, what):
    ctx.check(type(t) is ChargeArray, '{}: type {}', what, type(t))
    ctx.equal(tuple(int(x) for x in t.shape), tuple(want.shape), what + ': shape')
    for a, b in zip(sg.read_legs(t), wl):
      ctx.check(sg.same_leg(a, b), '{}: leg {} expected {}', what, sg.show(a), sg.show(b))
    ctx.close(t.todense(), want, what)

  chk(A, D, legs, 'ChargeArray')
  pr = perm_of(rng, len(legs))
  chk(A.transpose(pr, shuffle=bool(k % 3)), D.transpose(pr), [legs[x] for x in pr], 'ChargeArray.transpose')
  chk(A.conj(), D.conj(), [sg.conj_leg(l) for l in legs], 'ChargeArray.conj')
  chk(A.contiguous(), D, legs, 'ChargeArray.contiguous')
  ctx.close(A.contiguous().data, D.ravel(), 'ChargeArray.contiguous: data')
  if all(len(v) for v, _ in flat):
    shape = [len(v) for v, _ in flat]
    chk(A.reshape(shape), D.reshape(shape), [[e] for e in flat], 'ChargeArray.reshape')
  ctx.equal(int(A.size), D.size, 'size')
  if len(legs) == 2:
    ctx.close(A.H.todense(), D.conj().T, 'H')
    chk(A.T, D.T, legs[::-1], 'T')
  else:
    ctx.raises(ValueError, lambda: A.H, 'H of a non-matrix')
  idx = [sg.make_leg_index(sym, l, rng) for l in legs]
  R = ChargeArray.random(idx, dtype=dtype)
  ctx.equal((R.dtype, len(R.data)), (np.dtype(dtype), D.size), 'ChargeArray.random')
  chk(R, np.asarray(R.todense()), legs, 'ChargeArray.random')
  # identity matrices
  leg = legs[0]
  e = bs.eye(idx[0], dtype=dtype) if k % 2 else bs.eye(idx[0])
  want = np.eye(sg.leg_dim(leg)) * sg.mask_of(sym, [leg, sg.conj_leg(leg)])
  sg.same_tensor(ctx, e, want, [leg, sg.conj_leg(leg)], sym, 'eye')
  ctx.equal(np.dtype(e.dtype), np.dtype(dtype if k % 2 else np.float64), 'eye: dtype')
  m = sg.random_tensor(sym, [leg] + legs[1:], rng, dtype)
  ext = bs.tensordot(bs.eye(idx[0].copy()), m.t, ([1], [0]))
  sg.same_tensor(ctx, ext, m.dense, m.legs, sym, 'identity times tensor', real_tol(m.dense))
  if len(legs) > 1:
    e2 = bs.eye(idx[0], idx[1], dtype=dtype)
    d2 = block_eye(sym, legs[0], legs[1])
    sg.same_tensor(ctx, e2, d2, legs[:2], sym, 'rectangular eye')
  # diagonal of a charge array and of a matrix
  dim = sg.leg_dim(leg)
  vec = sg.rand_values(rng, [dim], dtype)
  fl = [x for x in leg]
  V = ChargeArray(np.array(vec), [sg.make_charge(sym, v, int(rng.integers(0, 7)), rng) for v, _ in fl],
                  [f for _, f in fl], order=[list(range(len(fl)))])
  keep = np.array(V.data)
  dm = bs.diag(V)
  sg.same_tensor(ctx, dm, np.diag(vec), [leg, sg.conj_leg(leg)], sym, 'diag of a charge array', real_tol(vec))
  ctx.check(np.array_equal(V.data, keep), 'diag changed its argument')
  back = bs.diag(dm)
  ctx.check(type(back) is ChargeArray and back.ndim == 1, 'diag of a matrix')
  got = sorted(zip([tuple(x) for x in sg.leg_charges(sym, sg.read_legs(back)[0]).tolist()], np.asarray(back.data).tolist()), key=str)
  ref = sorted(zip([tuple(x) for x in sg.leg_charges(sym, leg).tolist()], vec.tolist()), key=str)
  ctx.equal(got, ref, 'diag of a diagonal matrix: charges and values')
  if len(legs) > 1:
    mm = sg.random_tensor(sym, legs[:2], rng, dtype)
    db = bs.diag(mm.t)
    row, col = sg.leg_charges(sym, legs[0]), sg.leg_charges(sym, sg.conj_leg(legs[1]))
    ref = []
    for c in sorted(set(map(tuple, row.tolist())) & set(map(tuple, col.tolist()))):
      blk = mm.dense[np.ix_(np.all(row == c, axis=1), np.all(col == c, axis=1))]
      ref += [(c, x) for x in np.diag(blk).tolist()]
    lg = sg.read_legs(db)
    ctx.check(len(lg) == 1 and len(lg[0]) == 1 and not lg[0][0][1], 'diag: flow of the result')
    got = list(zip([tuple(x) for x in lg[0][0][0].tolist()], np.asarray(db.data).tolist()))
    ctx.equal(sorted(got, key=lambda x: x[0]), ref, 'diag of a matrix: blocks')
  if len(legs) > 2:
    ctx.raises(ValueError, lambda: bs.diag(m.t), 'diag of a tensor of rank 3')


def block_eye(sym, a, b):
  row, col = sg.leg_charges(sym, a), sg.leg_charges(sym, sg.conj_leg(b))
  out = np.zeros((len(row), len(col)))
  for c in set(map(tuple, row.tolist())) & set(map(tuple, col.tolist())):
    r, q = np.nonzero(np.all(row == c, axis=1))[0], np.nonzero(np.all(col == c, axis=1))[0]
    n = min(len(r), len(q))
    out[r[:n], q[:n]] = 1
  return out


u = st.integers(0, 63)
edim = st.sampled_from([1, 2, 2, 3, 3, 4, 5])
edim0 = st.sampled_from([1, 2, 2, 3, 3, 4, 5, 1, 2, 3, 2, 0])
leg = st.lists(edim, min_size=1, max_size=3)
leg_l = st.one_of(st.lists(edim0, min_size=1, max_size=1), st.lists(edim, min_size=1, max_size=1), leg)
g_prog = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3),
    pool=st.lists(st.lists(leg_l, min_size=1, max_size=5), min_size=1, max_size=3),
    ops=st.lists(st.tuples(st.sampled_from(sorted(OPS) + ['tensordot'] * 3 + ['transpose', 'trace']), u, u, u), min_size=2, max_size=8)))
g_arrays = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3), k=u,
    dims=st.lists(leg_l, min_size=1, max_size=3)))


# -- large tensors -----------------------------------------------------------
BIG = [(28, 28, 28), (150, 150), (12, 13, 11, 14), (40, 25, 24), (7, 8, 7, 8, 7), (22000,), (3, 90, 90), (20000, 2), (2, 3, 60, 61), (1, 141, 142),
       (170, 118, 1), (5, 5, 5, 6, 5, 6), (185, 185), (205, 205), (230, 190)]


def run_large(case, ctx):
  """More than 20000 fused charges: other code paths count the charges."""
  rng = np.random.default_rng(case['seed'])
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  dims = list(BIG[case['dims'] % len(BIG)])
  rng.shuffle(dims)
  dtype = sg.DTYPES[case['dtype'] % 4]
  tol = real_tol(np.zeros(0, dtype)) * 10
  legs = sg.rand_legs(sym, rng, [(d,) for d in dims], 1 + case['spread'] % 3)
  if len(dims) == 2 and min(dims) > 180 and 'U' in sym:
    # more different sums of charges than 16 bits can count
    v = np.array(sg.values(sym, max(dims), rng, 2))
    for k, q in enumerate(sym):
      if q == 'U':
        v[:, k] = rng.permutation(len(v)) * int(rng.choice([1, 3, 40]))
    legs = [[(v[rng.permutation(len(v))[:dims[0]]], bool(case['spread'] % 2))]]
    legs.append([(v[rng.permutation(len(v))[:dims[1]]], case['spread'] % 2 == 0)])
    ctx.label('many different charges')
  flat = [e for l in legs for e in l]
  mask = sg.mask_of(sym, legs)
  ctx.nontrivial(len(dims) > 1 and mask.sum() > 1)
  tot = sg.fuse_all(sym, [v for v, _ in flat], [f for _, f in flat])
  want = dict(zip(*[x.tolist() if x.ndim == 1 else [tuple(r) for r in x.tolist()] for x in np.unique(tot, axis=0, return_counts=True)]))
  from tensornetwork.block_sparse import blocksparse_utils as bu
  cs = [sg.make_charge(sym, v, int(rng.integers(0, 7)), rng) for v, _ in flat]
  fl = [f for _, f in flat]
  q, deg = bu.compute_fused_charge_degeneracies(cs, fl)
  got = list(zip([tuple(r) for r in sg.charge_values(q).tolist()], [int(x) for x in deg]))
  ctx.equal(len(dict(got)), len(got), 'a fused charge is listed twice')
  ctx.check(dict(got) == want, 'degeneracies of the fused charges: {} expected {}',
            *[sorted(set(x) - set(y))[:5] for x, y in ((got, want.items()), (want.items(), got))])
  u = bu.compute_unique_fused_charges(cs, fl)
  ctx.check(sorted(tuple(r) for r in sg.charge_values(u).tolist()) == sorted(want), 'unique fused charges')
  ctx.equal(int(bu.compute_num_nonzero(cs, fl)), int(mask.sum()), 'number of allowed elements')
  ix = [sg.make_leg_index(sym, l, rng) for l in legs]
  for f, name in ((bs.zeros, 'zeros'), (bs.randn, 'randn')):
    ctx.equal(len(f(ix, dtype=dtype).data), int(mask.sum()), name + ': number of stored elements')
  s = sg.random_tensor(sym, legs, rng, dtype)
  sg.same_tensor(ctx, s.t, s.dense, legs, sym, 'a large tensor', tol)
  perm = perm_of(rng, len(dims))
  t = s.t.transpose(perm)
  if case['seed'] % 2:
    t = t.contiguous()
  sg.same_tensor(ctx, t, s.dense.transpose(perm), [legs[k] for k in perm], sym, 'transpose of a large tensor', tol)
  ctx.close(float(bs.norm(s.t)), np.linalg.norm(s.dense), 'norm of a large tensor', tol=tol)
  # contract with the conjugate over as many axes as it takes
  axes = perm_of(rng, len(dims))
  keep = 0
  while keep < len(axes) - 1 and math.prod(dims[a] for a in axes[:keep + 1]) ** 2 <= 4000:
    keep += 1
  free = axes[:keep]
  con = axes[keep:]
  res = bs.tensordot(t, s.t.conj(), ([perm.index(a) for a in con], con))
  left = [a for a in perm if a in free]
  ref = np.tensordot(s.dense.transpose(perm), s.dense.conj(), ([perm.index(a) for a in con], con))
  rl = [legs[a] for a in left] + [sg.conj_leg(legs[a]) for a in sorted(free)]
  if rl:
    sg.same_tensor(ctx, res, ref, rl, sym, 'contraction of large tensors', tol * 10)
  else:
    ctx.close(np.asarray(res.todense()).ravel(), ref.ravel(), 'full contraction of large tensors', tol=tol * 10)
  if len(dims) > 1 and 1 not in dims:
    cut = 1 + int(rng.integers(0, len(dims) - 1))
    m = s.t.reshape((math.prod(dims[:cut]), math.prod(dims[cut:])))
    sg.same_tensor(ctx, m, s.dense.reshape(m.shape), [[e for l in legs[:cut] for e in l], [e for l in legs[cut:] for e in l]], sym,
                   'reshape of a large tensor', tol)


g_large = st.fixed_dictionaries(dict(seed=seeds, sym=st.integers(0, 60), dims=st.integers(0, 59), dtype=st.integers(0, 3), spread=st.integers(0, 5)))


PARTS = [
    Part('program', lambda: g_prog, run_prog, 5000, 60000),
    Part('arrays', lambda: g_arrays, run_arrays, 2500, 30000),
    Part('large', lambda: g_large, run_large, 400, 4000),
]
