"""Generators of charges, indices and block-sparse tensors with plain-Python models."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse.index import Index
from tensornetwork.block_sparse.blocksparsetensor import BlockSparseTensor, ChargeArray

ZN = {n: ch.ZNCharge(n) for n in (2, 3, 4, 5)}
# 'U' = U1, 'P' = Z2Charge, int n = ZNCharge(n)
SYMS = [('U',), ('U',), ('P',), (3,), (4,), ('U', 'P'), ('U', 'U'), (3, 'U'), ('P', 2), ('U', 'P', 3),
        ('U', 'U', 'U'), ('P', 'P', 'P', 'P'), ('U', 3, 'U', 'P', 'U'), (5,), (2, 3)]


def cls(s):
  return ch.U1Charge if s == 'U' else ch.Z2Charge if s == 'P' else ZN[s]


def values(sym, dim, rng, spread=1):
  """A (dim, n) array of valid charge values."""
  cols = []
  for s in sym:
    if s == 'U':
      cols.append(rng.integers(-spread, spread + 1, dim))
    else:
      n = 2 if s == 'P' else s
      cols.append(rng.integers(0, n, dim))
  return np.stack(cols, 1).astype(np.int64)


def mod(sym, vals):
  out = np.array(vals, dtype=np.int64)
  for k, s in enumerate(sym):
    if s != 'U':
      out[:, k] %= 2 if s == 'P' else s
  return out


def fuse(sym, a, b):
  return mod(sym, (a[:, None, :] + b[None, :, :]).reshape(-1, len(sym)))


def dual(sym, a):
  return mod(sym, -a)


def fuse_all(sym, vals, flows):
  """Fused charges of several legs, row-major; flows True are dualised."""
  out = None
  for v, f in zip(vals, flows):
    v = dual(sym, v) if f else mod(sym, v)
    out = v if out is None else fuse(sym, out, v)
  return out


def types(sym):
  return [cls(s) for s in sym]


def make_charge(sym, vals, route=0, rng=None):
  """A charge object holding vals, built in one of several equivalent ways."""
  vals = np.asarray(vals)
  if len(sym) == 1:
    C = cls(sym[0])
    base = lambda v: C(v[:, 0].tolist() if len(v) and route % 2 else v[:, 0])
  elif route in (1, 3):
    def base(v):
      out = cls(sym[0])(v[:, 0])
      for k in range(1, len(sym)):
        out = out @ cls(sym[k])(v[:, k])
      return out
  else:
    base = lambda v: ch.BaseCharge(v, charge_types=types(sym))
  if route == 2:              # labels already computed
    c = base(vals)
    c.unique_charges  # pylint: disable=pointless-statement
    return c
  if route == 3:
    return base(vals).copy()
  if route == 4 and len(vals):   # explicit labels in first-occurrence order
    uniq, labels = [], []
    for v in vals.tolist():
      if v not in uniq:
        uniq.append(v)
      labels.append(uniq.index(v))
    uniq = np.array(uniq).reshape(-1, len(sym))
    if len(sym) == 1:
      return cls(sym[0])(uniq[:, 0], charge_labels=labels)
    return ch.BaseCharge(uniq, charge_labels=labels, charge_types=types(sym))
  if route == 5:              # dual of the dual, with the unique order reversed
    c = base(dual(sym, vals))
    c.unique_charges  # pylint: disable=pointless-statement
    return c.dual(True)
  if route == 6 and len(vals):   # selected from a longer charge
    rng = rng or np.random.default_rng(0)
    extra = values(sym, 2, rng)
    big = np.concatenate([extra[:1], vals, extra[1:]])
    c = base(big)
    if len(vals) % 2:
      c.unique_charges  # pylint: disable=pointless-statement
    return c[np.arange(1, len(vals) + 1)]
  return base(vals)


def charge_values(c):
  return np.asarray(c.charges).astype(np.int64).reshape(len(c), c.num_symmetries)


# -- tensors ----------------------------------------------------------------
# A leg is a list of elementary legs (vals, flow).
def rand_leg(sym, rng, dims, spread=1):
  return [(values(sym, int(d), rng, spread), bool(rng.integers(0, 2))) for d in dims]


def leg_dim(leg):
  return math.prod(len(v) for v, _ in leg)


def conj_leg(leg):
  return [(v, not f) for v, f in leg]


def leg_charges(sym, leg):
  return fuse_all(sym, [v for v, _ in leg], [f for _, f in leg])


def same_leg(a, b):
  return len(a) == len(b) and all(f == g and v.shape == w.shape and np.array_equal(v, w) for (v, f), (w, g) in zip(a, b))


def mask_of(sym, legs):
  """Boolean array of the elements allowed by charge conservation."""
  if not legs:
    return np.array(True)
  flat = [e for l in legs for e in l]
  tot = fuse_all(sym, [v for v, _ in flat], [f for _, f in flat])
  return np.all(tot == 0, axis=1).reshape([leg_dim(l) for l in legs])


def make_leg_index(sym, leg, rng):
  cs = [make_charge(sym, v, int(rng.integers(0, 7)), rng) for v, _ in leg]
  fl = [f for _, f in leg]
  if len(leg) == 1 and rng.integers(0, 2):
    return Index(cs[0], fl[0])
  return Index(cs, fl)


DTYPES = [np.float64, np.complex128, np.float32, np.complex64]


def rand_values(rng, shape, dtype, mode='normal'):
  if mode == 'int':
    x = rng.integers(-2, 3, shape).astype(np.float64)
    y = rng.integers(-2, 3, shape)
  else:
    x = rng.normal(size=shape)
    y = rng.normal(size=shape)
  if np.issubdtype(dtype, np.complexfloating):
    return (x + 1j * y).astype(dtype)
  return x.astype(dtype)


class SymT:
  """A block-sparse tensor with its dense model."""

  def __init__(self, t, dense, legs):
    self.t, self.dense, self.legs = t, dense, legs


def build(sym, legs, dense, rng, lazy=True):
  """A BlockSparseTensor holding `dense` (zero outside the mask), stored with a random order of elementary legs."""
  flat = [e for l in legs for e in l]
  n = len(flat)
  perm = rng.permutation(n) if lazy and rng.integers(0, 3) else np.arange(n)   # storage position -> leg
  inv = np.argsort(perm)
  st_legs = [[flat[p]] for p in perm]
  full = dense.reshape([len(v) for v, _ in flat]).transpose(perm)
  m = mask_of(sym, st_legs)
  order, s = [], 0
  for l in legs:
    order.append([int(x) for x in inv[s:s + len(l)]])
    s += len(l)
  ident = np.array_equal(perm, np.arange(n))
  if ident and n and rng.integers(0, 2):
    t = BlockSparseTensor.fromdense([make_leg_index(sym, l, rng) for l in legs], np.array(dense))
  else:
    cs = [make_charge(sym, flat[p][0], int(rng.integers(0, 7)), rng) for p in perm]
    fl = [flat[p][1] for p in perm]
    if rng.integers(0, 2):
      fl = np.array(fl)
    t = BlockSparseTensor(np.array(full[m]), cs, fl, order=order, check_consistency=bool(rng.integers(0, 2)))
  return SymT(t, np.array(dense), [list(l) for l in legs])


def random_tensor(sym, legs, rng, dtype=np.float64, mode='normal', lazy=True):
  shape = [leg_dim(l) for l in legs]
  dense = rand_values(rng, shape, dtype, mode) * mask_of(sym, legs).astype(dtype)
  return build(sym, legs, np.asarray(dense, dtype=dtype), rng, lazy)


def rand_legs(sym, rng, leg_dims, spread=1, balance=True):
  """Legs with the given elementary dimensions; balance makes allowed elements likely."""
  legs = [rand_leg(sym, rng, d, spread) for d in leg_dims]
  if balance and legs and not mask_of(sym, legs).any() and all(leg_dim(l) for l in legs):
    # shift one element so that at least one entry is allowed
    flat = [e for l in legs for e in l]
    tot = fuse_all(sym, [v[:1] for v, _ in flat], [f for _, f in flat])[0]
    v, f = flat[-1]
    v[0] = mod(sym, (v[0] + (tot if f else -tot))[None, :])[0]
  return legs


def fill(sym, rng, legs, reused=0):
  """Mostly choose the charges of one fresh leg such that some elements are allowed."""
  if not legs or math.prod(leg_dim(l) for l in legs) > 500 or math.prod(leg_dim(l) for l in legs) == 0 or rng.integers(0, 8) == 0:
    return
  if mask_of(sym, legs).sum() >= 2:
    return
  at = [a for a, l in enumerate(legs) if len(l) == 1 and a >= reused]
  if not at:
    return
  a = at[-1]
  other = [x for b, l in enumerate(legs) if b != a for x in l]
  v, w = legs[a][0]
  if other:
    c = dual(sym, fuse_all(sym, [v for v, _ in other], [w for _, w in other]))
  else:
    c = np.concatenate([np.zeros((2, len(sym)), dtype=np.int64), mod(sym, v)])
  c = c[rng.integers(0, len(c), len(v))]
  legs[a] = [(dual(sym, c) if w else mod(sym, c), w)]


def same_tensor(ctx, t, dense, legs, sym, what, tol=1e-9):
  """t is a block-sparse tensor with this dense form and these legs."""
  shape = tuple(leg_dim(l) for l in legs)
  ctx.check(isinstance(t, ChargeArray), '{}: got {}', what, type(t))
  ctx.equal((int(t.ndim), tuple(int(x) for x in t.shape)), (len(legs), shape), what + ': shape')
  got = [[(charge_values(c), bool(f)) for c, f in zip(cl, fl)] for cl, fl in zip(t.charges, t.flows)]
  ctx.check([len(x) for x in t.charges] == [len(x) for x in t.flows], '{}: charges and flows differ in length', what)
  for n, (g, w) in enumerate(zip(got, legs)):
    if not same_leg(g, w):
      ctx.fail('%s: leg %d is %s, expected %s' % (what, n, show(g), show(w)))
  for n, i in enumerate(t.sparse_shape):
    ctx.equal((int(i.dim), [bool(f) for f in i.flat_flows]), (shape[n], [f for _, f in legs[n]]), what + ': sparse_shape')
  if legs:
    ctx.equal(len(t.data), int(mask_of(sym, legs).sum()), what + ': number of stored elements')
  d = np.asarray(t.todense())
  ctx.close(d, dense, what, tol)
  ctx.equal(int(t.size), int(np.prod(shape, dtype=int)), what + ': size')
  ctx.equal([(len(c), bool(f)) for c, f in zip(t.flat_charges, t.flat_flows)], [(len(v), f) for l in legs for v, f in l],
            what + ': flat charges and flows')


def show(leg):
  return [(v.tolist(), f) for v, f in leg]


def read_legs(t):
  return [[(charge_values(c), bool(f)) for c, f in zip(cl, fl)] for cl, fl in zip(t.charges, t.flows)]
