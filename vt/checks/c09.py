"""C09: Tensor objects, linalg helpers and node arithmetic against array formulas."""
import math
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import initialization as tinit
from tensornetwork.linalg import node_linalg
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.netgen import perm_of
from vt.checks import c08
from vt.checks.c08 import shapes, dim

ID = 'C09'
RULE = ('Random straight-line programs over tn.Tensor and tn.Node objects (every method, operator and '
        'functional helper, including decompositions, creation and node-level helpers) on NumPy, '
        'TensorFlow and JAX, mirrored step by step on plain arrays; plus mixed-backend rejections. '
        'Non-trivial: at least two steps ran on tensors with two or more elements.')
ASSUMPTIONS = ['TensorFlow does not promote dtypes; operands of one operation share a dtype there']

KINDS = ['real', 'complex', 'f32', 'c64']
NPD = dict(real=np.float64, complex=np.complex128, f32=np.float32, c64=np.complex64)


def backend_dtype(backend, d):
  if d is None or backend != 'tensorflow':
    return d
  import tensorflow as tf
  return tf.as_dtype(d)


class Prog:
  """A pool of (Tensor, array) pairs with checks on every new member."""

  def __init__(self, case, ctx):
    self.ctx, self.case = ctx, case
    self.name = case['backend']
    self.b = backend_factory.get_backend(self.name)
    self.pool = []
    self.k = 0
    self.rich = 0
    self.single = case['kind'] in ('f32', 'c64')
    self.cplx = case['kind'] in ('complex', 'c64')
    self.native = {}

  def conv(self, a):
    return self.b.convert_to_tensor(np.array(a))

  def fresh(self, shape, kind=None, f=None):
    self.k += 1
    a = arr(shape, self.case['seed'] + self.k, kind or self.case['kind'])
    if f:
      a = np.asarray(f(a)).astype(a.dtype)
    if self.case['default'] and self.k % 2:
      with tn.DefaultBackend(self.name if self.k % 3 else self.b):
        t = tn.Tensor(self.conv(a))
    else:
      t = tn.Tensor(self.conv(a), backend=self.name if self.k % 3 else self.b)
    self.pool.append((t, a))
    return t, a

  def eq(self, got, want, what, dtype=True, scale=None):
    ctx, want = self.ctx, np.asarray(want)
    ctx.check(isinstance(got, tn.Tensor), '{}: result is a {}', what, type(got).__name__)
    ctx.equal(got.backend.name, self.name, what + ': backend')
    ctx.equal(tuple(got.shape), want.shape, what + ': shape')
    ctx.equal(int(got.size), int(want.size), what + ': size')
    ctx.equal(got.ndim, want.ndim, what + ': ndim')
    g = np.asarray(got.array)
    ctx.equal(g.shape, want.shape, what + ': array shape')
    if dtype:
      ctx.equal(g.dtype.name, want.dtype.name, what + ': dtype')
      ctx.equal(np.dtype(got.dtype.name if hasattr(got.dtype, 'name') else got.dtype).name,
                want.dtype.name, what + ': dtype property')
    m = max(1.0, float(np.max(np.abs(want))) if want.size else 1.0, scale or 0)
    ctx.close(g / m, want / m, what, tol=3e-4 if self.single else 1e-8)

  def add(self, t, a, what, **kw):
    a = np.asarray(a)
    if not np.all(np.isfinite(a)) or (a.size and np.max(np.abs(a)) > 1e6):
      return
    self.eq(t, a, what, **kw)
    self.rich += a.size >= 2
    if a.size <= 2000:
      self.pool.append((t, a))

  def raises(self, f, what):
    self.ctx.raises(Exception, f, what)


def scalar(p, j):
  """A Python or NumPy scalar fitting the program's dtype."""
  v = [2, -3, 0.5, -1.25, 1.5 - 2j, 1][j % 6]
  if isinstance(v, complex) and not p.cplx:
    v = 0.75
  return v


STEPS = {}


def step(name):
  def deco(f):
    STEPS[name] = f
    return f
  return deco


def partner(p, t, a, s):
  """Another operand broadcastable with a: same shape, or a suffix shape."""
  same = [(u, b) for u, b in p.pool if b.shape == a.shape]
  if s['j'] % 3 == 0:
    cut = s['k'] % (a.ndim + 1)
    return p.fresh([1 if s['m'] >> i & 1 else d for i, d in enumerate(a.shape)][cut:])
  if s['j'] % 3 == 1 and len(same) > 1:
    return pick(same, s['k'])
  return p.fresh(list(a.shape))


@step('tt')
def s_tt(p, t, a, s):
  u, b = partner(p, t, a, s)
  o = s['o'] % 4
  if o == 3 and np.min(np.abs(b), initial=1) < 0.05:
    return
  if s['m'] % 2 and o != 3:
    t, a, u, b = u, b, t, a
  f = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y, lambda x, y: x / y][o]
  p.add(f(t, u), f(a, b), 'Tensor {} Tensor'.format('+-*/'[o]))


@step('ts')
def s_ts(p, t, a, s):
  v = scalar(p, s['j'])
  o = s['o'] % 7
  f = [lambda x: x + v, lambda x: x - v, lambda x: x * v, lambda x: x / v,
       lambda x: v + x, lambda x: v - x, lambda x: v * x][o]
  p.add(f(t), np.asarray(f(a)).astype(a.dtype), 'scalar operation {} with {!r}'.format(o, v))


@step('perm')
def s_perm(p, t, a, s):
  o = s['o'] % 8
  if o == 0:
    p.add(t.T, a.T, 'T')
  elif o == 1:
    p.add(t.H, np.conj(a.T), 'H')
  else:
    perm = perm_of(range(a.ndim), s['k'])
    if o == 2:
      p.add(t.transpose(perm), np.transpose(a, perm), 'transpose')
    elif o == 3:
      p.add(t.transpose(), a.T, 'transpose()')
    elif o == 4:
      p.add(t.hconj(perm), np.conj(np.transpose(a, perm)), 'hconj')
    elif o == 5:
      p.add(t.hconj(), np.conj(a.T), 'hconj()')
    elif o == 6:
      p.add(tn.transpose(t, perm) if s['m'] % 2 else tn.transpose(t, perm=None),
            np.transpose(a, perm) if s['m'] % 2 else a.T, 'tn.transpose')
    else:
      p.add(tn.hconj(t, perm) if s['m'] % 2 else tn.hconj(t),
            np.conj(np.transpose(a, perm)) if s['m'] % 2 else np.conj(a.T), 'tn.hconj')


@step('shape')
def s_shape(p, t, a, s):
  o = s['o'] % 7
  if o == 0:
    p.add(t.ravel(), a.reshape(-1), 'ravel')
  elif o == 1:
    r = t.flatten()
    p.add(r, a.reshape(-1), 'flatten')
    if p.name == 'numpy':
      p.ctx.check(not np.shares_memory(r.array, t.array), 'flatten returned a view')
  elif o == 2:
    p.add(t.squeeze(), a.reshape([d for d in a.shape if d != 1]), 'squeeze')
  elif o == 3:
    r = t.copy()
    p.add(r, a, 'copy')
    if p.name == 'numpy' and a.ndim:
      p.ctx.check(not np.shares_memory(r.array, t.array), 'copy returned a view')
  elif o == 4:
    p.ctx.equal(tuple(tn.shape(t)), a.shape, 'tn.shape')
  else:
    g, out = list(a.shape), []
    while g:
      n = 1 + s['k'] % len(g)
      out.append(math.prod(g[:n]))
      g = g[n:]
    if s['m'] % 4 == 1:
      out.insert(s['j'] % (len(out) + 1), 1)
    if s['m'] % 4 == 2 and out and a.size:
      want = a.reshape(out)
      out[s['j'] % len(out)] = -1
    else:
      want = a.reshape(out)
    if s['m'] % 2:
      out = tuple(out)
    p.add(t.reshape(out) if o == 5 else tn.reshape(t, out), want, 'reshape')


@step('empty')
def s_empty(p, t, a, s):
  """The shape methods on a tensor without elements."""
  sh = [[2, 1, 3, 1][(s['k'] >> 2 * i) % 4] for i in range(s['j'] % 4)]
  sh.insert(s['m'] % (len(sh) + 1), 0)
  t, a = p.fresh(sh)
  p.pool.pop()
  perm = perm_of(range(len(sh)), s['k'])
  o = s['o'] % 10
  f, want = [
      (lambda: t.squeeze(), a.reshape([d for d in sh if d != 1])),
      (lambda: t.ravel(), a.reshape(-1)),
      (lambda: t.flatten(), a.reshape(-1)),
      (lambda: t.transpose(perm), a.transpose(perm)),
      (lambda: t.hconj(perm), a.transpose(perm)),
      (lambda: t.copy(), a),
      (lambda: t.reshape([1] + sh[::-1]), a.reshape([1] + sh[::-1])),
      (lambda: t + t if s['m'] % 2 else t * 2, a),
      (lambda: t.conj() if s['m'] % 2 else t.H, a if s['m'] % 2 else a.T),
      (lambda: tn.tensordot(t, t, 0) if s['m'] % 2 else tn.tensordot(t, t, (perm, perm)),
       np.tensordot(a, a, 0) if s['m'] % 2 else np.tensordot(a, a, (perm, perm))),
  ][o]
  p.eq(f(), want, 'operation {} of an empty tensor'.format(o))


@step('conj')
def s_conj(p, t, a, s):
  o = s['o'] % 3
  p.add([lambda: t.conj(), lambda: t.conjugate(), lambda: tn.conj(t)][o](), np.conj(a), 'conj')


@step('elem')
def s_elem(p, t, a, s):
  o = s['o'] % 7
  if o < 3:
    if np.max(np.abs(a), initial=0) > 20:
      return
    f, g = [(tn.sin, np.sin), (tn.cos, np.cos), (tn.exp, np.exp)][o]
    p.add(f(t), g(a), g.__name__)
  elif o == 3:
    w = np.abs(a)
    p.add(tn.abs(t), w, 'abs', dtype=not (p.cplx and p.name == 'tensorflow'))
    if w.dtype != a.dtype:
      p.pool.pop()
  elif o == 4:
    if not p.cplx:
      p.add(tn.sign(t), np.sign(a), 'sign')
  else:
    pos = (np.abs(a) + 0.1).astype(a.dtype)
    x = tn.Tensor(p.conv(pos), backend=p.name)
    f, g = [(tn.sqrt, np.sqrt), (tn.log, np.log)][o - 5]
    p.add(f(x), g(pos), g.__name__)


@step('matmul')
def s_matmul(p, t, a, s):
  if a.ndim < 2:
    u, b = p.fresh([3, 2])
    p.raises(lambda: t @ u, 'matmul of a rank-{} tensor'.format(a.ndim))
    return
  u, b = p.fresh(list(a.shape[:-2]) * (s['m'] % 2 or p.name == 'tensorflow') + [a.shape[-1], 1 + s['k'] % 4])
  p.add(t @ u, np.matmul(a, b), '@')


@step('tensordot')
def s_tensordot(p, t, a, s):
  k = s['k'] % (min(a.ndim, 3) + 1)
  axes = perm_of(range(a.ndim), s['j'])[:k]
  order = perm_of(range(k + s['o'] % 2), s['m'])
  sh = [0] * len(order)
  for i, pos in enumerate(order):
    sh[pos] = a.shape[axes[i]] if i < k else 2
  u, b = p.fresh(sh)
  ax_b = order[:k]
  if a.size * b.size > 60000:
    return
  want = np.tensordot(a, b, (axes, ax_b)) if k else np.multiply.outer(a, b)
  if k == 0 and s['m'] % 2:
    p.add(tn.outer(t, u), want, 'outer')
  else:
    p.add(tn.tensordot(t, u, (axes, ax_b) if k else 0), want, 'tensordot')


@step('einsum')
def s_einsum(p, t, a, s):
  if a.ndim > 4 or 0 in a.shape:
    return
  la = 'abcd'[:a.ndim]
  k = s['k'] % (a.ndim + 1)
  lb = ''.join(perm_of(list(la), s['j'])[:k]) + 'e'
  u, b = p.fresh([dict(zip(la, a.shape)).get(c, 2) for c in lb])
  out = ''.join(perm_of([c for c in dict.fromkeys(la + lb)], s['m'])[:1 + s['o'] % 3])
  ex = '{},{}->{}'.format(la, lb, out)
  p.add(tn.einsum(ex, t, u, optimize=bool(s['o'] % 2)), np.einsum(ex, a, b), 'einsum ' + ex)


@step('ncon')
def s_ncon(p, t, a, s):
  if a.ndim > 4:
    return
  k = s['k'] % (a.ndim + 1)
  shared = perm_of(range(a.ndim), s['j'])[:k]
  la = [None] * a.ndim
  for n, i in enumerate(shared):
    la[i] = n + 1
  free = -1
  for i in range(a.ndim):
    if la[i] is None:
      la[i], free = free, free - 1
  lb = [la[i] for i in shared] + [free]
  u, b = p.fresh([a.shape[i] for i in shared] + [2])
  sym = {l: 'abcdefghij'[n] for n, l in enumerate(dict.fromkeys(la + lb))}
  out = sorted([l for l in la + lb if l < 0], reverse=True)
  want = np.einsum('{},{}->{}'.format(*(''.join(sym[l] for l in x) for x in (la, lb, out))), a, b)
  built = t(*la) @ u(*lb)
  p.add(tn.finalize(built), want, 'finalize of T{} @ U{}'.format(la, lb))
  p.ctx.equal((len(built.tensors), built.axes), (2, [la, lb]), 'builder after finalize')
  if not lb[:-1]:
    return
  w = tn.ncon([t, u], [la, lb], backend=p.name)
  p.add(w, want, 'ncon of tensors')


@step('slice')
def s_slice(p, t, a, s):
  if a.ndim == 0:
    return
  st_, sz = [], []
  for i, d in enumerate(a.shape):
    x = (s['k'] >> (2 * i)) % d
    st_.append(x)
    sz.append(1 + (s['j'] >> i) % (d - x))
  idx = tuple(slice(x, x + n) for x, n in zip(st_, sz))
  p.add(tn.take_slice(t, tuple(st_), tuple(sz)), a[idx], 'take_slice')


@step('diag')
def s_diag(p, t, a, s):
  o = s['o'] % 3
  if o == 0:
    if a.size <= 12:
      k = s['k'] % 5 - 2
      p.add(tn.diagflat(t, k), np.diagflat(a, k), 'diagflat')
    return
  if a.ndim < 2:
    return
  kw, off, ax = {}, 0, (-2, -1)
  if s['j'] % 2 and not (p.name == 'tensorflow' and o == 2):
    off = s['k'] % 3 - 1
    kw['offset'] = off
  if s['m'] % 2 and not (p.name == 'tensorflow' and o == 1):
    ax = tuple(perm_of(range(a.ndim), s['k'])[:2])
    kw.update(axis1=ax[0], axis2=ax[1])
  i, j = ax[0] % a.ndim, ax[1] % a.ndim
  m = np.moveaxis(a, (i, j), (-2, -1))
  r, c = m.shape[-2:]
  entries = [m[..., x, x + off] for x in range(r) if 0 <= x + off < c]
  if not entries:
    return
  if o == 1:
    p.add(tn.diagonal(t, **kw), np.stack(entries, -1), 'diagonal')
  else:
    if p.name == 'tensorflow' and (r != c or a.ndim > 6):
      return
    p.add(tn.trace(t, **kw), sum(entries), 'trace')


@step('pivot')
def s_pivot(p, t, a, s):
  if a.ndim < 2:
    return
  k = 1 + s['k'] % (a.ndim - 1)
  piv = k if s['j'] % 2 else k - a.ndim
  l = math.prod(a.shape[:k])
  o = s['o'] % 6
  mat = a.reshape(l, -1)
  kw = {} if (piv in (-1, a.ndim - 1) and s['m'] % 2) else dict(pivot_axis=piv)
  scale = float(np.max(np.abs(a), initial=1))
  if o == 0:
    p.add(tn.pivot(t, **kw), mat, 'pivot')
  elif o in (1, 2):
    f = tn.qr if o == 1 else tn.rq
    q, r = f(t, non_negative_diagonal=bool(s['m'] & 2), **kw)
    n = min(mat.shape)
    sq, sr = (a.shape[:k] + (n,), (n,) + a.shape[k:]) if o == 1 else (a.shape[:k] + (n,), (n,) + a.shape[k:])
    p.ctx.equal((tuple(q.shape), tuple(r.shape)), (sq, sr), 'factor shapes')
    p.eq(tn.tensordot(q, r, 1), a, 'qr/rq reconstruction', scale=scale)
    iso = np.asarray(q.array).reshape(-1, n) if o == 1 else np.asarray(r.array).reshape(n, -1).conj().T
    p.ctx.close(iso.conj().T @ iso, np.eye(n), 'isometry', tol=1e-4 if p.single else 1e-8)
    tri = np.asarray(r.array).reshape(n, -1) if o == 1 else np.asarray(q.array).reshape(-1, n)
    if s['m'] & 2:
      d = np.diagonal(tri) if o == 1 else np.diagonal(tri[::-1, ::-1]) if False else np.diagonal(tri)
      p.ctx.check(np.all(d.real >= -1e-4 * scale) and np.all(np.abs(d.imag) <= 1e-4 * scale),
                  'non_negative_diagonal: {}', d)
    p.rich += 1
  elif o in (3, 4):
    opt = {}
    full = np.linalg.svd(mat, compute_uv=False)
    keep = n = len(full)
    if o == 4:
      keep = 1 + s['j'] % n
      opt = dict(max_singular_values=keep)
    u, sv, vh, rest = tn.svd(t, **kw, **opt)
    p.ctx.equal((tuple(u.shape), tuple(sv.shape), tuple(vh.shape), tuple(rest.shape)),
                (a.shape[:k] + (keep,), (keep,), (keep,) + a.shape[k:], (n - keep,)), 'svd shapes')
    for x in (u, sv, vh, rest):
      p.ctx.check(isinstance(x, tn.Tensor) and x.backend.name == p.name, 'svd returns Tensors')
    g = np.concatenate([np.asarray(sv.array), np.asarray(rest.array)])
    p.ctx.close(g / scale, full / scale, 'singular values', tol=1e-4 if p.single else 1e-8)
    us = np.asarray(u.array).reshape(l, keep) * np.asarray(sv.array)
    U, S, V = np.linalg.svd(mat, full_matrices=False)
    if keep == n:
      p.ctx.close(us @ np.asarray(vh.array).reshape(keep, -1) / scale, mat / scale, 'svd product',
                  tol=1e-4 if p.single else 1e-8)
    p.rich += 1
  else:
    p.ctx.close(np.asarray(tn.norm(t)).real, math.sqrt(float(np.sum(np.abs(a.astype(complex)) ** 2))), 'norm',
                tol=1e-4 if p.single else 1e-8)


@step('matrix')
def s_matrix(p, t, a, s):
  n = 1 + s['k'] % 4
  o = s['o'] % 3
  t, a = p.fresh([n, n], f=(lambda x: x + x.conj().T) if o == 0 else (lambda x: x + 5 * np.eye(n)) if o == 1 else None)
  if o == 0:
    e, v = tn.eigh(t)
    E, V = np.asarray(e.array), np.asarray(v.array)
    p.ctx.close(E.real, np.linalg.eigvalsh(a), 'eigenvalues ascending', tol=1e-4 if p.single else 1e-8)
    p.ctx.close(a @ V, V * E, 'eigenvectors', tol=1e-3 if p.single else 1e-8)
    p.ctx.check(isinstance(e, tn.Tensor) and isinstance(v, tn.Tensor), 'eigh returns Tensors')
    p.rich += 1
  elif o == 1:
    p.add(tn.inv(t), np.linalg.inv(a), 'inv')
  else:
    p.add(tn.expm(t), scipy.linalg.expm(a.astype(complex)).astype(a.dtype), 'expm')


@step('kron')
def s_kron(p, t, a, s):
  u, b = p.fresh([[], [2, 3], [3], [1, 2, 2, 1]][s['k'] % 4])
  if a.size * b.size > 20000:
    return
  if s['j'] % 2:
    t, a, u, b = u, b, t, a
  if a.ndim % 2 or b.ndim % 2:
    p.raises(lambda: tn.kron(t, u), 'kron of odd rank')
    return
  A = a.reshape(math.prod(a.shape[:a.ndim // 2]), -1)
  B = b.reshape(math.prod(b.shape[:b.ndim // 2]), -1)
  sh = a.shape[:a.ndim // 2] + b.shape[:b.ndim // 2] + a.shape[a.ndim // 2:] + b.shape[b.ndim // 2:]
  p.add(tn.kron(t, u), np.kron(A, B).reshape(sh), 'kron')


@step('make')
def s_make(p, t, a, s):
  shape = [1 + (s['k'] >> i) % 3 for i in range(s['j'] % 4)]
  kinds = [None] + [NPD[k] for k in KINDS]
  d = kinds[s['m'] % 5]
  bd = backend_dtype(p.name, d)
  np_d = np.dtype(d) if d is not None else np.dtype(np.float64)
  o = s['o'] % 5
  with_default = p.case['default']
  kw = {} if with_default else dict(backend=p.name)

  def make(f, *args, **k):
    if with_default:
      with tn.DefaultBackend(p.name):
        return f(*args, **k)
    return f(*args, **k, **kw)
  if o == 0:
    p.eq(make(tn.ones, shape, dtype=bd), np.ones(shape, np_d), 'ones')
  elif o == 1:
    p.eq(make(tn.zeros, tuple(shape), dtype=bd), np.zeros(shape, np_d), 'zeros')
  elif o == 2:
    N, M = 1 + s['k'] % 4, [None, 1 + s['j'] % 4][s['m'] % 2]
    p.eq(make(tn.eye, N, dtype=bd, M=M), np.eye(N, M, dtype=np_d), 'eye')
  else:
    f, g = [(tinit.ones_like, np.ones), (tinit.zeros_like, np.zeros)][o - 3]
    if s['j'] % 2:
      r = f(t, dtype=bd) if d is not None else f(t)
      p.eq(r, g(a.shape, np_d if d is not None else a.dtype), f.__name__ + ' of a Tensor')
    else:
      r = f(t.array, dtype=bd, **({} if with_default and p.name == 'numpy' else dict(backend=p.name)))
      p.eq(r, g(a.shape, np_d), f.__name__ + ' of an array', dtype=d is not None)
  p.rich += 1


def node_eq(p, n, want, what, name=None, axes=None, fresh=True):
  p.ctx.check(isinstance(n, tn.Node), '{}: result is a {}', what, type(n).__name__)
  p.ctx.equal(n.backend.name, p.name, what + ': backend')
  want = np.asarray(want)
  g = np.asarray(n.tensor)
  p.ctx.equal((tuple(n.shape), g.shape), (want.shape, want.shape), what + ': shape')
  p.ctx.equal(g.dtype.name, want.dtype.name, what + ': dtype')
  m = max(1.0, float(np.max(np.abs(want), initial=1)))
  p.ctx.close(g / m, want / m, what, tol=3e-4 if p.single else 1e-8)
  if name is not None:
    p.ctx.equal(n.name, name, what + ': name')
  if axes is not None:
    p.ctx.equal(list(n.axis_names), list(axes), what + ': axis names')
  p.ctx.equal(len(n.edges), want.ndim, what + ': number of edges')
  if fresh:
    for i, e in enumerate(n.edges):
      p.ctx.check(e.is_dangling() and e.node1 is n and e.axis1 == i, what + ': edge {} is not its own dangling edge', i)
  p.rich += want.size >= 2


@step('node')
def s_node(p, t, a, s):
  names = ['ax%d' % i for i in range(a.ndim)]
  mk = lambda x, nm='n': tn.Node(p.conv(x), name=nm, axis_names=['ax%d' % i for i in range(x.ndim)], backend=p.name)
  n = mk(a)
  o = s['o'] % 7
  if o == 0:
    q = s['m'] % 4
    if s['j'] % 2:
      v = [2, -1.5, 0.5, 3][s['k'] % 4]
      f = [lambda x: x + v, lambda x: x - v, lambda x: x * v, lambda x: x / v][q]
      node_eq(p, f(n), np.asarray(f(a)).astype(a.dtype), 'Node op scalar', 'n')
    else:
      b = arr(a.shape, p.case['seed'] + 77, p.case['kind'])
      if q == 3 and np.min(np.abs(b), initial=1) < 0.05:
        return
      f = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y, lambda x, y: x / y][q]
      if b.dtype != a.dtype:
        return
      other = mk(b, 'o')
      node_eq(p, f(n, other), f(a, b), 'Node op Node', 'n')
      node_eq(p, other, b, 'operand after Node op', 'o', names)
  elif o == 1:
    kw = {}
    if s['j'] % 2:
      kw['name'] = 'cc'
    if s['k'] % 2:
      kw['axis_names'] = ['z%d' % i for i in range(a.ndim)]
    node_eq(p, node_linalg.conj(n, **kw), np.conj(a), 'node conj', kw.get('name'), kw.get('axis_names', names))
  elif o == 2:
    perm = perm_of(range(a.ndim), s['k'])
    arg = [names[x] if s['m'] >> i & 1 else x for i, x in enumerate(perm)]
    kw = {}
    if s['j'] % 3 == 1:
      kw['name'] = 'tt'
    if s['j'] % 2:
      kw['axis_names'] = ['z%d' % i for i in range(a.ndim)]
    r = node_linalg.transpose(n, arg, **kw)
    node_eq(p, r, np.transpose(a, perm), 'node transpose', kw.get('name'),
            kw.get('axis_names', [names[x] for x in perm]))
  elif o == 3:
    p.ctx.close(np.asarray(node_linalg.norm(n)).real, math.sqrt(float(np.sum(np.abs(a.astype(complex)) ** 2))),
                'node norm', tol=1e-4 if p.single else 1e-8)
  elif o == 4:
    mats = [a] if a.ndim % 2 == 0 and a.size < 200 else []
    for i in range(1 + s['k'] % 3):
      mats.append(arr([[2, 3], [1, 2, 2, 1], []][(s['j'] + i) % 3], p.case['seed'] + 90 + i, p.case['kind']))
    if len({m.dtype for m in mats}) > 1 or math.prod(m.size for m in mats) > 5000 or sum(m.ndim for m in mats) > 12:
      return
    want = np.ones((), mats[0].dtype)
    for m in mats:
      want = np.multiply.outer(want, m)
    first, second, off = [], [], 0
    for m in mats:
      h = m.ndim // 2
      first += range(off, off + h)
      second += range(off + h, off + m.ndim)
      off += m.ndim
    node_eq(p, node_linalg.kron([mk(m) for m in mats]), np.transpose(want, first + second), 'node kron')
    if s['m'] % 4 == 0:
      bad = mk(arr([2], 3, p.case['kind']))
      p.raises(lambda: node_linalg.kron([bad, mk(mats[-1])]), 'node kron with odd rank')
    return
  elif o == 5:
    shape = [1 + (s['k'] >> i) % 3 for i in range(s['j'] % 4)]
    d = [None, np.float32, np.complex128][s['m'] % 3]
    kw = dict(dtype=backend_dtype(p.name, d))
    nd = np.dtype(d if d is not None else np.float64)
    which = s['o'] // 7 % 3
    axes = ['q%d' % i for i in range(2 if which == 2 else len(shape))]
    if s['m'] % 2:
      kw.update(name='made', axis_names=axes)
    else:
      axes = None
    f, args, want = [(node_linalg.ones, (shape,), np.ones(shape, nd)),
                     (node_linalg.zeros, (shape,), np.zeros(shape, nd)),
                     (node_linalg.eye, (3,), np.eye(3, s['k'] % 4 + 1, dtype=nd))][which]
    if which == 2:
      kw['M'] = s['k'] % 4 + 1
    if p.case['default']:
      with tn.DefaultBackend(p.name if s['k'] % 2 else p.b):
        r = f(*args, **kw)
    else:
      r = f(*args, backend=p.name if s['k'] % 2 else p.b, **kw)
    node_eq(p, r, want, 'node ' + f.__name__, kw.get('name'), axes)
    return
  else:
    w = tn.Node(n)
    node_eq(p, w, a, 'Node of a Node')
    if s['j'] % 2:
      w = tn.Node(t.array, backend=p.name)
      node_eq(p, w, a, 'Node of an array')
  node_eq(p, n, a, 'node after the operation', 'n', names)


@step('other')
def s_other(p, t, a, s):
  """Operands of two backends are rejected."""
  oname = 'numpy' if p.name != 'numpy' else s_other_backend(p)
  ob = backend_factory.get_backend(oname)
  u = tn.Tensor(ob.convert_to_tensor(a.copy()), backend=oname)
  o = s['o'] % 9
  fs = [lambda: t + u, lambda: t - u, lambda: t * u, lambda: t / u, lambda: t @ u,
        lambda: tn.outer(t, u), lambda: tn.tensordot(t, u, 0), lambda: tn.kron(t, u),
        lambda: tn.einsum('ab,ab->', t, u, optimize=True)]
  if o == 4 and a.ndim < 2 or o == 7 and a.ndim % 2 or o == 8 and a.ndim != 2:
    o = 5
  p.raises(fs[o], 'operands of backends {} and {} (operation {})'.format(p.name, oname, o))
  if s['j'] % 4 == 0 and a.ndim:
    n, m = tn.Node(t.array, backend=p.name), tn.Node(u.array, backend=oname)
    g = [lambda: n + m, lambda: n - m, lambda: n * m, lambda: n / m][s['k'] % 4]
    p.raises(g, 'nodes of two backends')


def s_other_backend(p):
  if 'symmetric' and p.name == 'numpy':
    return 'jax'
  return 'numpy'


@st.composite
def g_prog(draw, backend, maxlen):
  kind = draw(st.sampled_from(KINDS))
  steps = draw(st.lists(st.fixed_dictionaries(dict(
      op=st.sampled_from(sorted(STEPS)), t=st.integers(0, 7), o=st.integers(0, 20), j=st.integers(0, 23),
      k=st.integers(0, 119), m=st.integers(0, 15))), min_size=1, max_size=maxlen))
  return dict(backend=backend, kind=kind, seed=draw(seeds), shapes=draw(st.lists(shapes(0, 4), min_size=1, max_size=3)),
              default=draw(st.booleans()), steps=steps)


def run(case, ctx):
  p = Prog(case, ctx)
  for sh in case['shapes']:
    p.fresh(sh)
  for t, a in p.pool:
    p.eq(t, a, 'new Tensor')
  for s in case['steps']:
    t, a = pick(p.pool, s['t'])
    ctx.label(s['op'])
    STEPS[s['op']](p, t, a, s)
  for i, (t, a) in enumerate(p.pool):
    p.eq(t, a, 'tensor {} after the program'.format(i))
  ctx.nontrivial(p.rich >= 2)


def strategy(backend, maxlen):
  return lambda: g_prog(backend, maxlen)


# -- jit decorator ----------------------------------------------------------
def run_jit(case, ctx):
  calls = []
  shape = case['shape']
  a, c = arr(shape, case['seed'], 'real'), arr(shape, case['seed'] + 1, 'real')
  b = backend_factory.get_backend(case['backend'])
  x, y = b.convert_to_tensor(a.copy()), b.convert_to_tensor(c.copy())
  mode = case['mode']
  if mode == 0:
    f = tn.jit(lambda u, v: u * 2 + v, backend=case['backend'] if case['obj'] else b)
    got, want = f(x, y), 2 * a + c
  elif mode == 1:
    g = lambda u, k, v: u * k + v
    f = tn.jit(g, backend=case['backend'], static_argnums=(1,) if case['obj'] else 1)
    got, want = f(x, case['k'], y), a * case['k'] + c
  elif mode == 2:
    g = lambda u, be, v: backend_factory.get_backend(be).addition(u, v)
    f = tn.jit(g, backend_argnum=1)
    got, want = f(x, case['backend'] if case['obj'] else b, y), a + c
  elif mode == 3:
    g = lambda u, be, v, k: backend_factory.get_backend(be).addition(u, v) * k
    f = tn.jit(g, backend_argnum=1, static_argnums=(3,) if case['obj'] else 3)
    got, want = f(x, case['backend'], y, case['k']), (a + c) * case['k']
  elif mode == 4:
    with tn.DefaultBackend(case['backend']):
      @tn.jit
      def f(u, v):
        """doc"""
        return u - v
    got, want = f(x, y), a - c
    ctx.equal((f.__name__, f.__doc__), ('f', 'doc'), 'wrapped name and docstring')
  else:
    ctx.raises(ValueError, lambda: tn.jit(lambda u: u, backend='numpy', backend_argnum=0), 'backend and backend_argnum')
    f = tn.jit(lambda u, be: u, backend_argnum=1)
    ctx.raises(Exception, lambda: f(x, 'no such backend'), 'unknown backend argument')
    return
  ctx.nontrivial(a.size >= 2)
  ctx.close(np.asarray(got), want, 'jitted function', tol=1e-9)


g_jit = st.fixed_dictionaries(dict(mode=st.integers(0, 5), backend=st.sampled_from(['numpy', 'jax', 'tensorflow']),
                                   shape=shapes(0, 3), obj=st.booleans(), k=st.integers(-2, 3), seed=seeds))

PARTS = [
    Part('numpy', strategy('numpy', 12), run, 5000, 60000),
    Part('tensorflow', strategy('tensorflow', 6), run, 1200, 12000),
    Part('jax', strategy('jax', 4), run, 800, 8000, setup=c08.jax64),
    Part('jit', lambda: g_jit, run_jit, 300, 2000, setup=c08.jax64),
]
