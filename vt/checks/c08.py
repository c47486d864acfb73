"""C08: every backend primitive computes the same mathematical function."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from tensornetwork.backends import backend_factory
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.netgen import perm_of

ID = 'C08'
RULE = ('For every primitive of the common backend interface, random valid arguments (ranks 0-5, dims '
        '1-4, real/complex/integer, single and double precision, negative axes, every default argument, '
        'non-contiguous inputs) on NumPy, TensorFlow and JAX, against the plain array formula evaluated '
        'independently. Non-trivial: some input has at least two elements.')
ASSUMPTIONS = ['calls documented as unsupported by a backend (NotImplementedError) are not counted as offered']

FLOATS = ['real', 'complex', 'f32', 'c64']
ANY = ['real', 'complex', 'f32', 'c64', 'i64', 'int']
dim = st.integers(1, 4)


def shapes(lo, hi):
  return st.lists(dim, min_size=lo, max_size=hi)


OPS = {}


def op(name, gen):
  def deco(f):
    OPS[name] = (gen, f)
    return f
  return deco


class Env:
  """Arguments for one call: t(shape) makes a backend tensor and its array."""

  def __init__(self, case, ctx):
    self.case, self.ctx = case, ctx
    self.b = backend_factory.get_backend(case['backend'])
    self.used = []
    self.k = 0

  def t(self, shape, kind=None, f=None):
    self.k += 1
    a = arr(shape, self.case['seed'] + self.k, kind or self.case['kind'])
    if f is not None:
      a = np.asarray(f(a)).astype(a.dtype)
    return self.wrap(a), a

  def wrap(self, a):
    a = np.asarray(a)
    if self.case['backend'] == 'numpy':
      lay = self.case['layout']
      if lay == 1 and a.ndim:
        x = np.array(a, order='F')
      elif lay == 2 and a.ndim:
        x = np.repeat(a, 2, axis=0)[::2]
      else:
        x = a.copy()
    else:
      x = self.b.convert_to_tensor(a.copy())
    self.used.append((x, a.copy()))
    return x

  @property
  def eps(self):
    return 2e-4 if self.case['kind'] in ('f32', 'c64') else 1e-9

  def same(self, got, want, msg, dtype=True):
    ctx = self.ctx
    want = np.asarray(want)
    if self.case['backend'] == 'tensorflow':
      import tensorflow as tf
      ctx.check(isinstance(got, tf.Tensor), '{}: result is {}', msg, type(got))
    elif self.case['backend'] == 'jax':
      import jax
      ctx.check(isinstance(got, jax.Array), '{}: result is {}', msg, type(got))
    else:
      ctx.check(isinstance(got, (np.ndarray, np.generic)), '{}: result is {}', msg, type(got))
    g = np.asarray(got)
    if dtype:
      ctx.equal(g.dtype.name, want.dtype.name, msg + ': dtype')
    ctx.close(g, want, msg, tol=self.eps)

  def finish(self):
    for x, a in self.used:
      self.ctx.check(np.array_equal(np.asarray(x), a), 'an argument was modified')


def kinds(case, allowed):
  return case['kind'] in allowed


# -- contraction ------------------------------------------------------------
@st.composite
def g_tensordot(draw):
  return dict(shared=draw(shapes(0, 4)), fa=draw(shapes(0, 2)) if draw(st.booleans()) else [],
              fb=draw(shapes(0, 2)) if draw(st.booleans()) else [], pa=draw(st.integers(0, 719)),
              pb=draw(st.integers(0, 719)), order=draw(st.integers(0, 23)), neg=draw(st.integers(0, 255)),
              mode=draw(st.integers(0, 3)), kind=draw(st.sampled_from(FLOATS + ['int'])))


@op('tensordot', g_tensordot())
def f_tensordot(c, e):
  k, na, nb = len(c['shared']), len(c['fa']), len(c['fb'])
  if c['mode'] == 0:
    a, A = e.t(c['fa'] + c['shared'])
    b, B = e.t(c['shared'] + c['fb'])
    return e.b.tensordot(a, b, k), np.tensordot(A, B, k)
  pa, pb = perm_of(range(k + na), c['pa']), perm_of(range(k + nb), c['pb'])
  sa = [(c['shared'] + c['fa'])[p] for p in pa]
  sb = [(c['shared'] + c['fb'])[p] for p in pb]
  a, A = e.t(sa)
  b, B = e.t(sb)
  order = perm_of(range(k), c['order'])
  ax_a = [pa.index(i) for i in order]
  ax_b = [pb.index(i) for i in order]
  la = list(range(len(sa)))
  lb = [100 - j for j in range(len(sb))]
  for i, j in zip(ax_a, ax_b):
    lb[j] = i
  names = sorted(set(la + lb))
  ids = {n: i for i, n in enumerate(names)}
  out = [l for l in la if l not in ax_a] + [l for j, l in enumerate(lb) if j not in ax_b]
  want = np.einsum(A, [ids[l] for l in la], B, [ids[l] for l in lb], [ids[l] for l in out])
  ng = c['neg']
  ax_a = [i - len(sa) if ng >> n & 1 else i for n, i in enumerate(ax_a)]
  ax_b = [i - len(sb) if ng >> (n + 4) & 1 else i for n, i in enumerate(ax_b)]
  axes = [ax_a, ax_b] if c['mode'] == 1 else (tuple(ax_a), tuple(ax_b))
  if ng and k:
    e.ctx.label('negative axes')
  if not na and not nb:
    e.ctx.label('full contraction')
  return e.b.tensordot(a, b, axes), want


@op('outer_product', st.fixed_dictionaries(dict(a=shapes(0, 3), b=shapes(0, 3), kind=st.sampled_from(FLOATS))))
def f_outer(c, e):
  a, A = e.t(c['a'])
  b, B = e.t(c['b'])
  return e.b.outer_product(a, b), np.multiply.outer(A, B)


@st.composite
def g_einsum(draw):
  n = draw(st.integers(1, 3))
  labs = [draw(st.lists(st.integers(0, 5), max_size=3 if n > 1 else 4)) for _ in range(n)]
  return dict(labs=labs, dims=draw(st.lists(dim, min_size=6, max_size=6)), out=draw(st.integers(0, 63)),
              perm=draw(st.integers(0, 719)), upper=draw(st.booleans()), opt=draw(st.integers(0, 2)),
              kind=draw(st.sampled_from(FLOATS)))


@op('einsum', g_einsum())
def f_einsum(c, e):
  rep = any(len(set(l)) < len(l) for l in c['labs'])
  if c['backend'] == 'tensorflow' and any(l.count(x) > 2 for l in c['labs'] for x in l):
    raise Skip('tf')
  ts = [e.t([c['dims'][l] for l in lab]) for lab in c['labs']]
  present = sorted({l for lab in c['labs'] for l in lab})
  out = perm_of([l for l in present if c['out'] >> l & 1], c['perm'])
  alpha = 'ABCdef' if c['upper'] else 'zyxabc'
  s = ','.join(''.join(alpha[l] for l in lab) for lab in c['labs']) + '->' + ''.join(alpha[l] for l in out)
  want = np.einsum(s, *[A for _, A in ts])
  if rep:
    e.ctx.label('repeated label')
  args = [t for t, _ in ts]
  if c['opt'] == 0:
    return e.b.einsum(s, *args), want
  return e.b.einsum(s, *args, optimize=c['opt'] == 1), want


@st.composite
def g_matmul(draw):
  batch = draw(shapes(0, 2))
  def cut(b):
    b = [1 if draw(st.integers(0, 3)) == 0 else x for x in b]
    return b[draw(st.integers(0, len(b))):]
  n, k, m = draw(dim), draw(dim), draw(dim)
  return dict(a=cut(batch) + [n, k], b=cut(batch) + [k, m], low=draw(st.integers(0, 9)),
              kind=draw(st.sampled_from(FLOATS)))


@op('matmul', g_matmul())
def f_matmul(c, e):
  a, A = e.t(c['a'])
  b, B = e.t(c['b'])
  if c['low'] == 0:
    v, _ = e.t(c['b'][-2:-1])
    e.ctx.raises(ValueError, lambda: e.b.matmul(a, v), 'matmul with a vector')
    e.ctx.raises(ValueError, lambda: e.b.matmul(v, b), 'matmul with a vector')
  return e.b.matmul(a, b), np.matmul(A, B)


# -- shapes -----------------------------------------------------------------
@op('reshape', st.fixed_dictionaries(dict(shape=shapes(0, 4), groups=st.integers(0, 15), form=st.integers(0, 3),
                                          minus=st.integers(0, 9), kind=st.sampled_from(ANY))))
def f_reshape(c, e):
  t, A = e.t(c['shape'])
  new = []
  for i, d in enumerate(c['shape']):
    if i and c['groups'] >> i & 1:
      new[-1] *= d
    elif d == 4:
      new += [2, 2]
    else:
      new.append(d)
  want = A.reshape(new)
  if c['minus'] < len(new):
    new[c['minus']] = -1
  new = [tuple, list, lambda x: np.array(x, dtype=np.int64), lambda x: np.array(x, dtype=np.int32)][c['form']](new)
  return e.b.reshape(t, new), want


@op('transpose', st.fixed_dictionaries(dict(shape=shapes(0, 5), perm=st.integers(0, 719), form=st.integers(0, 4),
                                            kind=st.sampled_from(ANY))))
def f_transpose(c, e):
  t, A = e.t(c['shape'])
  if c['form'] == 0:
    return e.b.transpose(t), A.T
  if c['form'] == 1:
    return e.b.transpose(t, None), A.T
  p = perm_of(range(A.ndim), c['perm'])
  if c['form'] == 2:
    return e.b.transpose(t, perm=p), A.transpose(p)
  return e.b.transpose(t, tuple(p)), A.transpose(p)


@op('slice', st.fixed_dictionaries(dict(shape=shapes(0, 4), s=st.lists(st.integers(0, 99), min_size=8, max_size=8),
                                        bad=st.integers(0, 9), kind=st.sampled_from(ANY))))
def f_slice(c, e):
  t, A = e.t(c['shape'])
  start = [c['s'][i] % d for i, d in enumerate(c['shape'])]
  size = [1 + c['s'][i + 4] % (d - s) for i, (d, s) in enumerate(zip(c['shape'], start))]
  if c['bad'] == 0:
    e.ctx.raises(ValueError, lambda: e.b.slice(t, tuple(start) + (0,), tuple(size)), 'slice of unequal lengths')
  if c['backend'] == 'tensorflow' and not start:
    raise Skip('tf.slice of a scalar')
  return (e.b.slice(t, tuple(start), tuple(size)),
          A[tuple(slice(s, s + z) for s, z in zip(start, size))])


@op('shapes', st.fixed_dictionaries(dict(shape=shapes(0, 5), other=shapes(1, 3), kind=st.sampled_from(ANY))))
def f_shapes(c, e):
  t, A = e.t(c['shape'])
  b = e.b
  e.ctx.equal(tuple(b.shape_tuple(t)), A.shape, 'shape_tuple')
  e.ctx.check(isinstance(b.shape_tuple(t), tuple), 'shape_tuple returns a tuple')
  e.ctx.equal(tuple(b.sparse_shape(t)), A.shape, 'sparse_shape')
  e.ctx.equal(tuple(int(x) for x in np.asarray(b.shape_tensor(t))), A.shape, 'shape_tensor')
  if c['shape']:
    e.ctx.equal(int(b.shape_prod(b.shape_tensor(t))), A.size, 'shape_prod')
    e.ctx.equal([int(x) for x in np.asarray(b.shape_concat([b.shape_tensor(t), c['other']], axis=-1))],
                c['shape'] + c['other'], 'shape_concat')
  return None


@op('pivot', st.fixed_dictionaries(dict(shape=shapes(1, 5), axis=st.integers(-6, 6), kind=st.sampled_from(FLOATS))))
def f_pivot(c, e):
  t, A = e.t(c['shape'])
  ax = c['axis']
  n = A.ndim
  if ax > n:
    e.ctx.raises(ValueError, lambda: e.b.pivot(t, ax), 'pivot beyond the rank')
    return None
  if ax == 6 or ax < -n:
    ax = -1
    got = e.b.pivot(t)
  else:
    got = e.b.pivot(t, pivot_axis=ax)
  left = int(np.prod(A.shape[:ax], dtype=int))
  return got, A.reshape(left, -1)


# -- elementwise --------------------------------------------------------------
def unary(name, fn, kinds_, pos=False, kind_out=None):
  @op(name, st.fixed_dictionaries(dict(shape=shapes(0, 4), kind=st.sampled_from(kinds_))))
  def f(c, e, fn=fn, pos=pos):
    g = None
    if pos and c['kind'] in ('real', 'f32'):
      g = lambda a: np.abs(a) + 0.1
    t, A = e.t(c['shape'], f=g)
    return getattr(e.b, name)(t), fn(A)
  return f


unary('sqrt', lambda a: np.exp(0.5 * np.log(a)).astype(a.dtype), FLOATS, pos=True)
unary('conj', lambda a: (a.real - 1j * a.imag).astype(a.dtype) if np.iscomplexobj(a) else a, FLOATS)
unary('sin', np.sin, FLOATS)
unary('cos', np.cos, FLOATS)
unary('exp', np.exp, FLOATS)
unary('log', np.log, FLOATS, pos=True)
unary('abs', lambda a: np.sqrt(a.real ** 2 + a.imag ** 2).astype(a.real.dtype), FLOATS)
unary('sign', lambda a: np.where(a > 0, 1, np.where(a < 0, -1, 0)).astype(a.dtype), ['real', 'f32', 'int', 'i64'])
unary('norm', lambda a: np.asarray(np.sqrt(np.sum(np.abs(a) ** 2)), dtype=a.real.dtype), FLOATS)


def binary(name, fn):
  @op(name, st.fixed_dictionaries(dict(shape=shapes(0, 4), cut=st.integers(0, 4), ones=st.integers(0, 15),
                                       swap=st.booleans(), scalar=st.integers(0, 9),
                                       kind=st.sampled_from(FLOATS))))
  def f(c, e, fn=fn):
    s2 = [1 if c['ones'] >> i & 1 else d for i, d in enumerate(c['shape'])][min(c['cut'], len(c['shape'])):]
    a, A = e.t(c['shape'])
    if c['scalar'] == 0:
      v = -1.5
      if c['swap']:
        return getattr(e.b, name)(v, a), fn(A.dtype.type(v), A)
      return getattr(e.b, name)(a, v), fn(A, A.dtype.type(v))
    b, B = e.t(s2)
    if c['swap']:
      a, A, b, B = b, B, a, A
    return getattr(e.b, name)(a, b), fn(A, B)
  return f


binary('addition', np.add)
binary('subtraction', np.subtract)
binary('multiply', np.multiply)
binary('divide', np.divide)


@op('power', st.fixed_dictionaries(dict(shape=shapes(0, 4), cut=st.integers(0, 4), scalar=st.integers(0, 2),
                                        ex=st.sampled_from([0.5, 2, -1.0, 0, 3]), kind=st.sampled_from(['real', 'f32']))))
def f_power(c, e):
  a, A = e.t(c['shape'], f=lambda x: np.abs(x) + 0.1)
  if c['scalar'] == 0:
    return e.b.power(a, c['ex']), np.exp(c['ex'] * np.log(A)).astype(A.dtype)
  b, B = e.t(c['shape'][min(c['cut'], len(c['shape'])):])
  return e.b.power(a, b), np.exp(B * np.log(A)).astype(A.dtype)


@op('broadcast', st.fixed_dictionaries(dict(shape=shapes(1, 4), left=st.booleans(), bad=st.integers(0, 5),
                                            kind=st.sampled_from(FLOATS))))
def f_broadcast(c, e):
  t, A = e.t(c['shape'])
  if c['left']:
    v, V = e.t(c['shape'][:1])
    if c['bad'] == 0:
      w, _ = e.t(c['shape'][:1] + [1])
      e.ctx.raises(ValueError, lambda: e.b.broadcast_left_multiplication(w, t), 'matrix as left factor')
    return e.b.broadcast_left_multiplication(v, t), V.reshape([-1] + [1] * (A.ndim - 1)) * A
  v, V = e.t(c['shape'][-1:])
  if c['bad'] == 0:
    w, _ = e.t([1] + c['shape'][-1:])
    e.ctx.raises(ValueError, lambda: e.b.broadcast_right_multiplication(t, w), 'matrix as right factor')
  return e.b.broadcast_right_multiplication(t, v), A * V


@op('index_update', st.fixed_dictionaries(dict(shape=shapes(1, 3), scal=st.booleans(), kind=st.sampled_from(FLOATS))))
def f_index(c, e):
  t, A = e.t(c['shape'])
  m = arr(c['shape'], c['seed'] + 50, 'real') > 0
  mask = e.wrap(m)
  val = A.dtype.type(2.5)
  v = e.wrap(np.asarray(val)) if c['scal'] else 2.5
  return e.b.index_update(t, mask, v), np.where(m, val, A)


# -- reductions and diagonals -------------------------------------------------
@op('sum', st.fixed_dictionaries(dict(shape=shapes(0, 4), ax=st.integers(0, 15), neg=st.integers(0, 15),
                                      form=st.integers(0, 5), keep=st.integers(0, 2), kind=st.sampled_from(FLOATS))))
def f_sum(c, e):
  t, A = e.t(c['shape'])
  kw = {} if c['keep'] == 0 else {'keepdims': c['keep'] == 1}
  axes = [i for i in range(A.ndim) if c['ax'] >> i & 1]
  if c['form'] == 0:
    e.ctx.label('default axis')
    return e.b.sum(t, **kw), np.asarray(np.sum(A, **kw))
  if c['form'] == 1:
    return e.b.sum(t, axis=None, **kw), np.asarray(np.sum(A, **kw))
  want = A
  for i in sorted(axes, reverse=True):
    want = np.add.reduce(want, axis=i, keepdims=c['keep'] == 1)
  axes = [i - A.ndim if c['neg'] >> i & 1 else i for i in axes]
  return e.b.sum(t, axis=tuple(axes) if c['form'] % 2 else list(axes), **kw), np.asarray(want)


@st.composite
def g_diag(draw):
  r = draw(st.integers(2, 5))
  return dict(shape=draw(shapes(r, r)), ax=draw(st.integers(0, 99)), neg=draw(st.integers(0, 3)),
              form=draw(st.integers(0, 3)), offset=draw(st.integers(-3, 3)), square=draw(st.booleans()),
              kind=draw(st.sampled_from(FLOATS)))


def diag_args(c):
  shape = list(c['shape'])
  r = len(shape)
  if c['form'] in (0, 1):
    i, j = r - 2, r - 1
  else:
    i = c['ax'] % r
    j = (i + 1 + c['ax'] // r % (r - 1)) % r
  if c['square']:
    shape[j] = shape[i]
  off = c['offset'] if c['form'] % 2 else 0
  if not -shape[i] < off < shape[j]:
    off = 0
  return shape, i, j, off


def diag_ref(A, i, j, off):
  B = np.moveaxis(A, (i, j), (-2, -1))
  n, m = B.shape[-2:]
  idx = [(x, x + off) for x in range(n) if 0 <= x + off < m]
  return np.stack([B[..., x, y] for x, y in idx], axis=-1)


def diag_call(fn, c, t, r, i, j, off, label):
  kw = {}
  if c['form'] in (1, 3):
    kw['offset'] = off
  if c['form'] in (2, 3):
    kw['axis1'] = i - r if c['neg'] & 1 else i
    kw['axis2'] = j - r if c['neg'] & 2 else j
    if c['neg']:
      label('negative axis')
  return fn(t, **kw)


@op('diagonal', g_diag())
def f_diagonal(c, e):
  shape, i, j, off = diag_args(c)
  t, A = e.t(shape)
  try:
    got = diag_call(e.b.diagonal, c, t, A.ndim, i, j, off, e.ctx.label)
  except NotImplementedError:
    if c['backend'] == 'tensorflow' and (c['form'] >= 2):
      return None
    raise
  return got, diag_ref(A, i, j, off)


@op('trace', g_diag())
def f_trace(c, e):
  shape, i, j, off = diag_args(c)
  if c['backend'] == 'tensorflow' and shape[i] != shape[j]:
    raise Skip('tf')
  t, A = e.t(shape)
  try:
    got = diag_call(e.b.trace, c, t, A.ndim, i, j, off, e.ctx.label)
  except NotImplementedError:
    if c['backend'] == 'tensorflow' and off != 0:
      return None
    raise
  return got, diag_ref(A, i, j, off).sum(-1)


@op('diagflat', st.fixed_dictionaries(dict(shape=shapes(0, 3), k=st.integers(-3, 3), form=st.booleans(),
                                           kind=st.sampled_from(FLOATS))))
def f_diagflat(c, e):
  t, A = e.t(c['shape'])
  k = c['k'] if c['form'] else 0
  n = A.size + abs(k)
  want = np.zeros((n, n), A.dtype)
  for x, v in enumerate(A.ravel()):
    want[x + max(-k, 0), x + max(k, 0)] = v
  return (e.b.diagflat(t, k=k) if c['form'] else e.b.diagflat(t)), want


# -- matrix functions -----------------------------------------------------------
sq = st.fixed_dictionaries(dict(n=st.integers(1, 5), bad=st.integers(0, 9), kind=st.sampled_from(FLOATS)))


@op('inv', sq)
def f_inv(c, e):
  t, A = e.t([c['n'], c['n']], f=lambda a: a + 4 * np.eye(c['n']) * (1 + np.abs(a).max()))
  if c['bad'] == 0:
    w, _ = e.t([2, 2, 2])
    e.ctx.raises(ValueError, lambda: e.b.inv(w), 'inv of a rank-3 tensor')
  got = e.b.inv(t)
  e.ctx.close(np.asarray(got) @ A, np.eye(c['n']), 'inverse times matrix', tol=e.eps * 10)
  return got, np.linalg.solve(A, np.eye(c['n'], dtype=A.dtype))


@op('expm', sq)
def f_expm(c, e):
  t, A = e.t([c['n'], c['n']])
  if c['bad'] < 3:
    for s in ([2], [2, 2, 2], [2, 3]):
      w, _ = e.t(s)
      e.ctx.raises(ValueError, lambda: e.b.expm(w), 'expm of shape %s' % s)
  M = A.astype(complex) / 64
  X = np.eye(c['n']) + 0j
  term = X
  for k in range(1, 20):
    term = term @ M / k
    X = X + term
  for _ in range(6):
    X = X @ X
  if not np.iscomplexobj(A):
    X = X.real
  return e.b.expm(t), X.astype(A.dtype)


@op('eigh', st.fixed_dictionaries(dict(n=st.integers(1, 5), deg=st.booleans(), kind=st.sampled_from(FLOATS))))
def f_eigh(c, e):
  n = c['n']
  def herm(a):
    h = a + a.conj().T
    if c['deg']:
      q = np.linalg.qr(a)[0]
      h = (q * np.round(arr((n,), c['seed'], 'real'))) @ q.conj().T
    return h
  t, A = e.t([n, n], f=herm)
  w, v = e.b.eigh(t)
  W, V = np.asarray(w), np.asarray(v)
  e.ctx.equal((W.shape, V.shape), ((n,), (n, n)), 'shapes of eigh')
  e.ctx.check(np.all(np.diff(W.real) >= -1e-4), 'eigenvalues ascending')
  e.ctx.close(V.conj().T @ V, np.eye(n), 'eigenvectors orthonormal', tol=e.eps)
  e.ctx.close((V * W) @ V.conj().T, A, 'eigh reconstructs', tol=e.eps * 10)
  e.ctx.check(V.dtype == A.dtype, 'eigenvector dtype {}', V.dtype)
  return None


# -- creation, items ------------------------------------------------------------
def mk_dtype(c, kind):
  d = {'real': 'float64', 'complex': 'complex128', 'f32': 'float32', 'c64': 'complex64'}[kind]
  if c['backend'] == 'tensorflow':
    import tensorflow as tf
    return getattr(tf, d), np.dtype(d)
  return (getattr(np, d) if c['form'] % 2 else np.dtype(d)), np.dtype(d)


@op('create', st.fixed_dictionaries(dict(what=st.integers(0, 2), shape=shapes(0, 4), N=dim,
                                         M=st.one_of(st.none(), dim), form=st.integers(0, 3),
                                         kind=st.sampled_from(FLOATS))))
def f_create(c, e):
  d, nd = mk_dtype(c, c['kind'])
  kw = {'dtype': d}
  if c['form'] == 0:
    kw, nd = {}, np.dtype('float64')
  if c['what'] == 0:
    if c['M'] is not None or c['form'] == 2:
      kw['M'] = c['M']
    M = c['N'] if c['M'] is None else c['M']
    return e.b.eye(c['N'], **kw), np.array([[1 if i == j else 0 for j in range(M)] for i in range(c['N'])], nd)
  return [None, e.b.ones, e.b.zeros][c['what']](tuple(c['shape']), **kw), \
      np.full(c['shape'], [None, 1, 0][c['what']], nd)


@op('convert', st.fixed_dictionaries(dict(shape=shapes(0, 4), form=st.integers(0, 3), kind=st.sampled_from(ANY))))
def f_convert(c, e):
  A = arr(c['shape'], c['seed'], c['kind'])
  if c['form'] == 0 and c['backend'] != 'tensorflow':
    e.ctx.raises(TypeError, lambda: e.b.convert_to_tensor([[1.0, 2.0]]), 'conversion of a list')
    e.ctx.close(np.asarray(e.b.convert_to_tensor(2.5)), np.array(2.5), 'conversion of a scalar')
  t = e.b.convert_to_tensor(A.copy())
  if c['form'] == 1:
    t = e.b.convert_to_tensor(t)
  return t, A


@op('item', st.fixed_dictionaries(dict(rank=st.integers(0, 3), bad=st.integers(0, 4), kind=st.sampled_from(FLOATS))))
def f_item(c, e):
  t, A = e.t([1] * c['rank'])
  if c['bad'] == 0:
    w, _ = e.t([2])
    e.ctx.raises((ValueError, TypeError), lambda: e.b.item(w), 'item of a longer tensor')
  got = e.b.item(t)
  e.ctx.equal(np.asarray(got).shape, (), 'item is a scalar')
  e.ctx.check(complex(np.asarray(got)) == complex(A.ravel()[0]), 'item value')
  return None


@op('eps', st.fixed_dictionaries(dict(kind=st.sampled_from(['real', 'f32']))))
def f_eps(c, e):
  d = np.float64 if c['kind'] == 'real' else np.float32
  got = float(e.b.eps(d))
  e.ctx.equal(got, 2.0 ** -52 if c['kind'] == 'real' else 2.0 ** -23, 'eps')
  return None


@op('jit', st.fixed_dictionaries(dict(shape=shapes(0, 3), static=st.booleans(), kind=st.sampled_from(FLOATS))))
def f_jit(c, e):
  t, A = e.t(c['shape'])
  if c['static']:
    f = e.b.jit(lambda x, n: x * n + x, static_argnums=(1,))
    return f(t, 3), (A * 3 + A)
  return e.b.jit(lambda x: x * x + x)(t), A * A + A


def strategy(backend):
  names = sorted(OPS)

  @st.composite
  def s(draw):
    name = draw(st.sampled_from(names))
    case = draw(OPS[name][0])
    case = dict(case)
    case.update(op=name, seed=draw(seeds), layout=draw(st.integers(0, 2)), backend=backend)
    return case
  return s


def run(case, ctx):
  e = Env(case, ctx)
  ctx.label(case['op'])
  r = OPS[case['op']][1](case, e)
  ctx.nontrivial(any(a.size >= 2 for _, a in e.used) or (not e.used and r is not None and np.size(r[1]) >= 2))
  if r is not None:
    # TensorFlow keeps complex norms in the (complex) input dtype, by its promotion rules.
    e.same(r[0], r[1], case['op'], dtype=not (case['op'] == 'norm' and case['backend'] == 'tensorflow'))
  e.finish()


@st.composite
def g_td2(draw):
  c = draw(g_tensordot())
  c.update(seed=draw(seeds), backend='tensorflow', layout=0, form=draw(st.sampled_from([0, 1, 2, 2])),
           unk=draw(st.one_of(st.integers(0, 2 ** 12 - 1), st.sampled_from([63, 4032, 4095]))))
  return c


def run_td2(case, ctx):
  """tensordot2.tensordot, the package's own TensorFlow tensordot."""
  import tensorflow as tf
  from tensornetwork.backends.tensorflow import tensordot2

  def spec(x, bits):
    # any subset of the dimensions, or even the rank, is unknown when tracing
    if bits == 63:
      return tf.TensorSpec(None, x.dtype)
    return tf.TensorSpec([None if bits >> i & 1 else d for i, d in enumerate(x.shape)], x.dtype)

  class B:
    @staticmethod
    def tensordot(a, b, axes):
      if case['form'] == 1 and not isinstance(axes, int):
        axes = tf.constant([list(x) for x in axes], dtype=tf.int32) if len(axes[0]) else axes
      if case['form'] == 2:
        return tf.function(lambda x, y: tensordot2.tensordot(tf, x, y, axes),
                           input_signature=[spec(a, case['unk']), spec(b, case['unk'] >> 6)])(a, b)
      return tensordot2.tensordot(tf, a, b, axes)
    convert_to_tensor = staticmethod(tf.convert_to_tensor)
  e = Env(case, ctx)
  e.b = B
  r = f_tensordot(case, e)
  ctx.nontrivial(any(a.size >= 2 for _, a in e.used))
  ctx.label('form%d' % case['form'])
  e.same(r[0], r[1], 'tensordot2')
  e.finish()


def jax64():
  import jax
  jax.config.update('jax_enable_x64', True)


PARTS = [
    Part('numpy', strategy('numpy'), run, 24000, 300000),
    Part('tensorflow', strategy('tensorflow'), run, 6000, 60000),
    Part('jax', strategy('jax'), run, 3000, 30000, setup=jax64),
    Part('tensordot2', lambda: g_td2(), run_td2, 800, 6000),
]
