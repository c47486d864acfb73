"""C22: tensor-network Keras layers against the dense weight of their factors."""
import math
import numpy as np
from hypothesis import strategies as st
import tensorflow as tf
from tensornetwork.tn_keras.layers import (DenseDecomp, DenseMPO, Conv2DMPO, DenseCondenser, DenseExpander, DenseEntangler)
from vt.core import Part, Skip
from vt.gens import pick, seeds

ID = 'C22'
RULE = ('Random layers of all six types (sizes, numbers of nodes, bond dimensions, activations, biases, initialisers, strides, paddings, '
        'dilations, data formats, dtypes) with random weights on random batches of any rank, called eagerly, in a tf.function, in '
        'sequential and functional models with unknown dimensions: outputs, gradients and shapes against the dense weight contracted '
        'with NumPy; each sample alone; configuration and weight round trips; sizes that do not fit must be rejected. Non-trivial: at '
        'least two output values that are not all equal.')
ASSUMPTIONS = ['samples: at least one', 'channels-first convolutions run where TensorFlow has a kernel for them (otherwise skipped)']

ACTS = [None, 'relu', 'linear', 'tanh', 'sigmoid', 'softmax', 'elu', 'softplus']


def act(name, x):
  if name in (None, 'linear'):
    return x
  if name == 'relu':
    return np.maximum(x, 0)
  if name == 'tanh':
    return np.tanh(x)
  if name == 'sigmoid':
    return 1 / (1 + np.exp(-x))
  if name == 'elu':
    return np.where(x > 0, x, np.expm1(np.minimum(x, 0)))
  if name == 'softplus':
    return np.logaddexp(x, 0)
  e = np.exp(x - x.max(axis=-1, keepdims=True))
  return e / e.sum(axis=-1, keepdims=True)


class Built:
  pass


def common(case, dtype):
  kw = dict(activation=pick(ACTS, case['act']), use_bias=bool(case['bias'] % 3), dtype=dtype)
  if case['bias'] % 4 == 3:
    kw.update(bias_initializer='random_normal')
  if case['seed'] % 5 == 1:
    kw.update(kernel_initializer='random_normal', name='layer_x')
  if case['bias'] % 3 == 1 and case['act'] % 2:
    del kw['use_bias']         # the default
  if kw['activation'] is None and case['seed'] % 2:
    del kw['activation']
  return kw


def make(case, dtype):
  """(layer class, arguments, input dim, output dim, number of factors, dense-weight function)."""
  rng = np.random.default_rng(case['seed'])
  i, j, k = case['i'], case['j'], case['k']
  kind = case['layer']
  if kind == 'decomp':
    din, dout, m = 1 + i % 9, 1 + j % 9, 1 + k % 5
    args = dict(output_dim=dout, decomp_size=m)
    shapes = [(din, m), (m, dout)]
    dense = lambda w: w[0] @ w[1]
  elif kind == 'mpo':
    n = 3 + k % 3
    a, b = [(2, 2), (1, 2), (2, 1), (3, 2), (2, 3), (3, 3), (1, 1), (4, 2), (5, 1), (2, 2), (6, 1), (1, 5)][i % 12]
    while max(a, b)**n > 3200:
      n -= 1
    D = 1 + j % 4
    din, dout = a**n, b**n
    args = dict(output_dim=dout, num_nodes=n, bond_dim=D)
    shapes = [(a, D, b)] + [(a, D, D, b)] * (n - 2) + [(a, D, b)]

    def dense(w):
      t = w[0].transpose(0, 2, 1)                    # in, out, bond
      for x in w[1:-1]:
        t = np.einsum('iob,jbcp->ijopc', t, x).reshape(t.shape[0] * x.shape[0], t.shape[1] * x.shape[3], x.shape[2])
      x = w[-1]
      return np.einsum('iob,jbp->ijop', t, x).reshape(t.shape[0] * x.shape[0], t.shape[1] * x.shape[2])
  elif kind == 'expander':
    din, e, n = 1 + i % 5, 1 + j % 3, 1 + k % 4
    dout = din * e**n
    args = dict(exp_base=e, num_nodes=n)
    shapes = [(din, e, din)] * n

    def dense(w):
      t = np.eye(din).reshape(din, 1, din)           # in, expanded, operating
      for x in w:
        t = np.einsum('ikd,def->ikef', t, x).reshape(din, -1, din)
      return t.reshape(din, -1)
  elif kind == 'condenser':
    dout, e, n = 1 + i % 5, 1 + j % 3, 1 + k % 4
    din = dout * e**n
    args = dict(exp_base=e, num_nodes=n)
    shapes = [(dout, e, dout)] * n

    def dense(w):
      t = np.eye(din).reshape((din,) + (e,) * n + (dout,))
      for x in w:
        t = np.tensordot(t, x, ([t.ndim - 1, t.ndim - 2], [0, 1]))
      return t.reshape(din, dout)
  elif kind == 'entangler':
    n = 2 + k % 3
    a, b = [(2, 2), (2, 2), (3, 3), (1, 1), (3, 2), (2, 3), (4, 4), (1, 2)][i % 8]
    while max(a, b)**n > 260:
      n -= 1
    levels = 1 + j % 3
    din, dout = a**n, b**n
    args = dict(output_dim=dout, num_legs=n, num_levels=levels)
    num = levels * (n - 1)
    shapes = []
    for x in range(num):
      m = min(a, b)
      level = x // (n - 1)
      shapes.append((a if x == 0 else m, a if level == 0 else m, b if level == levels - 1 else m, b if x == num - 1 else m))

    def dense(w):
      # legs of the state, each tensor acts on the next pair
      t = np.eye(din).reshape((din,) + (a,) * n)
      where = list(range(n))                # where[leg] = axis of t, after the first
      for x, v in enumerate(w):
        p, q = x % n, (x + 1) % n
        ax = [1 + where[p], 1 + where[q]]
        t = np.tensordot(t, v, (ax, [0, 1]))
        left = [l for l in sorted(range(n), key=lambda l: where[l]) if l not in (p, q)]
        where = [0] * n
        for pos, l in enumerate(left + [p, q]):
          where[l] = pos
      return t.reshape(din, -1)
  else:
    raise AssertionError(kind)
  cls = dict(decomp=DenseDecomp, mpo=DenseMPO, expander=DenseExpander, condenser=DenseCondenser, entangler=DenseEntangler)[kind]
  del rng
  return cls, args, din, dout, shapes, dense


def set_weights(layer, shapes, dout, ctx, rng, what, dtype, bias):
  """Random weights; the created ones must have the right shapes."""
  ws = layer.get_weights()
  want = list(shapes) + ([(dout,)] if bias else [])
  ctx.equal([tuple(w.shape) for w in ws], [tuple(s) for s in want], what + ': shapes of the weights')
  ctx.equal(len(layer.trainable_weights), len(want), what + ': trainable weights')
  ctx.equal(set(w.dtype.name for w in layer.weights), {dtype}, what + ': dtype of the weights')
  new = [(rng.normal(size=s) / max(1., np.sqrt(math.prod(s[:-1])) ** 0.5)).astype(dtype) for s in want]
  layer.set_weights(new)
  return new


def run_dense(case, ctx):
  dtype = ['float64', 'float32', 'float64'][case['seed'] % 3]
  tol = 1e-8 if dtype == 'float64' else 2e-4
  rng = np.random.default_rng(case['seed'])
  tf.random.set_seed(1)
  cls, args, din, dout, shapes, dense = make(case, dtype)
  kw = common(case, dtype)
  name = kw.get('activation')
  bias = kw.get('use_bias', True)
  what = '%s(%s)' % (cls.__name__, ', '.join('%s=%s' % x for x in sorted({**args, **kw}.items())))
  mode = case['mode'] % 6
  lead = [int(x) for x in rng.integers(1, 4, 1 + case['rank'] % 3)]
  layer = cls(**args, **kw)
  x = rng.normal(size=lead + [din]).astype('float32').astype(dtype)     # (predict feeds single precision)
  ctx.label(case['layer'], 'mode %d' % mode, 'rank %d' % (len(lead) + 1))
  model = None
  if mode == 0:
    call = lambda v: layer(tf.constant(v))
  elif mode == 1:
    f = tf.function(lambda v: layer(v))
    call = lambda v: f(tf.constant(v))
  elif mode == 2:
    model = tf.keras.Sequential([layer])
    call = lambda v: model(tf.constant(v))
  elif mode == 3:
    inp = tf.keras.Input(shape=tuple(lead[1:]) + (din,), dtype=dtype)
    model = tf.keras.Model(inp, layer(inp))
    ctx.equal(tuple(model.output_shape), (None,) + tuple(lead[1:]) + (dout,), what + ': symbolic output shape')
    call = lambda v: model.predict(v, verbose=0)
  elif mode == 4:
    inp = tf.keras.Input(shape=(None,) * (len(lead) - 1) + (din,), dtype=dtype)     # unknown middle dimensions
    model = tf.keras.Model(inp, layer(inp))
    call = lambda v: model(tf.constant(v))
    ctx.label('unknown dimensions')
  else:
    if len(lead) == 1 and case['seed'] % 2:
      layer = cls(**args, **kw, input_dim=din)
    else:
      layer = cls(**args, **kw, input_shape=tuple(lead[1:]) + (din,))
    model = tf.keras.Sequential([layer])
    ctx.equal(tuple(model.output_shape), (None,) + tuple(lead[1:]) + (dout,), what + ': symbolic output shape')
    call = lambda v: model(tf.constant(v))
  if not layer.built:
    call(x)
  w = set_weights(layer, shapes, dout, ctx, rng, what, dtype, bias)
  W = dense([v.astype(np.float64) for v in w[:len(shapes)]])
  b = w[-1].astype(np.float64) if bias else np.zeros(dout)
  pre = x.astype(np.float64) @ W + b
  want = act(name, pre)
  got = np.array(call(x))
  ctx.equal(got.dtype.name, dtype, what + ': dtype')
  ctx.equal(got.shape, tuple(lead) + (dout,), what + ': shape')
  ctx.close(got, want, what + ': value', tol, max(1., np.abs(pre).max()))
  ctx.nontrivial(want.size > 1 and np.ptp(want) > 1e-6)
  ctx.equal(tuple(layer.compute_output_shape(tuple(lead) + (din,))), tuple(lead) + (dout,), what + ': compute_output_shape')
  ctx.equal(tuple(layer.compute_output_shape((None,) + tuple(lead[1:]) + (din,))), (None,) + tuple(lead[1:]) + (dout,),
            what + ': compute_output_shape')
  # one sample at a time
  k = int(rng.integers(0, lead[0]))
  ctx.close(np.array(call(x[k:k + 1])), got[k:k + 1], what + ': sample %d alone' % k, tol, max(1., np.abs(pre).max()))
  # configuration
  conf = layer.get_config()
  for key, v in args.items():
    ctx.equal(conf[key], v, what + ': configuration of ' + key)
  twin = cls.from_config(conf)
  ctx.equal(twin.name, layer.name, what + ': name of the rebuilt layer')
  twin(tf.constant(x))
  twin.set_weights(layer.get_weights())
  ctx.close(np.array(twin(tf.constant(x))), want, what + ': rebuilt from its configuration', tol, max(1., np.abs(pre).max()))
  ctx.equal(_conf(twin), _conf(layer), what + ': configuration of the rebuilt layer')
  if model is not None and case['seed'] % 4 == 1 and model.built:
    other = tf.keras.models.model_from_json(model.to_json(), custom_objects={cls.__name__: cls})
    other(tf.constant(x))
    other.set_weights(model.get_weights())
    ctx.close(np.array(other(tf.constant(x))), want, what + ': model rebuilt from JSON', tol, max(1., np.abs(pre).max()))
    ctx.label('json')
  # gradients of a random functional
  if name in (None, 'linear') and case['seed'] % 2:
    c = rng.normal(size=got.shape).astype(dtype)
    v = tf.constant(x)
    with tf.GradientTape() as tape:
      tape.watch(v)
      y = tf.reduce_sum(layer(v) * c)
    g = tape.gradient(y, [v] + list(layer.trainable_weights))
    ctx.check(all(t is not None for t in g), '{}: a weight has no gradient', what)
    ctx.close(np.array(g[0]), c.astype(np.float64) @ W.T, what + ': gradient of the input', tol, max(1., np.abs(W).max() * 10))
    # the layer is linear in each factor: <grad, factor> is the value without bias
    lin = float(np.sum(c * (pre - b)))
    for n in range(len(shapes)):
      ctx.close(float(np.sum(np.array(g[1 + n]).astype(np.float64) * w[n])), lin, '%s: gradient of factor %d' % (what, n), 10 * tol,
                max(1., np.abs(c).sum() * np.abs(pre).max()))
    if bias:
      ctx.close(np.array(g[-1]), c.reshape(-1, dout).sum(axis=0), what + ': gradient of the bias', 10 * tol, c.size)
    ctx.label('gradients')


def _conf(layer):
  return {k: (v if not isinstance(v, (list, tuple)) else list(v)) for k, v in layer.get_config().items()}


def conv_ref(x, K, strides, padding, dil):
  """NHWC correlation with TensorFlow's padding rule."""
  n, h, w, cin = x.shape
  kh, kw, _, cout = K.shape
  eh, ew = (kh - 1) * dil[0] + 1, (kw - 1) * dil[1] + 1
  if padding == 'same':
    oh, ow = -(-h // strides[0]), -(-w // strides[1])
    ph = max((oh - 1) * strides[0] + eh - h, 0)
    pw = max((ow - 1) * strides[1] + ew - w, 0)
    x = np.pad(x, ((0, 0), (ph // 2, ph - ph // 2), (pw // 2, pw - pw // 2), (0, 0)))
  else:
    oh, ow = -(-(h - eh + 1) // strides[0]), -(-(w - ew + 1) // strides[1])
  out = np.zeros((n, oh, ow, cout))
  for a in range(oh):
    for b in range(ow):
      patch = x[:, a * strides[0]:a * strides[0] + eh:dil[0], b * strides[1]:b * strides[1] + ew:dil[1], :]
      out[:, a, b, :] = np.tensordot(patch, K, ([1, 2, 3], [0, 1, 2]))
  return out


def run_conv(case, ctx):
  dtype = ['float64', 'float32', 'float64'][case['seed'] % 3]
  tol = 1e-8 if dtype == 'float64' else 2e-4
  rng = np.random.default_rng(case['seed'])
  i, j, k = case['i'], case['j'], case['k']
  n = 2 + k % 4
  a, b = [(2, 2), (1, 2), (2, 1), (3, 2), (2, 3), (1, 1), (2, 2), (3, 3), (4, 1), (3, 1), (5, 1)][i % 11]
  while max(a, b)**n > (260 if min(a, b) > 1 else 3200):
    n -= 1
  D = 1 + j % 3
  cin, cout = a**n, b**n
  ks = pick([3, (2, 3), 1, (1, 2), 2, (3, 1)], case['rank'])
  kt = (ks, ks) if isinstance(ks, int) else ks
  stride, dil = pick([(1, 1), (2, 1), ((1, 2), 1), (1, 2), (1, (2, 1)), ((2, 3), (1, 1)), (3, 1)], case['mode'])
  if np.prod(stride) != 1 and np.prod(dil) != 1:
    dil = 1
  padding = ['same', 'valid'][j // 3 % 2]
  st2 = (stride, stride) if isinstance(stride, int) else stride
  d2 = (dil, dil) if isinstance(dil, int) else dil
  h, w = int(rng.integers(5, 8)), int(rng.integers(5, 8))
  first = case['first'] % 4 == 3
  if first and case['seed'] % 2:
    w = cout + (kt[1] - 1) * (padding == 'valid') if cout < 9 and np.prod(st2) == 1 and np.prod(d2) == 1 else w
  kw = common(case, dtype)
  args = dict(filters=cout, kernel_size=ks, num_nodes=n, bond_dim=D)
  opt = dict(strides=stride, padding=padding, dilation_rate=dil)
  if first:
    opt['data_format'] = 'channels_first'
  if padding == 'same' and case['seed'] % 2:
    del opt['padding']
  if case['seed'] % 7 == 1:
    opt.update(kernel_regularizer='l2', bias_regularizer='l1')
  name = kw.get('activation')
  bias = kw.get('use_bias', True)
  layer = Conv2DMPO(**args, **opt, **kw)
  what = 'Conv2DMPO(%s)' % ', '.join('%s=%s' % x for x in sorted({**args, **opt, **kw}.items()))
  ctx.label('conv', padding, 'channels first' if first else 'channels last')
  nb = int(rng.integers(1, 4))
  x = rng.normal(size=(nb, h, w, cin)).astype(dtype)
  arg = x.transpose(0, 3, 1, 2) if first else x
  f = tf.function(lambda v: layer(v)) if case['seed'] % 3 == 1 or first else layer
  call = lambda v: np.array(f(tf.constant(v)))
  try:
    call(arg)
  except (tf.errors.InvalidArgumentError, tf.errors.UnimplementedError) as e:
    if first and ('NHWC' in str(e) or 'NCHW' in str(e)):
      raise Skip('no kernel for channels first')
    raise
  shapes = [(a, kt[0], D, b)] + [(a, D, D, b)] * (n - 2) + [(a, D, kt[1], b)]
  ws = set_weights(layer, shapes, cout, ctx, rng, what, dtype, bias)
  v = [z.astype(np.float64) for z in ws]
  t = v[0].transpose(0, 1, 3, 2)     # in, kh, out, bond
  for z in v[1:n - 1]:
    t = np.einsum('ihob,jbcp->ijhopc', t, z).reshape(t.shape[0] * a, kt[0], t.shape[2] * b, D)
  K = np.einsum('ihob,jbwp->hwijop', t, v[n - 1]).reshape(kt[0], kt[1], cin, cout)
  pre = conv_ref(x.astype(np.float64), K, st2, padding, d2) + (v[-1] if bias else 0)
  want = act(name, pre)
  if first:
    pre, want = pre.transpose(0, 3, 1, 2), act(name, pre.transpose(0, 3, 1, 2))
  got = call(arg)
  scale = max(1., np.abs(pre).max()) if pre.size else 1.
  ctx.equal(got.shape, want.shape, what + ': shape')
  ctx.equal(got.dtype.name, dtype, what + ': dtype')
  ctx.close(got, want, what + ': value', tol, scale)
  ctx.nontrivial(want.size > 1 and np.ptp(want) > 1e-6)
  ctx.equal(tuple(layer.compute_output_shape(arg.shape)), want.shape, what + ': compute_output_shape')
  ctx.close(call(arg[-1:]), got[-1:], what + ': last sample alone', tol, scale)
  conf = layer.get_config()
  twin = Conv2DMPO.from_config(conf)
  g = tf.function(lambda q: twin(q)) if first else twin
  g(tf.constant(arg))
  twin.set_weights(layer.get_weights())
  ctx.close(np.array(g(tf.constant(arg))), want, what + ': rebuilt from its configuration', tol, scale)
  c1, c2 = _conf(twin), _conf(layer)
  for c in (c1, c2):
    c['use_bias'] = bool(c['use_bias'])
  ctx.equal(c1, c2, what + ': configuration of the rebuilt layer')
  if 'kernel_regularizer' in opt:
    loss = sum(0.01 * np.sum(z**2) for z in v[:n]) + (0.01 * np.sum(np.abs(v[-1])) if bias else 0)
    ctx.close(float(sum(layer.losses)), loss, what + ': regularisation losses', 1e-5, max(1., loss))


def run_reject(case, ctx):
  ctx.nontrivial()
  i, k = case['i'], case['k'] % 12
  ctx.label('kind %d' % k)
  x = lambda *s: tf.zeros(s)
  if k == 0:
    ctx.raises(AssertionError, lambda: DenseMPO(8, num_nodes=i % 3, bond_dim=2), 'too few nodes')
  elif k == 1:
    ctx.raises(AssertionError, lambda: DenseMPO(8, num_nodes=3, bond_dim=2)(x(1, 9 + i % 15)), 'input that is no power')
  elif k == 2:
    ctx.raises(AssertionError, lambda: DenseMPO(9 + i % 15, num_nodes=3, bond_dim=2)(x(1, 8)), 'output that is no power')
  elif k == 3:
    ctx.raises(ValueError, lambda: Conv2DMPO(4, 3, num_nodes=i % 2, bond_dim=2), 'too few nodes')
  elif k == 4:
    ctx.raises(ValueError, lambda: Conv2DMPO(4, 3, num_nodes=2, bond_dim=2, padding=['full', 'SAME', ''][i % 3]), 'unknown padding')
  elif k == 5:
    ctx.raises(ValueError, lambda: Conv2DMPO(4, 3, num_nodes=2, bond_dim=2, data_format=['NHWC', '', 'last'][i % 3]), 'unknown format')
  elif k == 6:
    ctx.raises(AssertionError, lambda: Conv2DMPO(4, 3, num_nodes=2, bond_dim=2)(x(1, 4, 4, 5 + i % 4)), 'channels that are no power')
  elif k == 7:
    ctx.raises(AssertionError, lambda: Conv2DMPO(5 + i % 4, 3, num_nodes=2, bond_dim=2)(x(1, 4, 4, 4)), 'filters that are no power')
  elif k == 8:
    ctx.raises(AssertionError, lambda: DenseEntangler(4, num_legs=i % 2, num_levels=1), 'too few legs')
  elif k == 9:
    ctx.raises(AssertionError, lambda: DenseEntangler(4, num_legs=2, num_levels=-(i % 2)), 'too few levels')
  elif k == 10:
    ctx.raises(AssertionError, lambda: DenseEntangler(4, num_legs=2, num_levels=1)(x(1, 5 + i % 4)), 'input that is no power')
  else:
    cls = [lambda: DenseDecomp(3, 2), lambda: DenseMPO(8, 3, 2), lambda: DenseExpander(2, 2), lambda: DenseCondenser(2, 2),
           lambda: DenseEntangler(4, 2, 1)][i % 5]
    ctx.raises(ValueError, lambda: cls()(tf.keras.Input(shape=(None,))), 'unknown last dimension')


u = st.integers(0, 63)
FIELDS = dict(seed=seeds, i=u, j=u, k=u, act=u, bias=u, mode=u, rank=u, first=u)


def dense_strategy():
  return st.fixed_dictionaries(dict(layer=st.sampled_from(['decomp', 'mpo', 'expander', 'condenser', 'entangler']), **FIELDS))


PARTS = [Part('dense', dense_strategy, run_dense, 240, 5000, case_timeout=120),
         Part('conv', lambda: st.fixed_dictionaries(FIELDS), run_conv, 160, 3000, case_timeout=120),
         Part('reject', lambda: st.fixed_dictionaries(FIELDS), run_reject, 64, 400, case_timeout=120)]
