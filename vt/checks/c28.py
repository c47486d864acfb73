"""C28: compiled, differentiated, batched and dynamically sized networks equal eager ones."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import contractors
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.graphmodel import meinsum
from vt.checks import c08
from vt.netgen import build, net_case, perm_of

ID = 'C28'
RULE = ('Random networks of 1-5 nodes contracted by random programs (every contractor, pairwise sequences, '
        'flattening, trace, ncon, node splits, copies) inside jax.jit, jax.vmap, jax.grad, jax.jvp, tn.jit, tf.function with any '
        'subset of the edge dimensions unknown while tracing, and GradientTape; the compiled function is called '
        'with several arguments and, where dimensions are unknown, several sizes. The oracle is the direct '
        'Einstein sum and, for derivatives, its exact change in a random direction. Non-trivial: two '
        'nodes and one inner edge.')
ASSUMPTIONS = ['contractors and ncon plan with the dimensions, which must therefore be known to them',
               'no derivative is taken through decompositions (not unique) and none of truncations']


class Net:
  """Labels and dimensions of a case; tensors(seed, dims) makes arguments for it."""

  def __init__(self, case):
    self.case = case
    b = build(case['net'], real=False)
    self.labels, self.dims = b.labels, dict(b.dims)
    self.n = len(b.labels)
    cnt = {}
    for l in self.labels:
      for k in l:
        cnt[k] = cnt.get(k, 0) + 1
    self.out = [k for k in cnt if cnt[k] == 1]
    self.inner = [k for k in cnt if cnt[k] == 2]
    self.order = perm_of(self.out, case['perm'])
    total = np.prod([float(d) for d in self.dims.values()])
    if total > 5e4 or np.prod([float(self.dims[k]) for k in self.out]) > 500:
      raise Skip('large')
    self.tr = any(len(set(l)) < len(l) for l in self.labels)

  def tensors(self, seed, dims=None):
    dims = dims or self.dims
    return [arr([dims[k] for k in l], seed + 31 * i, self.case['net']['kind']) for i, l in enumerate(self.labels)]

  def value(self, ts):
    return meinsum(list(zip(ts, self.labels)), self.order)


def connect_all(net, ts, be):
  nodes = [tn.Node(t, backend=be) for t in ts]
  ends = {}
  for i, l in enumerate(net.labels):
    for ax, k in enumerate(l):
      ends.setdefault(k, []).append((i, ax))
  edges = {}
  for k, e in ends.items():
    if len(e) == 1:
      edges[k] = nodes[e[0][0]][e[0][1]]
    else:
      (i, a), (j, b) = e
      edges[k] = nodes[i][a] ^ nodes[j][b]
  return nodes, edges


def final_order(net, node, edges):
  if len(net.order) > 0:
    node = node.reorder_edges([edges[k] for k in net.order])
  return node.tensor


def pairwise(net, nodes, edges, steps, flat):
  """Contracts pairs of nodes until one is left."""
  live = list(nodes)
  s = 0
  for q in range(len(live)):
    if any(e.is_trace() for e in live[q].edges):
      if flat and len({id(e) for e in live[q].edges if e.is_trace()}) > 1:
        live[q] = tn.contract(tn.flatten_edges_between(live[q], live[q]))
      else:
        live[q] = tn.contract_trace_edges(live[q])
  while len(live) > 1:
    k = steps[s % len(steps)]
    s += 1
    i, j = perm_of(range(len(live)), k)[:2]
    x, y = live[i], live[j]
    shared = tn.get_shared_edges(x, y)
    form = (k // 97) % 4
    if not shared:
      z = tn.outer_product(x, y) if form % 2 else tn.contract_between(x, y, allow_outer_product=True)
    elif form == 0:
      z = x @ y
    elif form == 1 and flat:
      z = tn.contract(tn.flatten_edges_between(x, y))
    elif form == 2:
      z = tn.contract_parallel(sorted(shared, key=lambda e: x.edges.index(e))[0])
    elif form == 3:
      z = tn.contract(sorted(shared, key=lambda e: x.edges.index(e))[0])
      z = tn.contract_trace_edges(z) if any(e.is_trace() for e in z.edges) else z
    else:
      z = tn.contract_between(x, y)
    live = [v for v in live if v is not x and v is not y] + [z]
  return final_order(net, live[0], edges)


PROGS = ['contractor', 'pairwise', 'flatten', 'ncon', 'copy', 'split']


def make(net, prog, be, ctx):
  """The network function: list of tensors -> result tensor."""
  case = net.case
  k = case['k']

  def f(*ts):
    ts = list(ts)
    if prog == 'ncon':
      ids = {e: -1 - net.order.index(e) if e in net.order else i + 1 for i, e in enumerate(net.out + net.inner)}
      return tn.ncon(ts, [[ids[e] for e in l] for l in net.labels], backend=be)
    nodes, edges = connect_all(net, ts, be)
    if prog == 'contractor':
      alg = [contractors.greedy, contractors.auto, contractors.branch, contractors.optimal][k % 4]
      return alg(nodes, output_edge_order=[edges[e] for e in net.order]).tensor
    if prog == 'copy':
      nm, em = tn.copy(nodes, conjugate=False)
      nodes, edges = [nm[x] for x in nodes], {q: em[e] for q, e in edges.items()}
    if prog == 'split':
      i = k % len(nodes)
      x = nodes[i]
      r = len(x.edges)
      if r >= 2 and not any(e.is_trace() for e in x.edges):
        p = perm_of(range(r), k // 5)
        cut = 1 + k // 11 % (r - 1)
        le, re = [x[q] for q in p[:cut]], [x[q] for q in p[cut:]]
        how = k // 13 % 4
        if how == 0:
          a, b, _ = tn.split_node(x, le, re)
          nodes[i:i + 1] = [a, b]
        elif how == 1:
          a, b = tn.split_node_qr(x, le, re)
          nodes[i:i + 1] = [a, b]
        elif how == 2:
          a, b = tn.split_node_rq(x, le, re)
          nodes[i:i + 1] = [b, a]
        else:
          a, s, b, _ = tn.split_node_full_svd(x, le, re)
          nodes[i:i + 1] = [b, s, a]
    return pairwise(net, nodes, edges, case['steps'], prog == 'flatten')
  return f


def loss_change(net, ts, vs, w):
  """d/dt sum(w * value(ts + t vs)) at 0."""
  tot = 0
  for i in range(len(ts)):
    tot = tot + np.sum(w * net.value(ts[:i] + [vs[i]] + ts[i + 1:]))
  return tot


def prog_of(net, case, dynamic=False):
  p = case['prog']
  if dynamic and p in ('contractor', 'ncon'):
    p = 'pairwise'
  return p


def prepare(case, ctx, dynamic=False):
  net = Net(case)
  p = prog_of(net, case, dynamic)
  ctx.label(p)
  ctx.nontrivial(net.n > 1 and bool(net.inner))
  return net, p


def tol(net):
  return 1e-9


def run_jax(case, ctx):
  import jax
  net, p = prepare(case, ctx)
  f = make(net, p, 'jax', ctx)
  ts, us = net.tensors(case['seed']), net.tensors(case['seed'] + 1000)
  mode = case['mode'] % 4
  cplx = case['net']['kind'] == 'cint'
  if p == 'split' and mode in (1, 3):
    mode = 0
  if mode == 0:
    ctx.label('jit')
    g = jax.jit(f) if case['mode'] // 4 % 2 else tn.jit(f, backend='jax')
    for x in (ts, us, ts):
      ctx.close(np.asarray(g(*x)), net.value(x), 'jit ' + p, tol=tol(net))
  elif mode == 1:
    ctx.label('grad')
    w = arr([net.dims[q] for q in net.order], case['seed'] + 7, case['net']['kind'])
    loss = lambda *x: jax.numpy.sum(w * f(*x)).real
    gr = jax.grad(loss, argnums=tuple(range(net.n)))
    if case['mode'] // 4 % 2:
      gr = jax.jit(gr)
    got = gr(*ts)
    vs = net.tensors(case['seed'] + 55)
    tot = sum(np.sum(np.asarray(a) * v).real for a, v in zip(got, vs))
    for a, t in zip(got, ts):
      ctx.equal((tuple(a.shape), str(a.dtype)), (t.shape, str(t.dtype)), 'gradient shape and dtype')
    ctx.close(tot, np.asarray(loss_change(net, ts, vs, w)).real, 'derivative ' + p, tol=tol(net))
    ctx.label('complex' if cplx else 'real')
  elif mode == 2:
    ctx.label('vmap')
    batch = [ts, us, net.tensors(case['seed'] + 2000)]
    on = [bool(case['k'] >> i & 1) for i in range(net.n)]
    if not any(on):
      on[0] = True
    args = [np.stack([x[i] for x in batch]) if on[i] else ts[i] for i in range(net.n)]
    g = jax.vmap(f, in_axes=tuple(0 if o else None for o in on))
    if case['mode'] // 4 % 2:
      g = jax.jit(g)
    got = np.asarray(g(*args))
    want = np.stack([net.value([x[i] if on[i] else ts[i] for i in range(net.n)]) for x in batch])
    ctx.close(got, want, 'vmap ' + p, tol=tol(net))
  else:
    ctx.label('jvp')
    vs = net.tensors(case['seed'] + 55)
    y, dy = jax.jvp(f, tuple(map(jax.numpy.asarray, ts)), tuple(map(jax.numpy.asarray, vs)))
    ctx.close(np.asarray(y), net.value(ts), 'value under jvp ' + p, tol=tol(net))
    want = sum(net.value(ts[:i] + [vs[i]] + ts[i + 1:]) for i in range(net.n))
    ctx.close(np.asarray(dy), want, 'directional derivative ' + p, tol=tol(net))


def run_tf(case, ctx):
  import tensorflow as tf
  dyn = case['mode'] % 4
  net, p = prepare(case, ctx, dyn == 1)
  if any(len(l) > 6 for l in net.labels):
    raise Skip('TensorFlow traces at most rank 6')
  f = make(net, p, 'tensorflow', ctx)
  ts, us = net.tensors(case['seed']), net.tensors(case['seed'] + 1000)
  dt = tf.complex128 if case['net']['kind'] == 'cint' else tf.float64
  if dyn < 2:
    unk = {k for k in net.dims if case['unk'] >> k & 1} if dyn else set()
    ctx.label('dynamic' if unk else 'static', 'tf.function')
    sig = [tf.TensorSpec([None if k in unk else net.dims[k] for k in l], dt) for l in net.labels]
    g = tf.function(f, input_signature=sig, autograph=case['k'] % 3 == 0)
    dims = dict(net.dims)
    for k in unk:
      dims[k] = 1 + (dims[k] + case['k'] + k) % 3
    args = [ts, us]
    if np.prod([float(d) for d in dims.values()]) < 5e4:
      args.append(net.tensors(case['seed'] + 3000, dims))
    for x in args + [ts]:
      ctx.close(np.asarray(g(*x)), net.value(x), 'tf.function ' + p, tol=tol(net))
    return
  if dyn == 3:
    ctx.label('map_fn')
    batch = [ts, us, net.tensors(case['seed'] + 2000)]
    args = [tf.constant(np.stack([x[i] for x in batch])) for i in range(net.n)]
    mapper = tf.vectorized_map if case['k'] % 5 == 0 and p in ('pairwise', 'copy', 'contractor') else tf.map_fn
    kw = {} if mapper is tf.vectorized_map else {'fn_output_signature': dt}
    got = mapper(lambda x: f(*x), args, **kw)
    ctx.close(np.asarray(got), np.stack([net.value(x) for x in batch]), 'map_fn ' + p, tol=tol(net))
    return
  if p == 'split':
    p = 'pairwise'
    f = make(net, p, 'tensorflow', ctx)
  ctx.label('GradientTape')
  w = arr([net.dims[q] for q in net.order], case['seed'] + 7, case['net']['kind'])
  vs = net.tensors(case['seed'] + 55)
  xs = [tf.Variable(t) if i % 2 else tf.constant(t) for i, t in enumerate(ts)]

  def grads():
    with tf.GradientTape() as tape:
      for x in xs:
        tape.watch(x)
      loss = tf.math.real(tf.reduce_sum(w * f(*[tf.convert_to_tensor(x) for x in xs])))
    return tape.gradient(loss, xs)
  got = tf.function(grads, autograph=case['k'] % 3 == 0)() if case['k'] % 2 else grads()
  ctx.check(all(a is not None for a in got), 'no gradient flows to some tensor')
  tot = sum(np.sum(np.conj(np.asarray(a)) * v).real for a, v in zip(got, vs))
  ctx.close(tot, np.asarray(loss_change(net, ts, vs, w)).real, 'derivative ' + p, tol=tol(net))


def run_truncate(case, ctx):
  """Truncated node splits inside traced functions."""
  be, shape, cut = case['backend'], case['shape'], case['cut']
  r = len(shape)
  cut = 1 + cut % (r - 1)
  p = perm_of(range(r), case['perm'])
  kw = {}
  m = min(np.prod([shape[q] for q in p[:cut]]), np.prod([shape[q] for q in p[cut:]]))
  if case['maxsv'] is not None:
    kw['max_singular_values'] = case['maxsv']
  if case['err'] is not None and be == 'tensorflow':     # JAX cannot compile value-dependent shapes
    kw.update(max_truncation_err=case['err'], relative=case['rel'])
  full = case['full']

  def f(t):
    x = tn.Node(t, backend=be)
    le, ri = [x[q] for q in p[:cut]], [x[q] for q in p[cut:]]
    if full:
      u, s, v, rest = tn.split_node_full_svd(x, le, ri, **kw)
      y = (u @ s) @ v
    else:
      u, v, rest = tn.split_node(x, le, ri, **kw)
      y = u @ v
    return y.reorder_edges([le[p.index(q)] if q in p[:cut] else ri[p.index(q) - cut] for q in range(r)]).tensor, \
        u.tensor, v.tensor, rest
  dims = list(shape)
  if be == 'jax':
    import jax
    g = jax.jit(f)
  else:
    import tensorflow as tf
    dt = tf.complex128 if case['kind'] == 'complex' else tf.float64
    sig = [None if case['unk'] >> i & 1 else d for i, d in enumerate(shape)]
    g = tf.function(f, input_signature=[tf.TensorSpec(sig, dt)], autograph=case['perm'] % 3 == 0)
  ctx.label(be, 'full' if full else 'split', *sorted(kw))
  for call in range(2):
    a = arr(dims, case['seed'] + call, case['kind'])
    y, u, v, rest = [np.asarray(z) for z in g(a)]
    M = a.transpose(p).reshape(int(np.prod([dims[q] for q in p[:cut]])), -1)
    sv = np.linalg.svd(M, compute_uv=False)
    keep = len(sv)
    if 'max_singular_values' in kw:
      keep = min(keep, kw['max_singular_values'])
    if 'max_truncation_err' in kw:
      lim = kw['max_truncation_err'] * (sv[0] if kw['relative'] else 1.0)
      tails = np.array([np.sqrt(np.sum(sv[i:] ** 2)) for i in range(len(sv))])
      if np.any(np.abs(tails - lim) < 1e-7):
        raise Skip('limit at a boundary')
      keep = min(keep, int(np.sum(tails > lim)))
    ctx.nontrivial(keep < len(sv))
    ctx.equal((u.shape[-1], v.shape[0]), (keep, keep), 'bond dimension')
    ctx.equal(u.shape[:-1] + v.shape[1:], tuple(dims[q] for q in p), 'dimensions of the factors')
    ctx.close(rest.real, sv[keep:], 'discarded values', tol=1e-8)
    ctx.equal(y.shape, tuple(dims), 'shape of the product')
    ctx.close(np.sqrt(np.sum(np.abs(a - y) ** 2)), np.sqrt(np.sum(sv[keep:] ** 2)), 'truncation loss', tol=1e-7)
    if be == 'tensorflow' and case['unk']:
      dims = [1 + (d + case['perm'] + i) % 4 if case['unk'] >> i & 1 else d for i, d in enumerate(shape)]


def st_truncate():
  return st.fixed_dictionaries(dict(
      backend=st.sampled_from(['jax', 'tensorflow', 'tensorflow']), shape=st.lists(st.integers(1, 4), min_size=2, max_size=4),
      cut=st.integers(0, 5), perm=st.integers(0, 119), full=st.booleans(), kind=st.sampled_from(['real', 'complex']),
      maxsv=st.one_of(st.none(), st.integers(1, 5)), err=st.sampled_from([None, None, 0.0, 0.3, 1.0, 2.0]),
      rel=st.booleans(), unk=st.integers(0, 15), seed=seeds))


EAGER = {'index_update', 'item', 'shapes', 'eps', 'convert', 'create', 'jit'}    # about concrete values, or no tensor arguments


class Traced:
  """A backend each of whose primitives runs inside a traced function."""

  def __init__(self, backend, case):
    self._b, self._case = backend, case

  def __getattr__(self, name):
    m = getattr(self._b, name)
    if name in ('convert_to_tensor', 'name'):
      return m
    return lambda *a, **kw: self._call(m, a, kw)

  def _call(self, m, args, kw):
    case = self._case
    jx = case['backend'] == 'jax'
    if jx:
      import jax
      is_t = lambda x: isinstance(x, jax.Array)
    else:
      import tensorflow as tf
      is_t = lambda x: isinstance(x, tf.Tensor)
    pos = [i for i, x in enumerate(args) if is_t(x)]
    if not pos:
      return m(*args, **kw)

    def g(*ts):
      a = list(args)
      for i, t in zip(pos, ts):
        a[i] = t
      return m(*a, **kw)
    given = [args[i] for i in pos]
    if jx:
      return jax.jit(g)(*given)
    bits = case['unk'] if case['dyn'] else 0
    sig = []
    for n, t in enumerate(given):
      sig.append(tf.TensorSpec([None if bits >> (5 * n + i) & 1 else d for i, d in enumerate(t.shape)], t.dtype))
    return tf.function(g, input_signature=sig, autograph=case['k'] % 3 == 0)(*given)


# primitives that work on the static shape, as their signature or documentation implies
STATIC = {'pivot', 'expm'}     # check or use the static shape


def run_primitive(case, ctx):
  if case['op'] in EAGER:
    raise Skip('nothing to trace')
  case = dict(case)
  case['dyn'] = case['backend'] == 'tensorflow' and case['dyn'] and case['op'] not in STATIC
  e = c08.Env(case, ctx)
  e.b = Traced(e.b, case)
  ctx.label(case['op'], 'dynamic' if case['dyn'] else 'static')
  r = c08.OPS[case['op']][1](case, e)
  ctx.nontrivial(any(a.size >= 2 for _, a in e.used))
  if r is not None:
    e.same(r[0], r[1], case['op'], dtype=not (case['op'] == 'norm' and case['backend'] == 'tensorflow'))
  e.finish()


def st_primitive(backend):
  names = sorted(set(c08.OPS) - EAGER)

  @st.composite
  def s(draw):
    name = draw(st.sampled_from(names))
    case = dict(draw(c08.OPS[name][0]))
    case.update(op=name, seed=draw(seeds), layout=0, backend=backend, k=draw(st.integers(0, 99)),
                dyn=draw(st.booleans()), unk=draw(st.integers(0, 2 ** 15 - 1)))
    return case
  return s()


def st_case(progs, backend):
  return st.fixed_dictionaries(dict(
      net=st.one_of(net_case(2, 4, 7, kinds=('int', 'cint'), traces=False, backends=(backend,)),
                    net_case(1, 4, 7, kinds=('int', 'cint'), backends=(backend,))),
      prog=st.sampled_from(progs), perm=st.integers(0, 5039), k=st.integers(0, 9999), mode=st.integers(0, 11),
      unk=st.integers(0, 1023), steps=st.lists(st.integers(0, 9999), min_size=2, max_size=6), seed=seeds))


def jax64():
  import jax
  jax.config.update('jax_enable_x64', True)


PARTS = [
    Part('jax', lambda: st_case(PROGS, 'jax'), run_jax, quick=500, thorough=8000, setup=jax64),
    Part('tf', lambda: st_case(PROGS, 'tensorflow'), run_tf, quick=500, thorough=8000),
    Part('truncate', st_truncate, run_truncate, quick=400, thorough=6000, setup=jax64),
    Part('primitives-jax', lambda: st_primitive('jax'), run_primitive, quick=800, thorough=10000, setup=jax64),
    Part('primitives-tf', lambda: st_primitive('tensorflow'), run_primitive, quick=800, thorough=10000),
]
