"""C23: default backends and node collections follow strict scoping."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import backend_contextmanager as bcm
from tensornetwork import ops as tnops
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import initialization, node_linalg
from tensornetwork.quantum import quantum
from vt.core import Part
from vt.gens import arr, pick, seeds

ID = 'C23'
RULE = ('(program) random programs of nested and re-entered backend and node-collection scopes (new and reused scope objects, shared '
        'containers, names and backend objects), left normally or by exceptions that travel through several scopes, with changes of '
        'the global default, failing calls, and every way to create a node or tensor with and without an explicit backend; after '
        'every step the default backend, the backend of the new object and the contents of all containers are compared with a model '
        'of two stacks. (hostile) library calls on objects of an explicit backend must give the same result when another backend, or '
        'one that is not installed, is the default. Non-trivial: at least two nested scopes were entered and a node was created in '
        'them / the call ran under a hostile default.')
ASSUMPTIONS = ['a single thread; scopes are left in the reverse order in which they were entered (as the with statement does)']

NAMES = ['numpy', 'tensorflow', 'jax', 'numpy', 'tensorflow', 'symmetric', 'pytorch', 'nonsense']


class Stop(Exception):
  pass


def backend_arg(i):
  """(argument, name)"""
  name = pick(NAMES[:5], i)
  if i // 5 % 3 == 2:
    return backend_factory.get_backend(name), name
  return name, name


class Machine:

  def __init__(self, ctx, seed):
    self.ctx = ctx
    self.rng = np.random.default_rng(seed)
    self.default = 'numpy'
    self.bstack = []
    self.cstack = []
    self.containers = []       # (container, expected list of nodes)
    self.bscopes = []          # (object, argument)
    self.cscopes = []          # (object, container index)
    self.nodes = []
    self.deep = 0
    self.made = 0

  # -- the model
  def current(self):
    return self.bstack[-1] if self.bstack else self.default

  def name(self, arg):
    return arg if isinstance(arg, str) else arg.name

  def usable(self):
    return self.name(self.current()) in ('numpy', 'tensorflow', 'jax')

  def verify(self, what):
    ctx = self.ctx
    got = bcm.get_default_backend()
    ctx.check(got is self.current() or got == self.current(), '{}: the default backend is {!r}, expected {!r} (stack {})', what, got,
              self.current(), self.bstack)
    for k, (c, want) in enumerate(self.containers):
      if isinstance(c, set):
        ctx.check({id(n) for n in c} == {id(n) for n in want}, '{}: collection {} holds {} nodes, expected {}', what, k, len(c), len(want))
      else:
        ctx.equal([id(n) for n in c], [id(n) for n in want], '%s: nodes of collection %d' % (what, k))

  def record(self, nodes, exact, what):
    """`nodes` were created: the innermost collection gets them (and temporaries of the call unless exact)."""
    self.made += 1
    if len(self.bstack) + len(self.cstack) >= 2:
      self.deep += 1
    if not self.cstack:
      return
    c, want = self.containers[self.cstack[-1]]
    if exact:
      want.extend(nodes)
      return
    have = {id(n): n for n in c}
    for n in nodes:
      self.ctx.check(id(n) in have, '{}: the new node is not in the innermost collection', what)
    if isinstance(c, list):
      self.ctx.equal([id(n) for n in c[:len(want)]], [id(n) for n in want], what + ': earlier nodes of the list')
      want.extend(c[len(want):])
    else:
      ids = {id(n) for n in want}
      self.ctx.check(ids <= set(have), '{}: nodes disappeared from the set', what)
      want.extend(n for n in c if id(n) not in ids)

  # -- statements
  def run(self, prog):
    for s in prog:
      self.statement(s)

  def statement(self, s):
    kind, a, b, body = s
    ctx = self.ctx
    if kind == 'backend':
      if self.bscopes and a % 3 == 0:
        obj, arg = pick(self.bscopes, b)         # a scope object that is used again
        ctx.label('backend scope reused')
      else:
        arg = backend_arg(b)[0] if a % 4 else pick(NAMES, b)
        obj = tn.DefaultBackend(arg)
        self.bscopes.append((obj, arg))
      self.verify('a scope object was made')
      self.scoped(obj, self.bstack, arg, body, b, 'backend scope')
    elif kind == 'collect':
      if self.cscopes and a % 3 == 0:
        obj, k = pick(self.cscopes, b)
        ctx.label('collection scope reused')
      elif self.containers and a % 3 == 1:
        k = b % len(self.containers)
        obj = tn.NodeCollection(self.containers[k][0])
        self.cscopes.append((obj, k))
        ctx.label('container shared')
      else:
        c = set() if b % 2 else []
        want = []
        if b // 2 % 3 == 0 and self.nodes:
          n = pick(self.nodes, b)
          c.add(n) if isinstance(c, set) else c.append(n)
          want.append(n)
        k = len(self.containers)
        self.containers.append((c, want))
        obj = tn.NodeCollection(c)
        self.cscopes.append((obj, k))
      self.scoped(obj, self.cstack, k, body, b, 'collection scope')
    elif kind == 'guard':
      # exceptions of the body are caught here
      try:
        self.run(body)
      except Stop:
        ctx.label('exception caught')
        self.verify('after an exception')
    elif kind == 'raise':
      raise Stop()
    elif kind == 'default':
      arg = backend_arg(b)[0] if a % 4 else pick(NAMES[5:], b)
      if self.bstack:
        ctx.raises(AssertionError, lambda: tn.set_default_backend(arg), 'set_default_backend inside a scope')
      elif arg == 'nonsense':
        ctx.raises(ValueError, lambda: tn.set_default_backend(arg), 'set_default_backend of an unknown backend')
      else:
        tn.set_default_backend(arg)
        self.default = arg
      self.verify('set_default_backend')
    elif kind == 'bad':
      self.bad(a, b)
    elif kind == 'create':
      self.create(a, b)
    else:
      self.operate(a, b)

  def scoped(self, obj, stack, item, body, b, what):
    raised = None
    with self.catch() as caught:
      with obj:
        stack.append(item)
        self.verify('entered a ' + what)
        try:
          self.run(body)
        finally:
          stack.pop()
    raised = caught.error
    self.verify('left a %s%s' % (what, ' by an exception' if raised else ''))
    if raised is not None:
      self.ctx.label('left by exception')
      raise raised

  class catch:
    """Catches Stop only, so that the scope can be checked before it travels on."""

    def __init__(self):
      self.error = None

    def __enter__(self):
      return self

    def __exit__(self, t, v, tb):
      if isinstance(v, Stop):
        self.error = v
        return True
      return False

  def bad(self, a, b):
    ctx = self.ctx
    k = a % 8
    x = arr((2,), 1)
    if k == 0:
      ctx.raises(ValueError, lambda: tn.DefaultBackend(pick([3, None, ['numpy'], 1.5, np], b)), 'backend scope of a wrong type')
    elif k == 1:
      ctx.raises(ValueError, lambda: tn.NodeCollection(pick([(), {}, None, 'x', frozenset()], b)), 'collection of a wrong type')
    elif k == 2:
      ctx.raises(ValueError, lambda: tn.Node(x, backend='nonsense'), 'node of an unknown backend')
    elif k == 3:
      ctx.raises(ValueError, lambda: tn.Node(x, axis_names=['a', 'b'], backend='numpy'), 'node with too many axis names')
    elif k == 4:
      ctx.raises(ValueError, lambda: tn.Node(arr((2, 2), 1), axis_names=['a', 'a'], backend='numpy'), 'node with repeated axis names')
    elif k == 5:
      if self.bstack:
        ctx.raises((AssertionError, ValueError), lambda: tn.set_default_backend(pick([3, None], b)), 'default backend of a wrong type')
      else:
        ctx.raises(ValueError, lambda: tn.set_default_backend(pick([3, None], b)), 'default backend of a wrong type')
    elif k == 6:
      ctx.raises(TypeError, lambda: tn.Node([[1., 2.]], backend='numpy') and tn.Node('text', backend='numpy'), 'node of a list')
    else:
      if self.name(self.current()) == 'nonsense':
        ctx.raises(ValueError, lambda: tn.Node(x), 'node in the scope of an unknown backend')
        ctx.raises(ValueError, lambda: tn.Tensor(x), 'tensor in the scope of an unknown backend')
      elif self.name(self.current()) == 'pytorch' and not _torch():
        ctx.raises(ImportError, lambda: tn.Node(x), 'node in the scope of a backend that is not installed')
    self.verify('a rejected call (%d)' % k)

  def create(self, a, b):
    """Any way to create something, with or without explicit backend."""
    ctx = self.ctx
    arg, name = backend_arg(b)
    explicit = a % 2 == 0 or not self.usable()
    if explicit:
      kw = dict(backend=arg)
    elif b // 7 % 3 == 0:
      kw = {}
    else:
      kw = dict(backend=None)
    if not explicit:
      name = self.name(self.current())
    k = a // 2 % 21
    x = self.rng.normal(size=(2, 2))
    what = 'creation %d (%s)' % (k, 'explicit ' + name if explicit else 'default')
    ctx.label('explicit' if explicit else 'default backend')
    new, exact = [], True
    if k in (0, 1, 2):
      n = tn.Node(x, **kw)
      new = [n]
      be = n.backend
    elif k == 3:
      n = tn.CopyNode(2, 2, **kw)
      new = [n]
      be = n.backend
    elif k == 4:
      be = tn.Tensor(x, **kw).backend
    elif k == 5:
      fn = pick([tn.zeros, tn.ones, tn.randn, tn.random_uniform], b)
      be = fn((2, 2), **kw).backend
    elif k == 6:
      be = tn.eye(2, **kw).backend
    elif k == 7:
      fn = pick([initialization.ones_like, initialization.zeros_like], b)
      be = fn(x, **kw).backend
    elif k == 8:
      fn = pick([node_linalg.zeros, node_linalg.ones, node_linalg.randn, node_linalg.random_uniform], b)
      n = fn((2, 2), **kw)
      new = [n]
      be = n.backend
    elif k == 9:
      n = node_linalg.eye(2, **kw)
      new = [n]
      be = n.backend
    elif k == 10:
      r = tn.ncon([x, x], [(-1, 1), (1, -2)], **kw)
      exact = False
      be = None
      ctx.equal(kind_of(r), name, what + ': ncon')
      ctx.close(np.array(r), x @ x, what + ': ncon')
    elif k == 11:
      be = tn.FiniteMPS.random([2, 2], [2], np.float64, canonicalize=False, **kw).backend
      exact = False
    elif k == 12:
      be = tn.InfiniteMPS.random([2], [2, 2], np.float64, **kw).backend
      exact = False
    elif k == 13:
      be = tn.FiniteTFI(np.ones(1), np.ones(2), np.float64, **kw).backend
    elif k == 14:
      m = tn.FiniteXXZ(np.ones(1), np.ones(1), np.ones(2), np.float64, **kw)
      be = m.backend
      ctx.equal({kind_of(t) for t in m.tensors}, {name}, what + ': tensors of the operator')
    elif k == 15:
      op = quantum.identity([2, 2], **kw)
      new = sorted(op.nodes, key=id)
      exact = False
      be = new[0].backend
      ctx.equal({n.backend.name for n in new}, {be.name}, what + ': backends of the identity')
    elif k == 16:
      op = quantum.QuOperator.from_tensor(x, [0], [1], **kw)
      new = list(op.nodes)
      exact = False
      be = new[0].backend
    elif k == 17:
      ns = tn.from_topology('ab,ba', [x, x], **kw)
      new = list(ns)
      exact = False
      be = new[0].backend
      ctx.equal({n.backend.name for n in new}, {be.name}, what + ': backends of the topology')
    elif k == 18:
      f = tn.jit(lambda t: t * 2, **kw)
      r = f(backend_factory.get_backend(name).convert_to_tensor(x))
      be = None
      ctx.equal(kind_of(r), name, what + ': jit')
    elif k == 19:
      # a node made from a node keeps the backend of that node
      if not self.nodes:
        return
      old = pick(self.nodes, b)
      n = tn.Node(old)
      new = [n]
      be = n.backend
      name = old.backend.name
      if self.nodes and (a // 42) % 2:
        self.record(new, True, what)
        m = tn.Node(old, backend=old.backend.name)
        new = [m]
    else:
      s = tn.FiniteMPO([x.reshape(1, 1, 2, 2)], **kw)
      be = s.backend
    if be is not None:
      ctx.equal(be.name, name, what + ': backend')
      if explicit and not isinstance(arg, str) and k not in (19,):
        ctx.check(be is arg, '{}: the backend object is not the given one', what)
    for n in new:
      if hasattr(n, 'tensor'):
        ctx.equal(kind_of(n.tensor), name, what + ': type of the array')
    if k in (0, 1, 2, 8, 19):
      self.nodes.extend(new)
    self.record(new, exact, what)
    self.verify(what)

  def operate(self, a, b):
    """Operations on nodes keep the backend of the nodes and record the new nodes."""
    ctx = self.ctx
    if not self.nodes:
      return
    src = pick(self.nodes, b)
    name = src.backend.name
    k = a % 11
    what = 'operation %d on %s' % (k, name)
    x = np.array(src.tensor)
    exact = False
    # fresh operands in a scope of their own
    tmp = []
    with tn.NodeCollection(tmp):
      p = tn.Node(src)
      q = tn.Node(src)
    ctx.equal([id(n) for n in tmp], [id(p), id(q)], what + ': operands')
    self.verify(what + ': operands')
    if k == 0:
      p[1] ^ q[0]
      new = [tn.contract_between(p, q)]
      want = [x @ x]
    elif k == 1:
      p[1] ^ q[0]
      new = [p @ q]
      want = [x @ x]
    elif k == 2:
      new = [tn.outer_product(p, q)]
      want = [np.multiply.outer(x, x)]
    elif k == 3:
      l, r, _ = tn.split_node(p, [p[0]], [p[1]])
      new, want = [l, r], None
    elif k == 4:
      l, r = tn.split_node_qr(p, [p[0]], [p[1]])
      new, want = [l, r], None
    elif k == 5:
      p[1] ^ q[0]
      d, _ = tn.copy({p, q})
      new, want = [d[p], d[q]], [x, x]
    elif k == 6:
      new, want = [p + 1], [x + 1]
      exact = True
    elif k == 7:
      p[0] ^ p[1]
      new, want = [tn.contract_trace_edges(p)], [np.trace(x)]
    elif k == 8:
      p[1] ^ q[0]
      new = [pick([tn.contractors.greedy, tn.contractors.auto, tn.contractors.branch, tn.contractors.optimal], b)(
          [p, q], output_edge_order=[p[0], q[1]])]
      want = [x @ x]
    elif k == 9:
      new, want = [node_linalg.conj(p)], [x.conj()]
    else:
      new, want = [node_linalg.transpose(p, [1, 0])], [x.T]
    for j, n in enumerate(new):
      ctx.equal(n.backend.name, name, what + ': backend of the result')
      ctx.equal(kind_of(n.tensor), name, what + ': array of the result')
      if want is not None:
        ctx.close(np.array(n.tensor), want[j], what + ': value', 1e-5)
    self.record(new, exact, what)
    self.verify(what)
    ctx.equal(len(tmp), 2, what + ': a closed collection received nodes')


def kind_of(t):
  m = type(t).__module__
  for k in ('tensorflow', 'jax', 'numpy'):
    if m.startswith(k):
      return k
  return m


def _torch():
  try:
    import torch  # pylint: disable=unused-import
    return True
  except ImportError:
    return False


def reset():
  """Start a case without scopes, also when an earlier case leaked some."""
  for module, name in ((bcm, '_default_backend_stack'), (tnops, '_default_collection_stack')):
    stack = getattr(getattr(module, name, None), 'stack', None)
    if isinstance(stack, list):
      stack.clear()
  try:
    tn.set_default_backend('numpy')
  except AssertionError:
    pass


def run_program(case, ctx):
  reset()
  m = Machine(ctx, case['seed'])
  try:
    m.verify('start')
    try:
      m.run(case['prog'])
    except Stop:
      m.verify('an exception left all scopes')
    m.verify('end')
    ctx.equal(tn.Node(np.ones(2), backend='numpy').backend.name, 'numpy', 'backend of a node')
    m.verify('after all scopes')
  finally:
    reset()
  ctx.nontrivial(m.deep >= 1)


def statements(depth):
  u = st.integers(0, 209)
  leaf = st.one_of(
      st.tuples(st.just('create'), u, u, st.just([])),
      st.tuples(st.just('create'), u, u, st.just([])),
      st.tuples(st.sampled_from(['operate', 'default', 'bad', 'raise', 'create']), u, u, st.just([])))
  s = leaf
  for _ in range(depth):
    body = st.lists(s, min_size=1, max_size=4)
    s = st.one_of(leaf, st.tuples(st.sampled_from(['backend', 'collect', 'backend', 'collect', 'guard']), u, u, body))
  return st.lists(s, min_size=2, max_size=9)


# ---------------------------------------------------------------- hostile defaults


def tensors(rng, *shapes):
  return [rng.normal(size=s) for s in shapes]


def mps_ops(be, rng, i):
  mps = tn.FiniteMPS(tensors(rng, (1, 2, 2), (2, 2, 3), (3, 2, 1)), center_position=[0, 1, 2, None][i % 4], backend=be)
  out = []
  if i % 4 == 3:
    return [mps.bond_dimensions, mps.tensors[0], mps.check_orthonormality('l', 0), mps.left_envs([0, 1, 2])[2], mps.right_envs([0])[0]]
  mps.position(2, normalize=False)
  mps.position(0, normalize=True)
  g = rng.normal(size=(2, 2, 2, 2))
  mps.position(1)
  bk = backend_factory.get_backend(be)
  out.append(mps.apply_two_site_gate(bk.convert_to_tensor(g), 1, 2, max_singular_values=2 + i % 3, center_position=1))
  mps.apply_one_site_gate(bk.convert_to_tensor(g[0, 0]), 1)
  out.append(mps.check_canonical())
  o = bk.convert_to_tensor(g[:, :, 0, 0])
  out.append(mps.measure_local_operator([o, o], [0, 2]))
  out.append(mps.measure_two_body_correlator(o, o, 1, [0, 1, 2]))
  out.append(mps.left_transfer_operator(mps.tensors[1], mps.left_envs([1])[1], mps.tensors[1]))
  out.append(mps.get_tensor(1))
  mps.canonicalize()
  out += list(mps.tensors)
  return out


def imps_ops(be, rng, i):
  m = tn.InfiniteMPS(tensors(rng, (2, 2, 3), (3, 2, 2)), center_position=0, backend=be)
  out = []
  if be == 'numpy':
    m.canonicalize()
    l = [np.linalg.svd(np.array(t).reshape(t.shape[0], -1), compute_uv=False) for t in m.tensors]
    out += l + [abs(m.transfer_matrix_eigs('l', num_krylov_vecs=4)[0])]
  m.position(1)
  return out + [np.linalg.svd(np.array(m.tensors[1]).reshape(3, -1), compute_uv=False)]


def dmrg_ops(be, rng, i):
  bk = backend_factory.get_backend(be)
  if be == 'tensorflow':
    return []
  mpo = pick([lambda: tn.FiniteXXZ(np.ones(3), np.ones(3), np.zeros(4), np.float64, backend=be),
              lambda: tn.FiniteTFI(np.ones(3), np.ones(4), np.float64, backend=be)], i)()
  mps = tn.FiniteMPS(tensors(rng, (1, 2, 2), (2, 2, 4), (4, 2, 2), (2, 2, 1)), 0, backend=be)
  mps.position(3)
  mps.position(0)
  d = tn.FiniteDMRG(mps, mpo)
  e = [d.run_one_site, d.run_two_site][i // 2 % 2]
  return [e(num_sweeps=3, num_krylov_vecs=6) if i // 2 % 2 == 0 else e(max_bond_dim=4, num_sweeps=3, num_krylov_vecs=6)]


def node_ops(be, rng, i):
  a = tn.Node(rng.normal(size=(2, 3, 4)), backend=be)
  b = tn.Node(rng.normal(size=(4, 3, 2)), backend=be)
  c = tn.CopyNode(3, 2, backend=be)
  a[2] ^ b[0]
  out = []
  k = i % 10
  if k == 0:
    a[1] ^ b[1]
    out = [tn.contract_parallel(a[1]).tensor]
  elif k == 1:
    b[2] ^ c[0]
    a[0] ^ c[1]
    d = tn.Node(rng.normal(size=(2,)), backend=be)
    d[0] ^ c[2]
    out = [tn.contract_copy_node(c).tensor]
  elif k == 2:
    u, s, v, _ = tn.split_node_full_svd(a, [a[0]], [a[1], a[2]], max_singular_values=1 + i % 2)
    out = [s.tensor, tn.contractors.auto([u, s, v, b], output_edge_order=[u[0], v[1], b[1], b[2]]).tensor]
  elif k == 3:
    l, r = tn.split_node_rq(b, [b[0]], [b[1], b[2]])
    out = [tn.contractors.greedy([l, r, a], output_edge_order=[a[0], a[1], r[1], r[2]]).tensor]
  elif k == 4:
    nd, ed = tn.copy([a, b], conjugate=True)
    out = [nd[a].tensor, nd[b].tensor, len(ed)]
  elif k == 5:
    e = tn.flatten_edges([a[0], a[1]])
    tn.split_edge(e, (2, 3))
    out = [a.tensor]
  elif k == 6:
    tn.slice_edge(a[2], 1, 2)
    out = [a.tensor, b.tensor]
  elif k == 7:
    out = [tn.contractors.branch([a, b], output_edge_order=[b[2], a[1], a[0], b[1]]).tensor]
  elif k == 8:
    out = [(a @ b).tensor]
  else:
    out = [node_linalg.norm(a), node_linalg.conj(a).tensor, node_linalg.transpose(b, [2, 0, 1]).tensor,
           node_linalg.kron([tn.Node(rng.normal(size=(2, 2)), backend=be), tn.Node(rng.normal(size=(3, 3)), backend=be)]).tensor]
  return out


def tensor_ops(be, rng, i):
  t = tn.Tensor(rng.normal(size=(3, 3)), backend=be)
  u = tn.Tensor(rng.normal(size=(3, 3)), backend=be)
  h = t + t.T
  return [t @ u, tn.tensordot(t, u, ([0], [1])), tn.norm(t), tn.svd(t)[1], tn.eigh(h)[0], tn.inv(t),
          tn.trace(t), tn.diagonal(t), tn.kron(t, u) if i % 2 else tn.outer(t, u), tn.abs(t), tn.conj(t), tn.hconj(t), tn.exp(t),
          initialization.ones_like(t, backend=be), initialization.zeros_like(t, backend=be), tn.ncon([t, u], [(-1, 1), (1, -2)], backend=be), t.reshape((9,)),
          t.H, t * u, tn.reshape(t, (9, 1)), tn.transpose(t), tn.qr(t)[1].array * 0 + 1,
          tn.einsum('ij,jk->ik', t, u, optimize=True), t.hconj()]


def quantum_ops(be, rng, i):
  x = rng.normal(size=(2, 3, 2, 3))
  op = quantum.QuOperator.from_tensor(x, [0, 1], [2, 3], backend=be)
  v = quantum.QuVector.from_tensor(rng.normal(size=(2, 3)), backend=be)
  idt = quantum.identity([2, 3], backend=be)
  return [(op @ v).eval(), (op @ op.adjoint()).eval(), (v.adjoint() @ op @ v).eval(), (op @ idt).eval(), op.partial_trace([0]).eval(),
          v.projector().eval(), op.tensor_product(idt).trace().eval() if i % 2 else op.trace().eval(), v.norm().eval(),
          v.reduced_density([1]).eval()]


def sym_ops(be, rng, i):
  ch = tn.U1Charge(rng.integers(-1, 2, 6))
  ind = [tn.Index(ch, False), tn.Index(ch, True), tn.Index(ch, False), tn.Index(ch, True)]
  np.random.seed(i)
  t = tn.BlockSparseTensor.random(ind)
  a, b = tn.Node(t, backend='symmetric'), tn.Node(t, backend='symmetric')
  a[0] ^ b[1]
  a[2] ^ b[3]
  r = a @ b
  n = tn.Node(t, backend='symmetric')
  l, s, q, _ = tn.split_node_full_svd(n, [n[0], n[1]], [n[2], n[3]], max_singular_values=3)
  return [r.tensor.todense(), tn.contractors.greedy([l, s, q], output_edge_order=[l[0], l[1], q[1], q[2]]).tensor.todense(),
          tn.ncon([t, t], [(-1, 1, -3, 2), (1, -2, 2, -4)], backend='symmetric').todense()]


def json_ops(be, rng, i):
  a, b = tn.Node(rng.normal(size=(2, 2)), name='a', backend='numpy'), tn.Node(rng.normal(size=(2, 2)), name='b', backend='numpy')
  a[1] ^ b[0]
  ns, _ = tn.nodes_from_json(tn.nodes_to_json([a, b]))
  return [n.tensor for n in ns] + [n.backend.name for n in ns]


def krylov_ops(be, rng, i):
  from tensornetwork.linalg import krylov
  if be == 'tensorflow':
    return []
  h = rng.normal(size=(4, 4))
  H = tn.Tensor(h + h.T, backend=be)
  x = tn.Tensor(rng.normal(size=(4, 1)), backend=be)
  v, _ = krylov.eigsh_lanczos(lambda y, m: m @ y, backend=pick([None, be], i), args=[H], x0=x, num_krylov_vecs=4)
  return [v[0]]


def node_init(be, rng, i):
  return [tn.ones((2,), backend=be), tn.eye(2, backend=be), node_linalg.zeros((2, 1), backend=be).tensor,
          tn.from_topology('ab,bc', tensors(rng, (2, 3), (3, 2)), backend=be)[1].tensor,
          tn.ncon(tensors(rng, (2, 3), (3, 2)), [(-1, 1), (1, -2)], backend=be)]


HOSTILE = dict(mps=mps_ops, imps=imps_ops, dmrg=dmrg_ops, node=node_ops, tensor=tensor_ops, quantum=quantum_ops, symmetric=sym_ops,
               json=json_ops, krylov=krylov_ops, init=node_init)


def flat(x, out):
  if isinstance(x, (list, tuple)):
    for y in x:
      flat(y, out)
  elif isinstance(x, tn.Tensor):
    out.append((x.backend.name + kind_of(x.array), np.array(x.array)))
  elif isinstance(x, (str, int, float, bool, complex)):
    out.append((type(x).__name__, x))
  else:
    out.append((kind_of(x), np.array(x)))
  return out


def run_hostile(case, ctx):
  reset()
  fn = HOSTILE[case['op']]
  be = case['backend']
  res = []
  try:
    for d in ('numpy' if be == 'numpy' else be, case['default']):
      with tn.DefaultBackend(d):
        res.append(flat(fn(be, np.random.default_rng(case['seed']), case['i']), []))
      ctx.equal(bcm.get_default_backend(), 'numpy', '%s: default backend afterwards' % case['op'])
    ctx.equal(tnops.get_current_collection(), None, case['op'] + ': collection afterwards')
  finally:
    reset()
  what = '%s on %s, default backend %s' % (case['op'], be, case['default'])
  ctx.label(case['op'], case['default'])
  ctx.equal([k for k, _ in res[1]], [k for k, _ in res[0]], what + ': types of the results')
  for j, ((_, w), (_, g)) in enumerate(zip(*res)):
    if isinstance(w, str):
      ctx.equal(g, w, what + ': result %d' % j)
    else:
      ctx.close(g, w, what + ': result %d' % j, 1e-4 if be == 'jax' else 1e-7)
  ctx.nontrivial(bool(res[0]) and case['default'] != be)


PARTS = [
    Part('program', lambda: st.fixed_dictionaries(dict(seed=seeds, prog=statements(3))), run_program, 4000, 40000, case_timeout=120),
    Part('hostile', lambda: st.fixed_dictionaries(dict(
        seed=seeds, i=st.integers(0, 59), backend=st.sampled_from(['numpy', 'numpy', 'tensorflow', 'jax']),
        op=st.sampled_from(sorted(HOSTILE)), default=st.sampled_from(['pytorch', 'jax', 'tensorflow', 'symmetric', 'nonsense', 'numpy']))),
         run_hostile, 400, 5000, case_timeout=240)]
