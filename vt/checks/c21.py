"""C21: quantum operators and vectors against dense linear algebra."""
import math
import numpy as np
import tensornetwork as tn
from hypothesis import strategies as st
from tensornetwork.quantum import quantum as qu
from tensornetwork.contractors import greedy, optimal, branch, auto
from vt import symgen as sg
from vt.core import Part, Skip
from vt.gens import pick, seeds
from vt.graphmodel import meinsum

ID = 'C21'
RULE = ('Random programs over operators, vectors, adjoint vectors and scalars (single tensors with permuted axes, chains, disconnected '
        'parts, copy tensors, ignored legs, identities in any number and position; any subsystem dimensions; reused operands): products, '
        'tensor products, adjoints, traces, partial traces, norms, scalings, projectors, reduced densities, contraction and evaluation. '
        'Every value is followed as a dense array; networks are evaluated by an independent einsum after each step, and all operands '
        'must stay as they were. Non-trivial: at least two compositions whose result is neither zero nor a number.')
ASSUMPTIONS = ['norm() is the squared Frobenius norm, as the tests of the repository require',
               'at most one ignored leg (their relative order is not specified)', 'trace() is judged on square operators']
LIMIT = 3000


def value(q, extra=()):
  """Dense value of the network, axes: extra, out, in."""
  nodes = list(q.nodes)
  ids, inputs = {}, []
  for n in nodes:
    lab = []
    for e in n.edges:
      lab.append(ids.setdefault(id(e), len(ids)))
    inputs.append((np.array(n.tensor), lab))
  out = [ids[id(e)] for e in list(extra) + list(q.out_edges) + list(q.in_edges)]
  return meinsum(inputs, out)


class Item:

  def __init__(self, q, dense, nout, ignored=False):
    self.q, self.dense, self.nout, self.ignored = q, np.asarray(dense), nout, ignored
    self.sign()

  def sign(self):
    q = self.q
    self.edges = (list(q.out_edges), list(q.in_edges), set(q.ignore_edges))

  @property
  def k(self):
    return 1 if self.ignored else 0

  @property
  def out(self):
    return list(self.dense.shape[self.k:self.k + self.nout])

  @property
  def inn(self):
    return list(self.dense.shape[self.k + self.nout:])

  def matrix(self):
    """(ignored, out, in)"""
    s = self.dense.shape[0] if self.ignored else 1
    return self.dense.reshape(s, math.prod(self.out), math.prod(self.inn))


class Prog:

  def __init__(self, case, ctx):
    self.ctx, self.case = ctx, case
    self.rng = np.random.default_rng(case['seed'])
    self.be = case['backend']
    self.dtype = np.dtype([np.float64, np.complex128][case['dtype'] % 2])
    self.items = []
    self.steps = 0

  def num(self, shape):
    return np.asarray(sg.rand_values(self.rng, tuple(shape), self.dtype), dtype=self.dtype)

  def node(self, x):
    return tn.Node(x, backend=self.be)

  def space(self, j, n):
    return [pick([2, 2, 3, 1, 2, 4], int(x)) for x in np.random.default_rng([j, self.case['seed'] % 7]).integers(0, 6, n)]

  def add(self, q, dense, nout, what, ignored=False):
    ctx = self.ctx
    want = np.asarray(dense)
    nin = want.ndim - nout - (1 if ignored else 0)
    kind = {(0, 0): qu.QuScalar, (1, 0): qu.QuVector, (0, 1): qu.QuAdjointVector, (1, 1): qu.QuOperator}[(nout > 0) * 1, (nin > 0) * 1]
    ctx.check(type(q) is kind, '{}: is a {}, want {}', what, type(q).__name__, kind.__name__)
    it = Item(q, want, nout, ignored)
    self.check(it, what)
    self.items.append(it)
    return it

  def check(self, it, what, tol=1e-9):
    ctx, q = self.ctx, it.q
    ctx.equal(list(q.out_space), it.out, what + ': out_space')
    ctx.equal(list(q.in_space), it.inn, what + ': in_space')
    ctx.equal((q.is_scalar(), q.is_vector(), q.is_adjoint_vector()),
              (not it.out and not it.inn, bool(it.out) and not it.inn, not it.out and bool(it.inn)), what + ': kind')
    if isinstance(q, (qu.QuVector, qu.QuAdjointVector)):
      ctx.equal(list(q.space), it.out + it.inn, what + ': space')
      ctx.check(q.subsystem_edges == q.out_edges + q.in_edges, '{}: subsystem_edges', what)
    ctx.equal(len(q.ignore_edges), it.k, what + ': ignored legs')
    q.check_network()
    got = value(q, list(q.ignore_edges))
    ctx.equal(got.shape, it.dense.shape, what + ': shape')
    ctx.close(got, it.dense, what + ': value', tol, max(1., np.abs(it.dense).max() if it.dense.size else 1.))

  def untouched(self, it, what):
    q = it.q
    self.ctx.check(all(a is b for a, b in zip(it.edges[0], q.out_edges)) and all(a is b for a, b in zip(it.edges[1], q.in_edges)) and
                   it.edges[2] == q.ignore_edges, '{}: the legs of an operand were replaced', what)
    self.check(it, what + ': an operand')

  def get(self, i):
    if not self.items:
      raise Skip('nothing yet')
    return self.items[i % len(self.items)]


# -- sources
def src_tensor(p, j, k):
  n = k % 4
  nout = (k // 4) % (n + 1)
  dims = p.space(j, n)
  perm = [int(x) for x in p.rng.permutation(n)]
  axes = [0] * n
  stored = [0] * n
  for pos, a in enumerate(perm):
    axes[pos] = a
    stored[a] = dims[pos]
  t = p.num(stored)
  dense = t.transpose(axes) if n else t
  a = p.node(t).tensor
  if n == 0:
    q = qu.QuScalar.from_tensor(a, backend=p.be)
  elif nout == n and k % 3:
    ident = axes == list(range(n))
    q = qu.QuVector.from_tensor(a, None if ident else axes, backend=p.be)
  elif nout == 0 and k % 3:
    ident = axes == list(range(n))
    q = qu.QuAdjointVector.from_tensor(a, None if ident else axes, backend=p.be)
  elif nout == n:
    q = qu.QuVector((lambda nd: [nd[x] for x in axes])(p.node(t)))
  elif nout == 0:
    q = qu.QuAdjointVector((lambda nd: [nd[x] for x in axes])(p.node(t)))
  else:
    q = qu.QuOperator.from_tensor(a, axes[:nout], axes[nout:], backend=p.be)
  p.add(q, dense, nout, 'from_tensor')


def src_square(p, j, k):
  """An operator on the output space of an existing item, or on a fresh space."""
  dims = (p.get(j).out or p.get(j).inn) if p.items and k % 3 else []
  if not dims or math.prod(dims) > 30:
    dims = p.space(j, 1 + k % 2)
  t = p.num(dims + dims)
  n = len(dims)
  q = qu.QuOperator.from_tensor(p.node(t).tensor, list(range(n)), list(range(n, 2 * n)), backend=p.be)
  p.add(q, t, n, 'square operator')


def src_identity(p, j, k):
  dims = (p.get(j).out if k % 2 else p.get(j).inn) if p.items and k % 3 else []
  if not dims or math.prod(dims) > 30:
    dims = p.space(j, 1 + k % 3)
  q = qu.identity(dims, backend=p.be, dtype=p.dtype.type)
  n = len(dims)
  e = np.eye(math.prod(dims), dtype=p.dtype).reshape(dims + dims)
  p.ctx.label('identity')
  p.add(q, e, n, 'identity')


def src_chain(p, j, k):
  """A chain of two or three tensors, operator or vector, with an optional disconnected factor."""
  n = 2 + k % 2
  dims = p.space(j, n)
  op = (k // 2) % 3
  ts, nodes = [], []
  D = [1 + (k >> (2 + x)) % 3 for x in range(n - 1)]
  for x in range(n):
    bonds = ([D[x - 1]] if x else []) + ([D[x]] if x < n - 1 else [])
    ts.append(p.num(bonds + [dims[x]] * (2 if op == 0 else 1)))
    nodes.append(p.node(ts[-1]))
  for x in range(n - 1):
    nodes[x].edges[1 if x else 0] ^ nodes[x + 1].edges[0]
  phys = [(1 if x in (0, n - 1) else 2) for x in range(n)]
  out = [nodes[x][phys[x]] for x in range(n)]
  ref = None
  factor = 1.
  if k % 5 == 2:
    f = p.num((2,)), p.num((2,))
    a, b = p.node(f[0]), p.node(f[1])
    a[0] ^ b[0]
    ref = [a]
    factor = f[0] @ f[1]
  lab = [[('b', x - 1)] * (x > 0) + [('b', x)] * (x < n - 1) + [('o', x)] + [('i', x)] * (op == 0) for x in range(n)]
  dense = meinsum(list(zip(ts, lab)), [('o', x) for x in range(n)] + [('i', x) for x in range(n)] * (op == 0)) * factor
  if op == 0:
    inn = [nodes[x][phys[x] + 1] for x in range(n)]
    p.add(qu.QuOperator(out, inn, ref), dense, n, 'chain operator')
  elif op == 1:
    p.add(qu.QuVector(out, ref), dense, n, 'chain vector')
  else:
    p.add(qu.QuAdjointVector(out, ref), dense, 0, 'chain adjoint vector')


def src_copy(p, j, k):
  """A copy tensor of rank three or more, or one of rank two held as an operator or vector."""
  rank = 2 + k % 3
  d = p.space(j, 1)[0]
  nout = (k // 3) % (rank + 1)
  node = tn.CopyNode(rank, d, backend=p.be, dtype=p.dtype.type)
  dense = np.zeros((d,) * rank, dtype=p.dtype)
  dense[(np.arange(d),) * rank] = 1
  p.ctx.label('copy tensor')
  p.add(qu.quantum_constructor([node[x] for x in range(nout)], [node[x] for x in range(nout, rank)]), dense, nout, 'copy tensor')


def src_ignored(p, j, k):
  dims = p.space(j, 2)
  s = 1 + k % 3
  t = p.num([s] + dims)
  nd = p.node(t)
  nout = k % 3
  edges = [nd[1], nd[2]]
  q = qu.quantum_constructor(edges[:nout], edges[nout:], [nd], [nd[0]])
  p.ctx.label('ignored leg')
  p.add(q, t, nout, 'ignored leg', True)


# -- programs
def op_matmul(p, i, j, k):
  a, b = p.get(i), p.get(j)
  if len(a.q.nodes) + len(b.q.nodes) > 14:
    raise Skip('large network')
  if a.inn != b.out:
    p.ctx.label('mismatch')
    p.ctx.raises(ValueError, lambda: a.q @ b.q, 'product of %s and %s' % (a.inn, b.out))
    p.untouched(a, 'rejected product')
    p.untouched(b, 'rejected product')
    return
  if a.ignored and b.ignored:
    return
  m = np.einsum('sij,tjk->stik', a.matrix(), b.matrix())
  ig = a.ignored or b.ignored
  shape = ([max(m.shape[0], m.shape[1])] if ig else []) + a.out + b.inn
  if m.size > LIMIT:
    return
  q = a.q @ b.q
  p.steps += 1
  p.add(q, m.reshape(shape), len(a.out), 'product', ig)
  p.untouched(a, 'product')
  p.untouched(b, 'product')


def op_tensor(p, i, j, k):
  a, b = p.get(i), p.get(j)
  if a.ignored and b.ignored or a.dense.size * b.dense.size > LIMIT or len(a.q.nodes) + len(b.q.nodes) > 14 or a.dense.ndim + b.dense.ndim > 10:
    return
  q = a.q.tensor_product(b.q)
  m = np.einsum('sij,tkl->stikjl', a.matrix(), b.matrix())
  ig = a.ignored or b.ignored
  shape = ([m.shape[0] * m.shape[1]] if ig else []) + a.out + b.out + a.inn + b.inn
  p.steps += 1
  p.add(q, m.reshape(shape), len(a.out + b.out), 'tensor product', ig)
  p.untouched(a, 'tensor product')
  p.untouched(b, 'tensor product')


def op_scale(p, i, j, k):
  a = p.get(i)
  kind = k % 7
  x = p.num(())
  what = 'scaling'
  if kind == 0:
    s = complex(x) if p.dtype.kind == 'c' else float(x)
  elif kind == 1:
    s = p.dtype.type(x)
  elif kind == 2:
    s = np.array(x)
  elif kind == 3:
    s = p.node(np.array(x))
  elif kind == 4:
    s = qu.QuScalar.from_tensor(p.node(np.array(x)).tensor, backend=p.be)
  elif kind == 5:
    bad = p.num((2,))
    p.ctx.raises(ValueError, lambda: a.q * p.node(bad).tensor, 'scaling by a vector')
    p.untouched(a, 'rejected scaling')
    return
  else:
    b = p.get(j)
    if (a.out or a.inn) and (b.out or b.inn):
      p.ctx.raises(ValueError, lambda: a.q * b.q, 'elementwise product')
      p.untouched(a, 'rejected scaling')
      return
    if a.dense.size * b.dense.size > LIMIT or a.ignored or b.ignored or len(a.q.nodes) + len(b.q.nodes) > 14:
      return
    p.steps += 1
    p.add(a.q * b.q, np.multiply.outer(a.dense, b.dense), len(a.out + b.out), 'scalar product')
    p.untouched(a, 'scaling')
    p.untouched(b, 'scaling')
    return
  if p.be != 'numpy' and kind in (0, 1, 2):
    s = p.node(np.array(x)).tensor if k % 2 or p.be == 'tensorflow' else s
  if p.be == 'tensorflow' and kind in (0, 1, 2):
    q = a.q * s       # a TF tensor on the left takes over
  else:
    q = s * a.q if j % 2 and not isinstance(s, tn.Node) and p.be != 'jax' else a.q * s
  p.steps += 1
  p.add(q, a.dense * x, a.nout, what, a.ignored)
  p.untouched(a, what)
  if isinstance(s, tn.Node):
    p.ctx.close(np.array(s.tensor), x, 'scaling changed the scalar', 1e-12, 1.)


def op_adjoint(p, i, j, k):
  a = p.get(i)
  n = a.dense.ndim
  perm = list(range(a.k)) + list(range(a.k + a.nout, n)) + list(range(a.k, a.k + a.nout))
  q = a.q.adjoint()
  p.steps += 1
  p.add(q, a.dense.conj().transpose(perm), len(a.inn), 'adjoint', a.ignored)
  p.untouched(a, 'adjoint')


def op_partial(p, i, j, k):
  a = p.get(i)
  m = min(len(a.out), len(a.inn))
  if m == 0:
    p.ctx.raises((ValueError, IndexError), lambda: a.q.partial_trace([0]), 'partial trace of a vector')
    p.untouched(a, 'rejected partial trace')
    return
  sub = [x for x in range(m) if (k >> x) & 1]
  if j % 2:
    sub = sub[::-1]
  what = 'partial trace over %s' % sub
  if any(a.out[x] != a.inn[x] for x in sub):
    p.ctx.raises(ValueError, lambda: a.q.partial_trace(sub), what)
    p.untouched(a, 'rejected partial trace')
    return
  arg = pick([list, tuple, set, lambda x: x], j // 2)(sub)
  full = len(sub) == m == len(a.out) == len(a.inn)
  if full and j % 3 == 0:
    q, what = a.q.trace(), 'trace'
  else:
    q = a.q.partial_trace(arg)
  lab = list(range(a.dense.ndim))
  for x in sub:
    lab[a.k + a.nout + x] = lab[a.k + x]
  keep = [lab[y] for y in range(a.dense.ndim) if lab.count(lab[y]) == 1]
  p.ctx.label('trace')
  p.steps += 1
  p.add(q, np.einsum(a.dense, lab, keep), len(a.out) - len(sub), what, a.ignored)
  p.untouched(a, what)


def op_norm(p, i, j, k):
  a = p.get(i)
  if a.ignored or len(a.q.nodes) > 8:
    return
  q = a.q.norm()
  p.steps += 1
  p.add(q, np.array(np.vdot(a.dense, a.dense), dtype=a.dense.dtype), 0, 'norm')
  p.untouched(a, 'norm')


def op_projector(p, i, j, k):
  vs = [x for x in p.items if isinstance(x.q, (qu.QuVector, qu.QuAdjointVector))]
  if not vs:
    src_chain(p, j, 2 + 2 * (k % 2))
    vs = p.items[-1:]
  a = vs[i % len(vs)]
  if not isinstance(a.q, (qu.QuVector, qu.QuAdjointVector)) or a.ignored or a.dense.size**2 > LIMIT or len(a.q.nodes) > 7 or a.dense.ndim > 5:
    return
  v = a.dense.reshape(-1)
  rho = np.outer(v, v.conj()) if isinstance(a.q, qu.QuVector) else np.outer(v.conj(), v)
  n = a.dense.ndim
  d = list(a.dense.shape)
  p.steps += 1
  if k % 2:
    p.add(a.q.projector(), rho.reshape(d + d), n, 'projector')
    p.untouched(a, 'projector')
    return
  sub = [x for x in range(n) if (j >> x) & 1]
  lab = list(range(2 * n))
  for x in sub:
    lab[n + x] = x
  keep = [lab[y] for y in range(2 * n) if lab.count(lab[y]) == 1]
  p.ctx.label('reduced density')
  p.add(a.q.reduced_density(sub), np.einsum(rho.reshape(d + d), lab, keep), n - len(sub), 'reduced density over %s' % sub)
  p.untouched(a, 'reduced density')


def pick_contractor(p, k, q):
  return pick([greedy, greedy, optimal, branch, auto] if len(q.nodes) <= 7 else [greedy, auto], k)


def op_contract(p, i, j, k):
  """Contraction in place keeps the value; other items are not affected."""
  a = p.get(i)
  if 0 in a.dense.shape:
    return
  kw = {}
  c = pick_contractor(p, k, a.q)
  if c is not greedy or k % 2:
    kw['contractor'] = c
  edges = list(a.q.ignore_edges) + a.q.out_edges + a.q.in_edges
  perm = [int(x) for x in p.rng.permutation(len(edges))]
  if j % 3 == 1 and edges:
    kw['final_edge_order'] = [edges[x] for x in perm]
  what = 'contract(%s)' % ', '.join(kw)
  r = a.q.contract(**kw)
  p.ctx.check(r is a.q, '{} returns the operator', what)
  p.ctx.equal(len(a.q.nodes), 1, what + ': number of nodes')
  a.sign()
  p.check(a, what)
  if 'final_edge_order' in kw:
    got = np.array(list(a.q.nodes)[0].tensor)
    p.ctx.close(got, a.dense.transpose(perm), what + ': order of the axes', 1e-9, max(1., np.abs(a.dense).max()))
  p.ctx.label('contract')


def op_eval(p, i, j, k):
  a = p.get(i)
  kw = {}
  c = pick_contractor(p, k, a.q)
  if c is not greedy or k % 2:
    kw['contractor'] = c
  edges = list(a.q.ignore_edges) + a.q.out_edges + a.q.in_edges
  want = a.dense
  if j % 4 == 1 and edges:
    perm = [int(x) for x in p.rng.permutation(len(edges))]
    kw['final_edge_order'] = [edges[x] for x in perm]
    want = want.transpose(perm)
  what = 'eval(%s)' % ', '.join(kw)
  got = np.array(a.q.eval(**kw))
  p.ctx.equal(got.shape, want.shape, what + ': shape')
  p.ctx.close(got, want, what, 1e-9, max(1., np.abs(want).max() if want.size else 1.))
  a.sign()
  p.check(a, what)
  p.ctx.label('eval')


def op_bad(p, i, j, k):
  """Networks that do not fit their legs."""
  ctx = p.ctx
  dims = p.space(j, 2)
  a, b = p.node(p.num(dims)), p.node(p.num(dims))
  kind = k % 6
  if kind == 0:
    ctx.raises(ValueError, lambda: qu.QuOperator([a[0]], []), 'unexpected dangling leg')
  elif kind == 1:
    a[0] ^ b[0]
    ctx.raises(ValueError, lambda: qu.QuOperator([a[0], a[1]], [b[1]]), 'output leg that is connected')
  elif kind == 2:
    a[0] ^ b[0]
    ctx.raises(ValueError, lambda: qu.QuOperator([a[1]], [b[1], b[0]]), 'input leg that is connected')
  elif kind == 3:
    ctx.raises(ValueError, lambda: qu.QuScalar([a]), 'scalar with dangling legs')
  elif kind == 4:
    ctx.raises(ValueError, lambda: qu.QuOperator([], []), 'scalar without nodes')
  else:
    a[0] ^ b[0]
    ctx.raises(ValueError, lambda: qu.QuOperator([a[1]], [b[1]], None, [b[0]]), 'ignored leg that is connected')


SRC = dict(tensor=src_tensor, square=src_square, identity=src_identity, chain=src_chain, copy=src_copy, ignored=src_ignored)
OPS = dict(matmul=op_matmul, tensor=op_tensor, scale=op_scale, adjoint=op_adjoint, partial=op_partial, norm=op_norm,
           projector=op_projector, contract=op_contract, eval=op_eval, bad=op_bad)


def run(case, ctx):
  p = Prog(case, ctx)
  for name, i, j, k in case['prog']:
    if name.startswith('+'):
      SRC[name[1:]](p, j, k)
    else:
      if not p.items:
        src_square(p, j, k)
      if name == 'compose':     # an operator that fits
        a = p.get(i)
        if a.out and math.prod(a.out) <= 30:
          d = a.out
          if k % 2:
            src_identity_on(p, d)
          else:
            t = p.num(p.space(j, 1) + d)
            p.add(qu.QuOperator.from_tensor(p.node(t).tensor, [0], list(range(1, 1 + len(d))), backend=p.be), t, 1, 'fitting operator')
          op_matmul(p, len(p.items) - 1, p.items.index(a), k)
      else:
        OPS[name](p, i, j, k)
  ctx.nontrivial(p.steps >= 2 and any(it.dense.size > 1 and np.abs(it.dense).max() > 0 for it in p.items))
  order = p.rng.permutation(len(p.items))
  for x in order:
    if len(p.items[x].q.nodes) <= 14:
      op_eval(p, int(x), 0, int(p.rng.integers(0, 64)))
  for it in p.items:
    p.check(it, 'at the end')


def src_identity_on(p, d):
  e = np.eye(math.prod(d), dtype=p.dtype).reshape(d + d)
  p.ctx.label('identity')
  p.add(qu.identity(d, backend=p.be, dtype=p.dtype.type), e, len(d), 'identity')


u = st.integers(0, 63)
NAMES = ['+tensor', '+square', '+identity', '+identity', '+chain', '+copy', '+ignored', 'matmul', 'matmul', 'compose', 'compose', 'compose',
         'tensor', 'scale', 'adjoint', 'partial', 'partial', 'norm', 'projector', 'contract', 'eval', 'bad']


def strategy(backend, n):
  return lambda: st.fixed_dictionaries(dict(backend=st.just(backend), seed=seeds, dtype=st.integers(0, 1), prog=st.lists(
      st.tuples(st.sampled_from(NAMES), u, u, u), min_size=1, max_size=n)))


PARTS = [Part('numpy', strategy('numpy', 12), run, 5000, 60000),
         Part('tensorflow', strategy('tensorflow', 7), run, 250, 3000),
         Part('jax', strategy('jax', 5), run, 150, 2000)]
