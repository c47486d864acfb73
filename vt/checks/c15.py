"""C15: networks of symmetric tensors against the same networks of dense arrays."""
import itertools
import math
import warnings
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.backends.backend_factory import get_backend
from vt.core import Part, Skip
from vt.gens import pick, seeds
from vt import symgen as sg
from vt import symkrylov
from vt.checks import c13, c26

ID = 'C15'
RULE = ('Programs of node operations run in lockstep on a network of block-sparse tensors and on the same network of '
        'dense arrays (product symmetries, fused legs, permuted storage, dimension-one and empty legs); after every '
        'step both graphs must be isomorphic, legs must carry the predicted charges, and the two represented tensors '
        'must agree. ncon and symmetric-backend primitives are compared directly; incompatible legs must be rejected. '
        'Non-trivial: at least one contraction, decomposition, flattening or splitting and a represented tensor that does '
        'not vanish and has two allowed elements (ncon: two tensors with a label; primitives: an operand with two elements).')
ASSUMPTIONS = ['at most 5000 dense elements', 'legs of dimension zero are not flattened or split (documented)']
LIMIT = 5000


def nlegs(legs):
  return sum(len(l) for l in legs)


def size(legs):
  return math.prod(sg.leg_dim(l) for l in legs)


class Nets:
  """A symmetric and a dense network in lockstep."""

  def __init__(self, case, ctx):
    self.ctx = ctx
    self.sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
    self.rng = np.random.default_rng(case['seed'])
    self.dtype = sg.DTYPES[case['dtype'] % 2]
    self.nodes = []        # pairs (symmetric node, dense node)
    self.legs = {}         # dangling symmetric edge -> leg
    self.gauge = set()     # symmetric edges whose two sides hold a free gauge
    self.ncontr = self.nsplit = self.nflat = 0
    self.value = None
    self.keep = []

  # -- structure
  def dangling(self):
    out = []
    for i, (s, d) in enumerate(self.nodes):
      for a in range(len(s.edges)):
        if s.edges[a].is_dangling():
          out.append((s.edges[a], d.edges[a], i, a))
    return out

  def connected(self):
    seen, out = set(), []
    for s, d in self.nodes:
      for a, e in enumerate(s.edges):
        if not e.is_dangling() and e not in seen:
          seen.add(e)
          out.append((e, d.edges[a]))
    return out

  def other(self, node):
    for s, d in self.nodes:
      if s is node:
        return d
    raise AssertionError('unknown node')

  def same_way(self, e, f):
    """Which end comes first is free after flattening or splitting an edge."""
    return any(s is e.node1 and d is f.node1 for s, d in self.nodes) and e.axis1 == f.axis1

  def leg_of(self, node, axis):
    return sg.read_legs(node.tensor)[axis]

  def total(self, which):
    """The tensor the network denotes, axes ordered by the list of dangling edges."""
    labels, args = {}, []
    for pair in self.nodes:
      n = pair[which]
      t = n.tensor
      if which == 0:
        t = np.asarray(t.todense())
      ls = [labels.setdefault(e, len(labels)) for e in n.edges]
      args += [t, ls]
    if not args:
      return np.array(1.)
    if len(labels) > 50:
      raise Skip('too many labels')
    out = [labels[e[which]] for e in self.dangling()]
    return np.einsum(*args, out, optimize='greedy')

  def verify(self, what):
    ctx = self.ctx
    index = [{p[k]: i for i, p in enumerate(self.nodes)} for k in (0, 1)]
    pairing = {}
    for i, (s, d) in enumerate(self.nodes):
      w = '%s, node %d' % (what, i)
      ctx.equal(len(s.edges), len(d.edges), w + ': rank')
      ctx.equal(s.backend.name, 'symmetric', w + ': backend')
      loose = [e in self.gauge for e in s.edges]
      ctx.equal((s.name, [x for x, l in zip(s.axis_names, loose) if not l], len(s.axis_names)),
                (d.name, [x for x, l in zip(d.axis_names, loose) if not l], len(d.axis_names)), w + ': names')
      ctx.equal(tuple(int(x) for x, l in zip(s.shape, loose) if not l),
                tuple(int(x) for x, l in zip(d.shape, loose) if not l), w + ': shape')
      if not any(loose):
        t = np.asarray(s.tensor.todense())
        ctx.close(t, d.tensor, w)
      if s.edges and len(s.tensor.data) != int(sg.mask_of(self.sym, sg.read_legs(s.tensor)).sum()):
        ctx.fail(w + ': wrong number of stored elements')
      for a, (e, f) in enumerate(zip(s.edges, d.edges)):
        if pairing.setdefault(e, f) is not f:
          ctx.fail(w + ': edges of the two networks do not correspond')
        ends = []
        for k, x in ((0, e), (1, f)):
          y = [(index[k].get(n, 'outside'), ax) for n, ax in ((x.node1, x.axis1), (x.node2, x.axis2)) if n is not None]
          ends.append(sorted(y, key=str))
        ctx.equal(ends[0], ends[1], w + ': ends of edge %d' % a)
        ctx.check((i, a) in ends[0], '{}: edge {} does not point here but to {}', w, a, ends[0])
        ctx.equal(e.name, f.name, w + ': edge name')
    for e, _ in self.connected():
      a, b = self.leg_of(e.node1, e.axis1), self.leg_of(e.node2, e.axis2)
      if not sg.same_leg(a, sg.conj_leg(b)):
        ctx.fail('%s: the sides of a connected edge do not match: %s and %s' % (what, sg.show(a), sg.show(b)))
    for e, _, i, a in self.dangling():
      leg = self.leg_of(self.nodes[i][0], a)
      want = self.legs.get(e)
      if want is None:
        ctx.fail('%s: unexpected dangling edge at node %d, axis %d' % (what, i, a))
      if not sg.same_leg(leg, want):
        ctx.fail('%s: leg %d of node %d is %s, expected %s' % (what, a, i, sg.show(leg), sg.show(want)))
    ctx.close(self.total(0), self.total(1), what + ': represented tensor')

  def allowed(self, extra=()):
    legs = [self.legs[e] for e, _, _, _ in self.dangling()] + list(extra)
    return size(legs) <= LIMIT and nlegs(legs) <= 14

  # -- helpers of the operations
  def fresh(self, legs, names=None, name=None):
    t = sg.random_tensor(self.sym, legs, self.rng, self.dtype)
    s = tn.Node(t.t, name=name, axis_names=names, backend='symmetric')
    d = tn.Node(t.dense, name=name, axis_names=names, backend='numpy')
    self.nodes.append((s, d))
    for a, l in enumerate(legs):
      self.legs[s.edges[a]] = l
    return len(self.nodes) - 1

  def replace(self, old, new):
    self.nodes = [p for p in self.nodes if p[0] not in old] + [new]


def op_new(p, i, j, k):
  if len(p.nodes) >= 6:
    return
  legs = []
  d = p.dangling()
  used = set()
  for n in range(1 + (k + 1) % 4):
    if d and n < 2 and p.rng.integers(0, 3):
      e = d[int(p.rng.integers(0, len(d)))][0]
      if e in used:
        continue
      used.add(e)
      legs.append(sg.conj_leg(p.legs[e]))
    else:
      legs.append(sg.rand_leg(p.sym, p.rng, pick(
          [[2], [3], [3], [2, 2], [1, 2], [2, 1], [1], [2, 1, 2]], int(p.rng.integers(0, 8))) if p.rng.integers(0, 60) else [0]))
  sg.fill(p.sym, p.rng, legs, len(used))
  if not p.allowed(legs) or size(legs) > 500:
    return
  names = ['x%d' % n for n in range(len(legs))] if k % 3 == 0 else None
  at = p.fresh(legs, names, 'node%d' % i if k % 2 else None)
  if j % 2:       # connect it where possible
    for a in range(len(legs)):
      try_connect(p, at, a)


def try_connect(p, at, a, name=None):
  s, d = p.nodes[at]
  e, f = s.edges[a], d.edges[a]
  if not e.is_dangling():
    return False
  for e2, f2, i2, a2 in p.dangling():
    if e2 is not e and sg.same_leg(p.legs[e2], sg.conj_leg(p.legs[e])):
      if p.rng.integers(0, 2):
        e, f, e2, f2 = e2, f2, e, f
      if name is None and p.rng.integers(0, 2):
        e ^ e2   # pylint: disable=pointless-statement
        f ^ f2   # pylint: disable=pointless-statement
      else:
        tn.connect(e, e2, name)
        tn.connect(f, f2, name)
      return True
  return False


def op_connect(p, i, j, k):
  d = p.dangling()
  if d:
    _, _, at, a = pick(d, i)
    if not try_connect(p, at, a, 'edge%d' % k if k % 2 else None) and len(p.nodes) < 6:
      leg = sg.conj_leg(p.legs[pick(d, i)[0]])
      more = [sg.rand_leg(p.sym, p.rng, [2])] if j % 2 else []
      legs = [leg] + more
      sg.fill(p.sym, p.rng, legs, 1)
      if p.allowed(legs):
        new = p.fresh(legs)
        try_connect(p, new, 0)


def op_self(p, i, j, k):
  """A node with one or more trace edges."""
  if len(p.nodes) >= 6:
    return
  n = 1 + k % 2
  front = [sg.rand_leg(p.sym, p.rng, pick([[2], [3], [1], [2, 1], [1, 2]], int(p.rng.integers(0, 5)))) for _ in range(n)]
  rest = [sg.rand_leg(p.sym, p.rng, [2]) for _ in range(j % 3)]
  sg.fill(p.sym, p.rng, rest)
  legs = front + [sg.conj_leg(l) for l in front] + rest
  perm = [int(x) for x in p.rng.permutation(len(legs))]
  if not p.allowed(rest) or size(legs) > 700:
    return
  at = p.fresh([legs[q] for q in perm])
  s, d = p.nodes[at]
  for m in range(n):
    a, b = perm.index(m), perm.index(n + m)
    if p.rng.integers(0, 2):
      a, b = b, a
    tn.connect(s.edges[a], s.edges[b], 'trace%d' % m)
    tn.connect(d.edges[a], d.edges[b], 'trace%d' % m)


def op_disconnect(p, i, j, k):
  c = [x for x in p.connected() if x[0] not in p.gauge]
  if not c:
    return
  e, f = pick(c, i)
  a, b = p.leg_of(e.node1, e.axis1), p.leg_of(e.node2, e.axis2)
  if not p.allowed([a, b]):
    return
  same = p.same_way(e, f)
  args = ('left', 'right')
  if k % 2 and same:
    args = ()
  r1 = e.disconnect(*args) if k % 3 else tn.disconnect(e, *args)
  f.disconnect(*(args if same else args[::-1]))
  p.legs[r1[0]], p.legs[r1[1]] = a, b


def op_contract(p, i, j, k):
  c = p.connected()
  if not c:
    return
  e, f = pick(c, i)
  n1, n2, m1, m2 = e.node1, e.node2, f.node1, f.node2
  same = p.same_way(e, f)
  if not same:
    m1, m2 = m2, m1
  if n1 is n2 and 0 in n1.shape and sum(x.is_trace() for x in n1.edges) > 2:
    return       # documented: empty tensors cannot be reshaped
  if j % 2 and n1 is not n2:
    n1, n2, m1, m2 = n2, n1, m2, m1
  mode = k % 5 if same else 4
  p.keep += [n1, n2]
  name = 'result%d' % j if j % 3 == 0 else None
  if mode == 0 or n1 is n2 and mode in (2, 3):
    new = tn.contract(e, name), tn.contract(f, name)
  elif mode == 1:
    new = tn.contract_parallel(e), tn.contract_parallel(f)
  elif mode == 2:
    free = [(x, y) for a, b in ((n1, m1), (n2, m2)) for x, y in zip(a.edges, b.edges)
            if not (set(x.get_nodes()) == {n1, n2})]
    if any(x.is_trace() for x, _ in free):
      return
    p.rng.shuffle(free)
    new = (tn.contract_between(n1, n2, name, output_edge_order=[x for x, _ in free]),
           tn.contract_between(m1, m2, name, output_edge_order=[y for _, y in free]))
  elif mode == 3 and not e.is_trace():
    # other trace edges stay
    new = n1 @ n2, m1 @ m2
  else:
    new = tn.contract_between(n1, n2, name), tn.contract_between(m1, m2, name)
  p.gauge = {x for x in p.gauge if not x.is_disabled}
  p.ncontr += 1
  p.replace([n1, n2], new)


def op_outer(p, i, j, k):
  if len(p.nodes) < 2:
    return
  a, b = pick(p.nodes, i), pick(p.nodes, i + 1)
  if len(a[0].edges) + len(b[0].edges) > 9 or np.prod(a[0].shape) * np.prod(b[0].shape) > LIMIT:
    return
  if nlegs(sg.read_legs(a[0].tensor)) + nlegs(sg.read_legs(b[0].tensor)) > 14:
    return
  p.keep += [a[0], b[0]]
  if tn.get_shared_edges(a[0], b[0]):
    return
  if k % 2:
    new = tn.outer_product(a[0], b[0], 'outer'), tn.outer_product(a[1], b[1], 'outer')
  else:
    new = (tn.contract_between(a[0], b[0], allow_outer_product=True),
           tn.contract_between(a[1], b[1], allow_outer_product=True))
  p.replace([a[0], b[0]], new)


def groups(p):
  """Sets of parallel edges (dangling edges of a node, edges between two nodes, trace edges)."""
  out = {}
  for e, f in p.connected() + [x[:2] for x in p.dangling()]:
    key = frozenset([id(n) if n is not None else 0 for n in e.get_nodes()])
    out.setdefault(key, []).append((e, f))
  return [g for g in out.values()]


def op_flatten(p, i, j, k):
  g = [[x for x in g if x[0] not in p.gauge and 0 not in x[0].node1.shape and (x[0].node2 is None or 0 not in x[0].node2.shape)]
       for g in groups(p)]
  g = [x for x in g if len(x) >= 2]
  if not g:
    return
  es = pick(g, i)
  n = 2 + j % (len(es) - 1)
  sel = [es[int(q)] for q in p.rng.permutation(len(es))[:n]]
  name = 'flat%d' % k if k % 2 else None
  leg = None
  if sel[0][0].is_dangling():
    leg = sum([p.legs[e] for e, _ in sel], [])
  p.ctx.label('flatten ' + ('dangling' if leg else 'trace' if sel[0][0].is_trace() else 'standard'))
  p.nflat += 1
  a = tn.flatten_edges([e for e, _ in sel], name)
  tn.flatten_edges([f for _, f in sel], name)
  if leg is not None:
    p.legs[a] = leg
  elif k % 4 == 0 and n == len(es):
    # nothing left to flatten
    p.ctx.check(tn.flatten_edges_between(a.node1, a.node2) is a or a.is_trace(), 'flatten_edges_between of one edge')


def op_flatten_all(p, i, j, k):
  """The order of the axes is free."""
  c = [x for x in p.connected() if 0 not in x[0].node1.shape and 0 not in x[0].node2.shape]
  if not c:
    return
  e, f = pick(c, i)
  ns = {e.node1, e.node2}
  if any(0 in n.shape for n in ns):
    return
  par = tn.get_parallel_edges(e)
  if len(par) < 2 or any(x in p.gauge for x in par):
    return
  a = tn.flatten_edges_between(e.node1, e.node2)
  tn.flatten_edges_between(f.node1, f.node2)
  # flattening "will remove all axes names", and the ones left depend on the order of the edges
  for n in set(a.get_nodes()):
    for x in (n, p.other(n)):
      x.add_axis_names(['g%d' % q for q in range(len(x.edges))])
  p.gauge.add(a)


def op_split(p, i, j, k):
  c = [(x[0], x[1]) for x in p.connected() if x[0] not in p.gauge] + [x[:2] for x in p.dangling()]
  c = [x for x in c if len(p.leg_of(x[0].node1, x[0].axis1)) >= 2 and
       0 not in x[0].node1.shape and (x[0].node2 is None or 0 not in x[0].node2.shape)]
  if not c:
    return
  e, f = pick(c, i)
  flat = p.leg_of(e.node1, e.axis1)
  cuts = sorted({1 + int(x) for x in p.rng.integers(0, len(flat) - 1, 1 + j % 3)})
  if k % 2:
    cuts = list(range(1, len(flat)))
  b = [0] + cuts + [len(flat)]
  parts = [flat[x:y] for x, y in zip(b[:-1], b[1:])]
  shape = tuple(sg.leg_dim(q) for q in parts)
  names = ['part%d' % q for q in range(len(shape))] if k % 3 == 0 else None
  if names and any(set(names) & set(n.axis_names) for n in e.get_nodes() if n is not None):
    names = None
  dang = e.is_dangling()
  p.ctx.label('split ' + ('dangling' if dang else 'trace' if e.is_trace() else 'standard'))
  p.nflat += 1
  new = tn.split_edge(e, shape, names)
  tn.split_edge(f, shape, names)
  p.ctx.equal([x.dimension for x in new], list(shape), 'split_edge: dimensions')
  if dang:
    got = [p.leg_of(x.node1, x.axis1) for x in new]
    # dimension-one legs may go to either side
    p.ctx.check(sg.same_leg(sum(got, []), flat), 'split_edge: legs {}, expected {}', got, flat)
    for x, l in zip(new, got):
      p.legs[x] = l


def op_reorder(p, i, j, k):
  if not p.nodes:
    return
  s, d = pick(p.nodes, i)
  n = len(s.edges)
  if not n:
    return
  perm = [int(x) for x in p.rng.permutation(n)]
  if k % 2 or any(e.is_trace() for e in s.edges):
    s.reorder_axes(perm)
    d.reorder_axes(perm)
  else:
    s.reorder_edges([s.edges[q] for q in perm])
    d.reorder_edges([d.edges[q] for q in perm])


def op_copy(p, i, j, k):
  if not p.nodes:
    return
  conj = bool(k % 2)
  sn, se = tn.copy([s for s, _ in p.nodes], conjugate=conj)
  dn, _ = tn.copy([d for _, d in p.nodes], conjugate=conj)
  p.keep += [s for s, _ in p.nodes]
  old = {s: np.asarray(s.tensor.todense()) for s, _ in p.nodes}
  legs = {se[e]: (sg.conj_leg(l) if conj else l) for e, l in p.legs.items() if e in se}
  p.gauge = {se[e] for e in p.gauge if e in se}
  p.nodes = [(sn[s], dn[d]) for s, d in p.nodes]
  p.legs = legs
  for s, t in old.items():
    p.ctx.check(np.array_equal(s.tensor.todense(), t), 'copy changed its source')


def iso(ctx, m, what):
  ctx.close(m.conj().T @ m, np.eye(m.shape[1]), what + ': not an isometry', 1e-9)


def op_split_node(p, i, j, k):
  """Split without truncation; the factors stay in the network."""
  c = [q for q in p.nodes if len(q[0].edges) >= 2 and not any(e.is_trace() for e in q[0].edges) and
       0 not in q[0].shape]
  if not c or len(p.nodes) >= 7:
    return
  s, d = pick(c, i)
  n = len(s.edges)
  perm = [int(x) for x in p.rng.permutation(n)]
  cut = 1 + j % (n - 1)
  L, R = perm[:cut], perm[cut:]
  p.nsplit += 1
  x = '_%d' % p.nsplit
  names = dict(left_name='L', right_name='R', edge_name='bond' + x) if k % 2 else {}
  mode = ['split_node', 'split_node_qr', 'split_node_rq', 'split_node_full_svd'][k % 4]
  if mode == 'split_node_full_svd' and names:
    names = dict(left_name='L', middle_name='M', right_name='R', left_edge_name='lb' + x, right_edge_name='rb' + x)
  p.ctx.label(mode)
  f = getattr(tn, mode)
  p.keep.append(s)
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    rs = f(s, [s.edges[q] for q in L], [s.edges[q] for q in R], **names)
    rd = f(d, [d.edges[q] for q in L], [d.edges[q] for q in R], **names)
  cnt = 3 if mode == 'split_node_full_svd' else 2
  p.nodes = [q for q in p.nodes if q[0] is not s] + [(rs[q], rd[q]) for q in range(cnt)]
  left, right = rs[0], rs[cnt - 1]
  a = np.asarray(left.tensor.todense()).reshape(math.prod(left.shape[:-1]), left.shape[-1])
  b = np.asarray(right.tensor.todense()).reshape(right.shape[0], math.prod(right.shape[1:]))
  if mode in ('split_node_qr', 'split_node_full_svd'):
    iso(p.ctx, a, mode)
  if mode in ('split_node_rq', 'split_node_full_svd'):
    iso(p.ctx, b.conj().T, mode)
  p.gauge |= set(left.edges[-1:]) | set(right.edges[:1])


def op_trunc(p, i, j, k):
  """Truncated split of a copy of a node, compared with the dense one."""
  c = [q for q in p.nodes if len(q[0].edges) >= 2 and not any(e in p.gauge for e in q[0].edges) and 0 not in q[0].shape]
  if not c:
    return
  s, d = pick(c, i)
  n = len(s.edges)
  s, d = tn.Node(s.tensor, backend='symmetric'), tn.Node(d.tensor, backend='numpy')
  perm = [int(x) for x in p.rng.permutation(n)]
  cut = 1 + j % (n - 1)
  L, R = perm[:cut], perm[cut:]
  m = d.tensor.transpose(perm).reshape(math.prod(d.tensor.shape[q] for q in L), math.prod(d.tensor.shape[q] for q in R))
  sv = np.linalg.svd(m, compute_uv=False)
  nz = int((sv > 1e-8).sum())
  if nz < 2:
    return
  keep = 1 + k % (nz - 1)
  if sv[keep - 1] - sv[keep] < 1e-4 * sv[0]:
    return
  kw = {}
  if j % 3:
    kw['max_singular_values'] = keep
  else:
    tail = np.sqrt(np.cumsum(sv[::-1]**2)[::-1])
    kw['max_truncation_err'] = (tail[keep] + tail[keep - 1]) / 2
    if k % 2:
      kw['max_truncation_err'] /= sv[0]
      kw['relative'] = True
  full = bool(k % 3 == 0)
  p.ctx.label('truncated split')
  f = tn.split_node_full_svd if full else tn.split_node
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    rs = f(s, [s.edges[q] for q in L], [s.edges[q] for q in R], **kw)
  p.ctx.equal(rs[0].shape[-1], keep, 'truncated split: kept')
  tr = np.sort(np.abs(np.asarray(rs[-1].data)))[::-1]
  # zero singular values need not be listed
  tr = tr[tr > 1e-8]
  want = sv[keep:][sv[keep:] > 1e-8]
  p.ctx.close(tr, want, 'truncated split: discarded singular values', 1e-8, sv[0])
  order = rs[0].edges[:-1] + rs[-2].edges[1:]
  r = tn.contractors.greedy(list(rs[:-1]), order)
  u, x, v = np.linalg.svd(m, full_matrices=False)
  best = ((u[:, :keep] * x[:keep]) @ v[:keep]).reshape([d.tensor.shape[q] for q in perm])
  p.ctx.close(r.tensor.todense(), best, 'truncated split: product of the factors', 1e-7)


def run_trunc(case, ctx):
  """Truncated splits of one node whose sectors differ in size and magnitude."""
  p = Nets(case, ctx)
  legs = sg.rand_legs(p.sym, p.rng, [(d,) for d in case['dims']], 1)
  if size(legs) > 3000:
    raise Skip('too large')
  m = sg.mask_of(p.sym, legs)
  D = sg.rand_values(p.rng, m.shape, p.dtype) * m
  for a, leg in enumerate(legs):      # scale every charge of every leg
    q = sg.leg_charges(p.sym, leg)
    f = {c: 10. ** p.rng.uniform(-case['spread'], case['spread']) for c in map(tuple, q.tolist())}
    D = D * np.array([f[c] for c in map(tuple, q.tolist())]).reshape([-1] + [1] * (D.ndim - a - 1))
  D = D.astype(p.dtype)
  s = sg.build(p.sym, legs, D, p.rng)
  p.nodes = [(tn.Node(s.t, backend='symmetric'), tn.Node(D, backend='numpy'))]
  for j, k in case['ops']:
    op_trunc(p, 0, j, k)
  ctx.nontrivial('truncated split' in ctx.labels)


def op_scalar(p, i, j, k):
  """Arithmetic of a copy of a node."""
  if not p.nodes:
    return
  s, d = pick(p.nodes, i)
  if any(e in p.gauge for e in s.edges) or not s.edges:
    return
  s, d = tn.Node(s.tensor, backend='symmetric'), tn.Node(d.tensor, backend='numpy')
  x = 1.5 - 3 * (k % 2)
  for w, f in (('*', lambda a: a * x), ('/', lambda a: a / x), ('+', lambda a: a + a), ('-', lambda a: a - a * x)):
    p.ctx.close(f(s).tensor.todense(), f(d).tensor, 'node arithmetic ' + w)
  p.ctx.close(float(tn.linalg.node_linalg.norm(s)), np.linalg.norm(d.tensor), 'norm of a node')


def op_reject(p, i, j, k):
  """Legs that do not match must not be contracted."""
  leg = sg.rand_leg(p.sym, p.rng, [2 + i % 2])
  bad = sg.conj_leg(leg)
  v = bad[0][0].copy()
  kind = k % 4
  if kind == 0:
    bad = leg                      # equal flows
    if not np.any(sg.mod(p.sym, 2 * v)):
      return
  elif kind == 1:
    v[0] = sg.mod(p.sym, v[:1] + 1)[0]
    bad = [(v, bad[0][1])]
  elif kind == 2:
    if np.array_equal(v, v[::-1]):
      return
    bad = [(v[::-1].copy(), bad[0][1])]
  else:
    bad = [(sg.values(p.sym, len(v), p.rng), bad[0][1])]
    if np.array_equal(bad[0][0], v):
      return
  rest = [sg.rand_leg(p.sym, p.rng, [2])]
  p.ctx.label('reject')

  def two():
    a = sg.random_tensor(p.sym, rest + [leg], p.rng, p.dtype)
    b = sg.random_tensor(p.sym, [bad] + rest, p.rng, p.dtype)
    x, y = tn.Node(a.t, backend='symmetric'), tn.Node(b.t, backend='symmetric')
    if j % 3 == 0:
      return tn.ncon([a.t, b.t], [[-1, 1], [1, -2]], backend='symmetric')
    e = x[1] ^ y[0]
    if j % 3 == 1:
      return tn.contract(e)
    return tn.contractors.greedy([x, y], [x[0], y[1]])

  def one():
    a = sg.random_tensor(p.sym, [leg] + rest + [bad], p.rng, p.dtype)
    x = tn.Node(a.t, backend='symmetric')
    if j % 2:
      return tn.ncon([a.t], [[1, -1, 1]], backend='symmetric')
    return tn.contract(x[0] ^ x[2])

  p.ctx.raises(ValueError, one if i % 3 == 0 else two, 'contraction of legs %s and %s' % (sg.show(leg), sg.show(bad)))


OPS = dict(new=op_new, connect=op_connect, self=op_self, disconnect=op_disconnect, contract=op_contract, outer=op_outer,
           flatten=op_flatten, flatten_all=op_flatten_all, split=op_split, reorder=op_reorder, copy=op_copy,
           split_node=op_split_node, trunc=op_trunc, scalar=op_scalar, reject=op_reject)
WEIGHTS = (['new'] * 5 + ['connect'] * 5 + ['self'] * 2 + ['contract'] * 4 + ['flatten'] * 4 + ['split'] * 3 +
           ['reorder'] * 2 + ['split_node'] * 2 + ['disconnect', 'outer', 'flatten_all', 'copy', 'trunc', 'scalar', 'reject'])


def run_net(case, ctx):
  p = Nets(case, ctx)
  for n, (op, i, j, k) in enumerate(case['ops']):
    before = [(s, d) for s, d in p.nodes]
    ctx.label(op)
    what = 'step %d (%s)' % (n, op)
    OPS[op](p, i, j, k)
    p.verify(what)
  del before
  finish(p, case)
  v = p.total(1)
  ctx.nontrivial((p.ncontr + p.nsplit + p.nflat) > 0 and sum(sg.mask_of(p.sym, [p.legs[e] for e, _, _, _ in p.dangling()]).ravel()) >= 2 and np.any(v))


def finish(p, case):
  """Contract a copy of everything with a contractor."""
  if not p.nodes:
    return
  ctx = p.ctx
  want = p.total(1)
  d = p.dangling()
  sn, se = tn.copy([s for s, _ in p.nodes])
  perm = [int(x) for x in p.rng.permutation(len(d))]
  order = [se[d[q][0]] for q in perm]
  names = ['greedy', 'optimal', 'branch', 'auto', 'none', 'ignore']
  name = names[case['final'] % 6]
  if any(0 in s.shape for s, _ in p.nodes):      # opt_einsum finds no path then
    name = 'none'
  ctx.label('contractor ' + name)
  nodes = [sn[s] for s, _ in p.nodes]
  if name == 'none':
    # pairwise by hand
    while len(nodes) > 1:
      a, b = nodes.pop(), nodes.pop()
      nodes.append(tn.contract_between(a, b, allow_outer_product=True))
    r = nodes[0]
    while any(e.is_trace() for e in r.edges):
      r = tn.contract([e for e in r.edges if e.is_trace()][0])
    r.reorder_edges(order)
  elif name == 'ignore':
    r = tn.contractors.greedy(nodes, ignore_edge_order=True)
    ctx.equal(set(r.edges), set(order), 'edges of the contracted network')
    r.reorder_edges(order)
  else:
    r = getattr(tn.contractors, name)(nodes, output_edge_order=order)
  t = np.asarray(r.tensor.todense())
  ctx.close(t, want.transpose(perm), 'contractor ' + name)
  for a, q in enumerate(perm):
    ctx.check(sg.same_leg(sg.read_legs(r.tensor)[a], p.legs[d[q][0]]), 'contractor {}: leg {}', name, a)


def run_ncon(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  dtype = sg.DTYPES[case['dtype'] % 2]
  n = case['n']
  legs = [[] for _ in range(n)]
  labels = [[] for _ in range(n)]
  dims = [[2], [3], [1], [2, 2], [2], [1, 2]]
  outs = {}
  lab = 0
  tot = 1
  for a, b, q in case['edges']:
    l = sg.rand_leg(sym, rng, pick(dims, q))
    if nlegs(legs[a % n]) + len(l) > 7 or nlegs(legs[b % n]) + len(l) > 7:
      continue
    lab += 1
    for m, x in ((a % n, l), (b % n, sg.conj_leg(l))):
      legs[m].append(x)
      labels[m].append(lab)
  for a, q in case['open']:
    l = sg.rand_leg(sym, rng, pick(dims, q))
    if nlegs(legs[a % n]) + len(l) > 7 or tot * sg.leg_dim(l) > 400:
      continue
    tot *= sg.leg_dim(l)
    x = -1 - len(outs)
    outs[x] = l
    legs[a % n].append(l)
    labels[a % n].append(x)
  for m in range(n):
    at = sum(x > 0 for x in labels[m])
    if at < len(legs[m]):
      sg.fill(sym, rng, legs[m], at)
      outs.update((x, l) for x, l in zip(labels[m], legs[m]) if x < 0)
  if any(size(l) > 3000 for l in legs):
    raise Skip('too large')
  ts = []
  for m in range(n):
    perm = [int(x) for x in rng.permutation(len(legs[m]))]
    legs[m] = [legs[m][q] for q in perm]
    labels[m] = [labels[m][q] for q in perm]
    ts.append(sg.random_tensor(sym, legs[m], rng, dtype))
  if any(not l for l in labels):
    raise Skip('a tensor without legs')
  form = case['form'] % 4
  if form == 1:      # string labels; '-' strings sort as text
    mp = {x: ('c%d' % x if x > 0 else '-%d' % -x) for l in labels for x in l}
  elif form == 2:
    mp = {x: (x * 3 if x % 2 else 's%d' % x) if x > 0 else x * 2 for l in labels for x in l}
  else:
    mp = {x: x for l in labels for x in l}
  net = [[mp[x] for x in l] for l in labels]
  kw = {}
  cont = [mp[x] for x in range(1, lab + 1)]
  order = sorted(outs, reverse=True)
  if case['con']:
    kw['con_order'] = [cont[int(q)] for q in rng.permutation(len(cont))]
  if case['out']:
    order = [order[int(q)] for q in rng.permutation(len(order))]
    kw['out_order'] = [mp[x] for x in order]
  args = [t.t for t in ts]
  if case['nodes']:
    args = [tn.Tensor(t, backend='symmetric') for t in args]
  if case['be'] % 2:
    kw['backend'] = get_backend('symmetric') if case['be'] % 4 == 1 else 'symmetric'
  else:
    kw['backend'] = 'symmetric'
  ctx.nontrivial(n >= 2 and lab >= 1 and any(sg.mask_of(sym, l).sum() > 1 for l in legs))
  ctx.label('traces' if any(len(set(l)) < len(l) for l in labels) else 'no trace', 'n:%d' % n)
  r = tn.ncon(args, net, **kw)
  if case['nodes']:
    ctx.check(isinstance(r, tn.Tensor) and r.backend.name == 'symmetric', 'ncon of Tensor objects returned {}', type(r))
    r = r.array
  ein = []
  for t, l in zip(ts, labels):
    ein += [t.dense, [x if x > 0 else lab - x for x in l]]
  want = np.einsum(*ein, [lab - x for x in order], optimize='greedy')
  sg.same_tensor(ctx, r, want, [outs[x] for x in order], sym, 'ncon') if order else ctx.close(
      np.asarray(r.todense() if isinstance(r, bs.ChargeArray) else r).reshape(()), want, 'ncon')
  for m, t in enumerate(ts):
    ctx.check(np.array_equal(t.t.todense(), t.dense), 'ncon changed input {}', m)


def run_backend(case, ctx):
  """Primitives of the symmetric backend against the numpy backend."""
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  dtype = sg.DTYPES[case['dtype'] % 2]
  be, nb = get_backend('symmetric'), get_backend('numpy')
  dims = case['dims']
  legs = sg.rand_legs(sym, rng, dims)
  sg.fill(sym, rng, legs)
  if size(legs) > 3000 or nlegs(legs) > 12:
    raise Skip('too large')
  s = sg.random_tensor(sym, legs, rng, dtype)
  A, D = s.t, s.dense
  n = len(legs)
  k, j = case['k'], case['j']
  op = case['op']
  ctx.label(op)
  ctx.nontrivial(n > 0 and sg.mask_of(sym, legs).sum() >= 2)
  perm = [int(x) for x in rng.permutation(n)]

  def same(r, want, ls, what=op):
    sg.same_tensor(ctx, r, want, ls, sym, what)

  if op == 'shapes':
    ctx.equal(tuple(int(x) for x in be.shape_tuple(A)), nb.shape_tuple(D), 'shape_tuple')
    ctx.equal([int(x) for x in be.shape_tensor(A)], [int(x) for x in nb.shape_tensor(D)], 'shape_tensor')
    ctx.equal(int(be.shape_prod(be.shape_tensor(A))), int(nb.shape_prod(nb.shape_tensor(D))), 'shape_prod')
    ctx.equal([int(x) for x in be.shape_concat([be.shape_tensor(A), [2, 3]], axis=-1)], [int(x) for x in D.shape] + [2, 3],
              'shape_concat')
    for a, i in enumerate(be.sparse_shape(A)):
      ctx.equal(int(i.dim), D.shape[a], 'sparse_shape')
    ctx.check(be.convert_to_tensor(A) is A, 'convert_to_tensor')
    for bad in (D, [1., 2.]):
      ctx.raises(TypeError, lambda: be.convert_to_tensor(bad), 'convert_to_tensor of a dense array')
  elif op == 'transpose':
    if k % 4 == 0:
      same(be.transpose(A), nb.transpose(D), legs[::-1])
    else:
      same(be.transpose(A, tuple(perm)), nb.transpose(D, perm), [legs[q] for q in perm])
  elif op == 'tensordot':
    c = k % (n + 1)
    ax = perm[:c]
    order = [int(x) for x in rng.permutation(c)]
    extra = [sg.rand_leg(sym, rng, [2])]
    lb = [sg.conj_leg(legs[ax[q]]) for q in order] + extra
    mix = [int(x) for x in rng.permutation(len(lb))]
    b = sg.random_tensor(sym, [lb[q] for q in mix], rng, dtype)
    axb = [mix.index(order.index(q)) for q in range(c)]
    rest = [x for a, x in enumerate(legs) if a not in ax] + extra
    if size(rest) > 6000:
      raise Skip('too large')
    if c == 0:
      same(be.tensordot(A, b.t, 0), nb.tensordot(D, b.dense, 0), rest)
    else:
      same(be.tensordot(A, b.t, (ax, axb) if k % 2 else [tuple(ax), tuple(axb)]), nb.tensordot(D, b.dense, (ax, axb)), rest)
  elif op == 'outer':
    b = sg.random_tensor(sym, [sg.rand_leg(sym, rng, [2]) for _ in range(k % 3)], rng, dtype)
    same(be.outer_product(A, b.t), nb.outer_product(D, b.dense), legs + b.legs)
  elif op == 'elementwise':
    b = sg.random_tensor(sym, legs, rng, dtype)
    same(be.addition(A, b.t), nb.addition(D, b.dense), legs, 'addition')
    same(be.subtraction(A, b.t), nb.subtraction(D, b.dense), legs, 'subtraction')
    x = [2.5, -1, 1e-3, 1 + 2j][k % 4]
    same(be.multiply(A, x), nb.multiply(D, x), legs, 'multiply')
    same(be.divide(A, x), nb.divide(D, x), legs, 'divide')
    same(be.conj(A), nb.conj(D), [sg.conj_leg(l) for l in legs], 'conj')
    same(be.abs(A), nb.abs(D), legs, 'abs')
    if dtype == np.float64:
      same(be.sign(A), nb.sign(D), legs, 'sign')
      same(be.sqrt(be.abs(A)), np.sqrt(np.abs(D)), legs, 'sqrt')
    ctx.close(be.norm(A), nb.norm(D), 'norm')
    f = be.jit(lambda y: y * 2.)
    same(f(A), D * 2., legs, 'jit')
  elif op == 'trace':
    leg = sg.rand_leg(sym, rng, pick([[2], [3], [2, 2], [1]], k))
    full = legs[:3] + [leg, sg.conj_leg(leg)]
    if size(full) > 6000:
      raise Skip('too large')
    at = [len(full) - 2, len(full) - 1]
    kw = {}
    if j % 2:
      mix = [int(x) for x in rng.permutation(len(full))]
      full = [full[q] for q in mix]
      at = [mix.index(q) for q in at]
      if j % 4 == 1:
        at = at[::-1]
      kw = dict(axis1=at[0] - (len(full) if k % 2 else 0), axis2=at[1] - (len(full) if k % 3 == 1 else 0))
    b = sg.random_tensor(sym, full, rng, dtype)
    r = be.trace(b.t, **kw)
    want = np.trace(b.dense, axis1=at[0], axis2=at[1])
    same(r, want, [l for a, l in enumerate(full) if a not in at])
    ctx.raises(ValueError, lambda: be.trace(b.t, axis1=at[0], axis2=at[0]), 'trace over equal axes')
  elif op == 'diag':
    leg = legs[0]
    if not leg:
      return
    v = rng.normal(size=sg.leg_dim(leg))
    c = sg.leg_charges(sym, leg)
    x = bs.ChargeArray(v.copy(), [sg.make_charge(sym, c, k % 7, rng)], [False])
    vleg = [(c, False)]
    m = be.diagflat(x)
    same(m, np.diag(v), [vleg, sg.conj_leg(vleg)], 'diagflat')
    dd = be.diagonal(m)
    p_, q_ = sorted(map(tuple, np.c_[c, v].tolist())), sorted(
        map(tuple, np.c_[sg.charge_values(dd.flat_charges[0]), np.asarray(dd.data)].tolist()))
    ctx.check(np.allclose(p_, q_), 'diagonal: {} expected {}', q_, p_)
    rest = [sg.rand_leg(sym, rng, [2])]
    b = sg.random_tensor(sym, rest + [sg.conj_leg(vleg)], rng, dtype)
    same(be.broadcast_right_multiplication(b.t, x), b.dense * v, [rest[0], sg.conj_leg(vleg)], 'broadcast_right_multiplication')
    b = sg.random_tensor(sym, [vleg] + rest, rng, dtype)
    r = be.broadcast_left_multiplication(x, b.t)
    ctx.close(r.todense(), v[:, None] * b.dense, 'broadcast_left_multiplication')
    y = sg.random_tensor(sym, [vleg, rest[0]], rng, dtype)
    ctx.raises(ValueError, lambda: be.broadcast_left_multiplication(y.t, b.t), 'broadcast_left_multiplication by a matrix')
    ctx.raises(ValueError, lambda: be.broadcast_right_multiplication(b.t, y.t), 'broadcast_right_multiplication by a matrix')
  elif op == 'matmul':
    leg = sg.rand_leg(sym, rng, pick([[2], [3], [2, 2]], k))
    o = [sg.rand_leg(sym, rng, [2]), sg.rand_leg(sym, rng, [3])]
    a = sg.random_tensor(sym, [o[0], leg], rng, dtype)
    b = sg.random_tensor(sym, [sg.conj_leg(leg), o[1]], rng, dtype)
    same(be.matmul(a.t, b.t), a.dense @ b.dense, o)
    c = sg.random_tensor(sym, [o[0], leg, o[1]], rng, dtype)
    ctx.raises(ValueError, lambda: be.matmul(c.t, b.t), 'matmul of a rank-3 tensor')
  elif op == 'create':
    idx = [sg.make_leg_index(sym, l, rng) for l in legs]
    m = sg.mask_of(sym, legs).astype(float)
    dt = [None, np.float64, np.complex128, np.float32][k % 4]
    for nm, want in (('ones', m), ('zeros', 0 * m)):
      if not legs:
        break
      r = getattr(be, nm)(idx, dtype=dt)
      same(r, want, legs, nm)
      ctx.equal(np.dtype(r.dtype), np.dtype(dt or np.float64), nm + ': dtype')
    if legs:
      l2 = [legs[0], sg.conj_leg(legs[0])]
      r = be.eye(idx[0], dtype=dt)
      same(r, np.eye(sg.leg_dim(legs[0])), l2, 'eye')
      ctx.equal(np.dtype(r.dtype), np.dtype(dt or np.float64), 'eye: dtype')
  elif op == 'item':
    l = sg.rand_leg(sym, rng, [1])
    a = sg.random_tensor(sym, [l, sg.conj_leg(l)], rng, dtype)
    ctx.close(be.item(a.t), a.dense.item(), 'item')
  ctx.check(np.array_equal(A.todense(), D), '{} changed its argument', op)


u = st.integers(0, 63)
g_net = st.fixed_dictionaries(dict(
    sym=st.integers(0, len(sg.SYMS) - 1), seed=seeds, dtype=st.integers(0, 1), final=st.integers(0, 5),
    ops=st.tuples(st.lists(st.tuples(st.sampled_from(['new', 'new', 'connect']), u, u, u), min_size=2, max_size=4),
                  st.lists(st.tuples(st.sampled_from(WEIGHTS), u, u, u), min_size=2, max_size=12),
                  st.lists(st.tuples(st.sampled_from(['contract', 'split_node', 'contract', 'flatten']), u, u, u),
                           max_size=2)).map(lambda x: [o for y in x for o in y])))
g_ncon = st.fixed_dictionaries(dict(
    sym=st.integers(0, len(sg.SYMS) - 1), seed=seeds, dtype=st.integers(0, 1), n=st.integers(1, 4),
    edges=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3), u), max_size=6),
    open=st.lists(st.tuples(st.integers(0, 3), u), max_size=4), form=st.integers(0, 3), con=st.booleans(),
    out=st.booleans(), nodes=st.booleans(), be=st.integers(0, 3)))
g_backend = st.fixed_dictionaries(dict(
    sym=st.integers(0, len(sg.SYMS) - 1), seed=seeds, dtype=st.integers(0, 1), k=u, j=u,
    dims=st.lists(st.lists(st.sampled_from([2, 3, 1, 2, 3, 4, 2, 0, 3]), min_size=1, max_size=2), min_size=1, max_size=4),
    op=st.sampled_from(['shapes', 'transpose', 'tensordot', 'outer', 'elementwise', 'trace', 'diag', 'matmul', 'create', 'item'])))

def run_matrixfun(case, ctx):
  """eigh, inv, norm and the decompositions of the backend."""
  if case['op'] in ('svd', 'qr', 'rq'):
    c13.run_split(case, ctx)
    return
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  be = get_backend('symmetric')
  row = sg.rand_legs(sym, rng, case['dims'][:1], 1)[0]
  if sg.leg_dim(row) > 60:
    raise Skip('too large')
  dtype = sg.DTYPES[case['dtype'] % 2]
  M = c13.fill(sym, row, sg.conj_leg(row), rng, dtype, 'herm' if case['op'] == 'eigh' else 'well')
  s = sg.build(sym, [row, sg.conj_leg(row)], M, rng)
  scale = 1 + np.abs(M).max(initial=0) * math.sqrt(len(M) or 1)
  ctx.nontrivial(len(M) >= 2)
  ctx.label(case['op'])
  if case['op'] == 'eigh':
    E, V = be.eigh(s.t)
    v, e = c13.dense(ctx, V, sym, 'eigh: V'), np.asarray(E.data)
    c13.check_legs(ctx, V, [row, [(sg.read_legs(E)[0][0][0], True)]], 'eigh: V')
    ctx.close(M @ v, v * e[None, :], 'eigh: A V = V E', 1e-7, scale)
    c13.isometry(ctx, v, 'eigh: V', 1e-8)
    c13.sorted_close(ctx, e, np.linalg.eigvalsh(M) if len(M) else np.zeros(0), 'eigh: spectrum', 1e-8, scale)
  elif case['op'] == 'inv':
    sg.same_tensor(ctx, be.inv(s.t), np.linalg.inv(M.astype(np.complex128)), s.legs, sym, 'inv', 1e-7)
    t3 = sg.random_tensor(sym, [row, sg.conj_leg(row), row], rng)
    ctx.raises(ValueError, lambda: be.inv(t3.t), 'inv of a tensor of rank 3')
  ctx.close(np.asarray(be.norm(s.t)), np.asarray(np.linalg.norm(M)), 'norm', 1e-8, scale)
  ctx.check(np.array_equal(s.t.todense(), M), '{} changed its argument', case['op'])


g_matrixfun = st.one_of(c13.g_split, st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3), op=st.sampled_from(['eigh', 'inv']),
    dims=st.lists(c13.leg1, min_size=1, max_size=1))))
g_trunc = st.fixed_dictionaries(dict(
    sym=st.integers(0, len(sg.SYMS) - 1), seed=seeds, dtype=st.integers(0, 1), spread=st.sampled_from([0, 0.5, 1]),
    dims=st.lists(st.integers(1, 9), min_size=2, max_size=4), ops=st.lists(st.tuples(u, u), min_size=1, max_size=3)))

PARTS = [Part('net', lambda: g_net, run_net, 3500, 60000), Part('ncon', lambda: g_ncon, run_ncon, 2000, 30000),
         Part('backend', lambda: g_backend, run_backend, 2500, 30000),
         Part('trunc', lambda: g_trunc, run_trunc, 1500, 20000),
         Part('matrix', lambda: g_matrixfun, run_matrixfun, 2000, 30000),
         Part('krylov', lambda: symkrylov.strategy, symkrylov.run, 600, 8000),
         Part('random', lambda: c26.g_symmetric, c26.run_symmetric, 500, 6000)]
