"""C01: graph editing keeps a network well formed and its represented tensor exact."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from vt.core import Part, Violation
from vt.gens import arr, pick
from vt.graphmodel import Net, MNode, UNNAMED_E, UNNAMED_N, meinsum

ID = 'C01'
RULE = ('Random histories of up to 25 node/edge operations (27 kinds, legal and illegal requests) '
        'on networks of up to 6 nodes, interpreted on tensornetwork and on an independent graph '
        'model (NumPy arrays + edge ids); after each step every node, axis, edge, name and array '
        'is compared. Non-trivial: at least 4 state-changing operations took effect and at least '
        'one consumed or reshaped an edge.')
ASSUMPTIONS = ['split/fold operations are exercised on Node objects (copy nodes: C25)',
               'axis names after flattening or splitting an edge are unspecified (documented / TODO '
               'in the code); only their number is checked']

DIMS = [1, 2, 3, 4, 6]
OPS = ['new', 'new', 'new', 'connect', 'connect', 'connect', 'connect', 'connect', 'disconnect',
       'reorder_edges', 'reorder_axes', 'names', 'contract', 'contract', 'between', 'between',
       'trace_all', 'parallel', 'matmul', 'outer', 'final', 'flatten', 'flatten', 'flatten_between',
       'flatten_all', 'split_edge', 'split_edge', 'slice', 'split_node', 'remove', 'redirect',
       'copy', 'set', 'arith', 'illegal', 'from_order', 'split_any']


def ops_strategy(max_ops):
  args = st.lists(st.integers(0, 59), min_size=6, max_size=6)
  return st.tuples(
      st.lists(st.tuples(st.just('new'), args), min_size=1, max_size=3),
      st.lists(st.tuples(st.just('connect'), args), min_size=1, max_size=4),
      st.lists(st.tuples(st.sampled_from(OPS), args), min_size=3, max_size=max_ops),
  ).map(lambda t: t[0] + t[1] + t[2])


def perm_of(seq, k):
  """k-th pseudo-permutation of seq (Lehmer code)."""
  seq = list(seq)
  out = []
  k = int(k)
  while seq:
    out.append(seq.pop(k % len(seq)))
    k = k // 2 + 1 if len(seq) else 0
  return out


def factor(d, k):
  """A list of factors with product d."""
  opts = [(a, d // a) for a in range(1, d + 1) if d % a == 0]
  a, b = opts[k % len(opts)]
  if k % 5 == 0:
    o2 = [(x, b // x) for x in range(1, b + 1) if b % x == 0]
    x, y = o2[(k // 5) % len(o2)]
    return [a, x, y]
  return [a, b]


class Machine:
  def __init__(self, case, ctx):
    self.ctx = ctx
    self.net = Net(ctx, case['backend'])
    self.kind = case['kind']
    self.lim = 6 if case['backend'] == 'tensorflow' else 10  # TF traces at most rank 6
    self.seed = case['seed']
    self.count = 0
    self.effective = 0
    self.deep = 0
    self.consumed = []   # (node, ) old real nodes, old real edges

  # helpers
  def fresh_seed(self):
    self.count += 1
    return self.seed + 7919 * self.count

  def name(self, k):
    return None if k % 3 == 0 else ['n', 'node', 'N 1', 'x'][k % 4] + str(k)

  def gone_edges(self, reals, where):
    for r in reals:
      self.ctx.check(r.is_disabled, '{}: a contracted/merged edge is still enabled', where)
      for attr in ('node1', 'node2', 'axis1', 'name'):
        self.ctx.raises(ValueError, lambda a=attr: getattr(r, a), where + ': reading %s of a dead edge' % attr)
      self.ctx.raises(ValueError, lambda: setattr(r, 'name', 'z'), where + ': naming a dead edge')

  def detached(self, real, where, arr_before):
    """A consumed node has its own fresh dangling edges and an unchanged tensor."""
    ctx = self.ctx
    ctx.equal(len(real.edges), len(real.shape), where + ': consumed node edges')
    ids = set()
    for i, e in enumerate(real.edges):
      ctx.check(e.is_dangling() and e.node1 is real and e.axis1 == i,
                '{}: consumed node keeps a stale edge on axis {}', where, i)
      ids.add(id(e))
    ctx.check(not ids & {id(m.real) for m in self.net.edges.values()},
              '{}: consumed node shares an edge with the network', where)
    ctx.close(np.asarray(real.tensor), arr_before, where + ': tensor of a consumed node', tol=1e-9)

  def replace(self, old, real, array, eids, name, axis_names=None):
    """Model nodes `old` are replaced by one new node."""
    net = self.net
    ctx = self.ctx
    for o in old:
      ctx.check(o.real is not real, 'contraction returned one of its operands')
    net.nodes = [n for n in net.nodes if n not in old]
    net.nodes.append(MNode(real, array, eids, UNNAMED_N if name is None else name,
                           axis_names if axis_names is not None else
                           [str(i) for i in range(len(eids))]))

  # operations -- each returns True when it changed something
  def op_new(self, a):
    net = self.net
    if len(net.nodes) >= 6:
      return False
    rank = a[0] % 5
    shape = [DIMS[x % 5] if rank < 4 else DIMS[x % 3] for x in a[1:1 + rank]]
    while int(np.prod(shape)) > 200:
      shape[int(np.argmax(shape))] = 2
    names = ['ax%d' % ((a[5] + i) % 60) for i in range(rank)] if a[5] % 2 else None
    net.add_node(arr(shape, self.fresh_seed(), self.kind), self.name(a[5] // 2), names)
    return True

  def op_connect(self, a):
    net = self.net
    d = net.dangling()
    pairs = [(x, y) for x in d for y in d if x != y and net.dim(x) == net.dim(y)]
    if not pairs:
      return False
    # favour several edges between the same nodes and traces
    x, y = pick(pairs, a[0] * 60 + a[1])
    (nx, ix), = net.ends(x)
    (ny, iy), = net.ends(y)
    rx, ry = net.R(x), net.R(y)
    if a[2] % 3 == 0:
      real = rx ^ ry
      name = net.edges[x].name
    else:
      name = self.name(a[3])
      real = tn.connect(rx, ry, name)
      if name is None:
        name = UNNAMED_E
    self.ctx.check(real.node1 is nx.real and real.axis1 == ix and real.node2 is ny.real
                   and real.axis2 == iy, 'connect: ends of the new edge are not the given ones')
    e = net.new_eid(real, name)
    nx.eids[ix] = e
    ny.eids[iy] = e
    return True

  def op_disconnect(self, a):
    net = self.net
    c = net.nondangling()
    if not c:
      return False
    e = pick(c, a[0])
    r = net.R(e)
    old = (r.node1, r.axis1, r.node2, r.axis2)
    oldname = r.name
    n1, n2 = None, None
    if a[1] % 3 == 0:
      res = r | r
    elif a[1] % 3 == 1:
      n1, n2 = self.name(a[2]), self.name(a[3])
      res = tn.disconnect(r, n1, n2)
    else:
      n1, n2 = self.name(a[2]), self.name(a[3])
      res = r.disconnect(n1, n2)
    n1 = n1 or '__disconnected_edge1_of_%s__' % oldname
    n2 = n2 or '__disconnected_edge2_of_%s__' % oldname
    self.ctx.equal(len(res), 2, 'disconnect result')
    for x, nd, ax, nm in ((res[0], old[0], old[1], n1), (res[1], old[2], old[3], n2)):
      m = [n for n in net.nodes if n.real is nd][0]
      m.eids[ax] = net.new_eid(x, nm)
    return True

  def op_reorder_edges(self, a):
    net = self.net
    c = [n for n in net.nodes if n.rank > 0]
    if not c:
      return False
    n = pick(c, a[0])
    perm = perm_of(range(n.rank), a[1])
    order = [net.R(n.eids[p]) for p in perm]
    if net.has_trace(n):
      self.ctx.raises(ValueError, lambda: n.real.reorder_edges(order), 'reorder_edges with trace edges')
      return False
    bad = a[2] % 6
    if bad == 0 and n.rank > 1:
      self.ctx.raises(ValueError, lambda: n.real.reorder_edges(order[1:]), 'reorder_edges, missing edge')
      self.ctx.raises(ValueError, lambda: n.real.reorder_edges(order + order[:1]),
                      'reorder_edges, repeated edge')
      return False
    others = [m for m in net.nodes if m is not n and m.rank]
    if bad == 1 and others:
      f = [e for e in others[0].eids if e not in n.eids]
      if f:
        self.ctx.raises(ValueError, lambda: n.real.reorder_edges(order[1:] + [net.R(f[0])]),
                        'reorder_edges, foreign edge')
        self.ctx.raises(ValueError, lambda: n.real.reorder_edges(order + [net.R(f[0])]),
                        'reorder_edges, extra edge')
        return False
    given = list(order)
    r = n.real.reorder_edges(order)
    self.ctx.check(r is n.real, 'reorder_edges must return the node')
    self.ctx.check(order == given, 'reorder_edges changed its argument')
    order.append(None)   # the node must not alias the caller's list
    net.m_reorder(n, perm)
    return True

  def op_reorder_axes(self, a):
    net = self.net
    c = [n for n in net.nodes if n.rank > 0]
    if not c:
      return False
    n = pick(c, a[0])
    perm = perm_of(range(n.rank), a[1])
    if a[2] % 8 == 0 and n.rank > 1:
      self.ctx.raises(ValueError, lambda: n.real.reorder_axes(perm[1:]), 'reorder_axes, incomplete')
      self.ctx.raises(ValueError, lambda: n.real.reorder_axes([p + 1 for p in perm]),
                      'reorder_axes, out of range')
      return False
    r = n.real.reorder_axes(list(perm))
    self.ctx.check(r is n.real, 'reorder_axes must return the node')
    net.m_reorder(n, perm)
    return True

  def op_names(self, a):
    net = self.net
    if not net.nodes:
      return False
    n = pick(net.nodes, a[0])
    k = a[1] % 5
    if k == 0:
      nm = 'name%d' % a[2]
      (n.real.set_name if a[3] % 2 else lambda v: setattr(n.real, 'name', v))(nm)
      n.name = nm
    elif k == 1:
      names = ['q%d' % ((a[2] + i) % 60) for i in range(n.rank)]
      given = list(names)
      if a[3] % 2:
        n.real.add_axis_names(given)
      else:
        n.real.axis_names = given
      n.axis_names = names
    elif k == 2:
      if n.rank < 2:
        return False
      self.ctx.raises(ValueError, lambda: n.real.add_axis_names(['z'] * n.rank), 'repeated axis names')
      self.ctx.raises(ValueError, lambda: n.real.add_axis_names(['z']), 'too few axis names')
      self.ctx.raises(TypeError, lambda: n.real.set_name(3), 'non-string node name')
      return False
    elif k == 3:
      if not n.eids:
        return False
      e = pick(n.eids, a[2])
      nm = 'edge%d' % a[3]
      (net.R(e).set_name if a[4] % 2 else lambda v: setattr(net.R(e), 'name', v))(nm)
      net.edges[e].name = nm
    else:
      if not n.eids:
        return False
      self.ctx.raises(TypeError, lambda: net.R(n.eids[0]).set_name(3), 'non-string edge name')
      self.ctx.raises(ValueError, lambda: n.real.get_edge('no such axis'), 'unknown axis name')
      return False
    return True

  def op_contract(self, a):
    net = self.net
    c = net.nondangling()
    if not c:
      if net.dangling():
        r = net.R(pick(net.dangling(), a[0]))
        self.ctx.raises(ValueError, lambda: tn.contract(r), 'contract a dangling edge')
        self.ctx.raises(ValueError, lambda: tn.contract_parallel(r), 'contract_parallel, dangling edge')
      return False
    e = pick(c, a[0])
    r = net.R(e)
    name = self.name(a[1])
    if net.is_trace(e):
      n = net.ends(e)[0][0]
      array, eids = net.m_trace(n, [e])
      real = tn.contract(r, name=name)
      old = n.arr
      self.replace([n], real, array, eids, name if name is not None else n.name)
      self.gone_edges([r], 'contract(trace)')
      self.detached(n.real, 'contract(trace)', old)
    else:
      (na, _), (nb, _) = net.ends(e)
      if r.node1 is nb.real:
        na, nb = nb, na
      if na.arr.size * nb.arr.size / net.dim(e) ** 2 > 3000 or na.rank + nb.rank > self.lim:
        return False
      array, eids = net.m_contract_pair(na, nb, [e])
      ax = ['c%d' % i for i in range(len(eids))] if a[2] % 3 == 0 else None
      real = tn.contract(r, name=name, axis_names=ax)
      self.replace([na, nb], real, array, eids, name, ax)
      self.gone_edges([r], 'contract')
      self.detached(na.real, 'contract', na.arr)
      self.detached(nb.real, 'contract', nb.arr)
    self.deep += 1
    return True

  def _between(self, na, nb, a, call):
    net = self.net
    sh = net.shared(na, nb)
    rs = [net.R(e) for e in sh]
    d = int(np.prod([net.dim(e) for e in sh])) if sh else 1
    if na is not nb and (na.arr.size * nb.arr.size / d ** 2 > 3000 or na.rank + nb.rank > self.lim):
      return False
    if na is nb:
      array, eids = net.m_trace(na, sh)
    else:
      array, eids = net.m_contract_pair(na, nb, sh)
    kw = {}
    name = None
    ax = None
    if call == 'between':
      name = self.name(a[1])
      kw['name'] = name
      if a[2] % 3 == 0 and eids and len(set(eids)) == len(eids):
        perm = perm_of(range(len(eids)), a[3])
        kw['output_edge_order'] = [net.R(eids[p]) for p in perm]
        array = array.transpose(perm)
        eids = [eids[p] for p in perm]
      if a[2] % 4 == 1:
        ax = ['b%d' % i for i in range(len(eids))]
        kw['axis_names'] = list(ax)
      if not sh and na is not nb:
        kw['allow_outer_product'] = True
      real = tn.contract_between(na.real, nb.real, **kw)
    elif call == 'parallel':
      e = rs[a[1] % len(rs)]
      if na is not nb and e.node1 is nb.real:
        array, eids = net.m_contract_pair(nb, na, sh)
      real = tn.contract_parallel(e)
    elif call == 'matmul':
      real = na.real @ nb.real
    elif call == 'trace_all':
      real = tn.contract_trace_edges(na.real)
    if name is None and na is nb:
      name = na.name
    olds = [na] if na is nb else [na, nb]
    before = [o.arr for o in olds]
    self.replace(olds, real, array, eids, name, ax)
    if ax is None and 'output_edge_order' in kw:
      net.nodes[-1].axis_names = None
    self.gone_edges(rs, call)
    for o, b in zip(olds, before):
      if na is nb:
        b = np.asarray(o.real.tensor)    # flattened in place first (documented)
      self.detached(o.real, call, b)
    self.deep += 1
    return True

  def op_between(self, a):
    net = self.net
    if not net.nodes:
      return False
    cand = [(x, y) for x in net.nodes for y in net.nodes if net.shared(x, y)]
    free = [(x, y) for x in net.nodes for y in net.nodes if x is not y and not net.shared(x, y)]
    if a[5] % 4 == 0 and free:
      x, y = pick(free, a[0])
      self.ctx.raises(ValueError, lambda: tn.contract_between(x.real, y.real),
                      'contract_between without shared edges')
      return self._between(x, y, a, 'between')
    if not cand:
      return False
    x, y = pick(cand, a[0])
    return self._between(x, y, a, 'between')

  def op_parallel(self, a):
    c = self.net.nondangling()
    if not c:
      return False
    e = pick(c, a[0])
    (x, _), (y, _) = self.net.ends(e)
    return self._between(x, y, a, 'parallel')

  def op_matmul(self, a):
    net = self.net
    cand = [(x, y) for x in net.nodes for y in net.nodes if net.shared(x, y)]
    if not cand:
      return False
    x, y = pick(cand, a[0])
    return self._between(x, y, a, 'matmul')

  def op_trace_all(self, a):
    net = self.net
    if not net.nodes:
      return False
    c = [n for n in net.nodes if net.has_trace(n)]
    if not c:
      n = pick(net.nodes, a[0])
      self.ctx.check(tn.contract_trace_edges(n.real) is n.real, 'contract_trace_edges without trace edges')
      self.ctx.raises(ValueError, lambda: tn.contract_between(n.real, n.real), 'no trace edges')
      return False
    n = pick(c, a[0])
    return self._between(n, n, a, 'trace_all')

  def op_outer(self, a):
    net = self.net
    c = [(x, y) for x in net.nodes for y in net.nodes if x is not y
         and x.arr.size * y.arr.size <= 3000 and x.rank + y.rank <= self.lim - 2]
    if not c:
      return False
    x, y = pick(c, a[0])
    name = self.name(a[1])
    array, eids = net.m_contract_pair(x, y, [])
    ax = ['o%d' % i for i in range(len(eids))] if a[2] % 3 == 0 else None
    real = tn.outer_product(x.real, y.real, name=name, axis_names=ax)
    self.replace([x, y], real, array, eids, name, ax)
    self.detached(x.real, 'outer_product', x.arr)
    self.detached(y.real, 'outer_product', y.arr)
    self.deep += 1
    return True

  def op_final(self, a):
    net = self.net
    c = [n for n in net.nodes if all(len(net.ends(e)) == 1 for e in n.eids)]
    bad = [n for n in net.nodes if n not in c]
    if bad and a[3] % 3 == 0:
      self.ctx.raises(ValueError, lambda: tn.outer_product_final_nodes([n.real for n in bad], []),
                      'outer_product_final_nodes with connected nodes')
    c = perm_of(c, a[0])[:1 + a[1] % 3]
    if not c or np.prod([float(n.arr.size) for n in c]) > 3000 or sum(n.rank for n in c) > self.lim:
      return False
    eids = [e for n in c for e in n.eids]
    array = meinsum([(n.arr, n.eids) for n in c], eids)
    perm = perm_of(range(len(eids)), a[2])
    order = [net.R(eids[p]) for p in perm]
    array = array.transpose(perm)
    eids = [eids[p] for p in perm]
    if len(c) == 1:
      names = c[0].axis_names
      real = tn.outer_product_final_nodes([c[0].real], order)
      net.m_reorder(c[0], perm)
      self.ctx.check(real is c[0].real, 'outer_product_final_nodes of one node')
      return True
    real = tn.outer_product_final_nodes([n.real for n in c], order)
    self.replace(c, real, array, eids, None, None)
    net.nodes[-1].axis_names = None
    self.deep += 1
    return True

  def _groups(self):
    """Lists of edge ids that may be flattened together."""
    net = self.net
    out = []
    for i, x in enumerate(net.nodes):
      d = [e for e in x.eids if len(net.ends(e)) == 1]
      if d:
        out.append(d)
      for y in net.nodes[i:]:
        s = net.shared(x, y)
        if s:
          out.append(s)
    return out

  def op_flatten(self, a):
    net = self.net
    g = self._groups()
    g = [x for x in g if len(x) > 1] or g
    if not g:
      return False
    if a[4] % 6 == 0:
      self.ctx.raises(ValueError, lambda: tn.flatten_edges([]), 'flatten nothing')
      two = [x for x in self._groups()]
      if len(two) > 1:
        self.ctx.raises(ValueError, lambda: tn.flatten_edges([net.R(two[0][0]), net.R(two[1][0])]),
                        'flatten edges of different nodes')
      return False
    grp = perm_of(pick(g, a[0]), a[1])
    k = 1 + a[2] % len(grp)
    if a[2] % 2:
      k = len(grp)
    grp = grp[:k]
    reals = [net.R(e) for e in grp]
    name = self.name(a[3])
    given = list(reals)
    res = tn.flatten_edges(given, name)
    self.ctx.check(given == reals, 'flatten_edges changed its argument')
    if len(grp) == 1:
      self.ctx.check(res is reals[0], 'flattening a single edge must return it')
      return False
    trace = net.is_trace(grp[0])
    owners = []
    for e in grp:
      for n, _ in net.ends(e):
        if n not in owners:
          owners.append(n)
    newe = net.new_eid(res, name if name is not None else UNNAMED_E)
    for n in owners:
      if trace:
        pos = [[i for i, e in enumerate(n.eids) if e == x] for x in grp]
        back = [p[0] for p in pos] + [p[1] for p in pos]
        front = [i for i in range(n.rank) if i not in back]
        m = int(np.prod([n.arr.shape[p[0]] for p in pos]))
        n.arr = n.arr.transpose(front + back).reshape([n.arr.shape[i] for i in front] + [m, m])
        n.eids = [n.eids[i] for i in front] + [newe, newe]
      else:
        back = [n.eids.index(x) for x in grp]
        front = [i for i in range(n.rank) if i not in back]
        m = int(np.prod([n.arr.shape[p] for p in back]))
        n.arr = n.arr.transpose(front + back).reshape([n.arr.shape[i] for i in front] + [m])
        n.eids = [n.eids[i] for i in front] + [newe]
      n.axis_names = None
    self.gone_edges(reals, 'flatten_edges')
    self.deep += 1
    return True

  def _adopting(self, fn, where, before_pairs=None):
    """Runs fn, re-reads the structure and checks that the network value is unchanged."""
    net = self.net
    dang = {e: net.dim(e) for e in net.dangling()}
    p0 = net.probe()
    fn()
    net.adopt(where)
    self.ctx.equal({e: net.dim(e) for e in net.dangling()}, dang, where + ': dangling edges changed')
    self.ctx.close(net.probe(), p0, where + ': value of the network', tol=1e-9)
    return True

  def op_flatten_between(self, a):
    net = self.net
    if len(net.nodes) < 1:
      return False
    cand = [(x, y) for x in net.nodes for y in net.nodes if len(net.shared(x, y)) > 1]
    x, y = pick(cand, a[0]) if cand else (pick(net.nodes, a[0]), pick(net.nodes, a[1]))
    sh = net.shared(x, y)
    box = []
    d = int(np.prod([net.dim(e) for e in sh])) if sh else 0
    olds = [net.R(e) for e in sh]
    self._adopting(lambda: box.append(tn.flatten_edges_between(x.real, y.real)), 'flatten_edges_between')
    if not sh:
      self.ctx.check(box[0] is None, 'flatten_edges_between without shared edges must give None')
    elif len(sh) == 1:
      self.ctx.check(box[0] is net.R(sh[0]), 'flatten_edges_between of a single edge returns it')
    else:
      self.ctx.equal([net.R(e) for e in net.shared(x, y)], [box[0]], 'flattened edge')
      self.ctx.equal(box[0].dimension, d, 'dimension of the flattened edge')
      self.gone_edges(olds, 'flatten_edges_between')
      self.deep += 1
    return bool(sh)

  def op_flatten_all(self, a):
    net = self.net
    if not net.nodes:
      return False
    pairs = [(x, y) for i, x in enumerate(net.nodes) for y in net.nodes[i:] if net.shared(x, y)]
    dims = [int(np.prod([net.dim(e) for e in net.shared(x, y)])) for x, y in pairs]
    box = []
    self._adopting(lambda: box.extend(tn.flatten_all_edges({n.real for n in net.nodes})),
                   'flatten_all_edges')
    for (x, y), d in zip(pairs, dims):
      s = net.shared(x, y)
      self.ctx.equal(len(s), 1, 'flatten_all_edges leaves parallel edges')
      self.ctx.equal(net.dim(s[0]), d, 'dimension of a flattened edge')
      self.ctx.check(any(b is net.R(s[0]) for b in box), 'flatten_all_edges omits an edge in its result')
    self.ctx.equal(len(box), len(pairs), 'number of edges returned by flatten_all_edges')
    if pairs:
      self.deep += 1
    return bool(pairs)

  def op_split_edge(self, a, cands=None):
    net = self.net
    c = cands if cands is not None else [e for e in net.live() if net.dim(e) > 3] or net.live()
    if not c:
      return False
    e = pick(c, a[0])
    d = net.dim(e)
    r = net.R(e)
    if a[4] % 6 == 0:
      self.ctx.raises(ValueError, lambda: tn.split_edge(r, (d, 2)), 'split_edge with wrong shape')
      self.ctx.raises(ValueError, lambda: tn.split_edge(r, (d + 1,)), 'split_edge with wrong shape')
      return False
    if a[4] % 6 == 1:
      self.ctx.equal(tn.split_edge(r, (d,)), [r], 'trivial split')
      return False
    shape = tuple(factor(d, a[1]))
    if any(n.rank + 2 * len(shape) > self.lim - 1 for n, _ in net.ends(e)):
      return False
    names = ['s%d' % ((a[2] + i) % 60) for i in range(len(shape))] if a[2] % 2 else None
    trace = net.is_trace(e)
    ends = net.ends(e)
    given = list(names) if names else None
    res = tn.split_edge(r, shape, given)
    self.ctx.equal(len(res), len(shape), 'number of edges after split_edge')
    new = [net.new_eid(x, names[i] if names else UNNAMED_E) for i, x in enumerate(res)]
    for n in ([ends[0][0]] if trace else [n for n, _ in ends]):
      back = [i for i, x in enumerate(n.eids) if x == e]
      front = [i for i in range(n.rank) if i not in back]
      n.arr = n.arr.transpose(front + back).reshape(
          [n.arr.shape[i] for i in front] + list(shape) * len(back))
      n.eids = [n.eids[i] for i in front] + new * len(back)
      n.axis_names = None
    self.gone_edges([r], 'split_edge')
    self.deep += 1
    return True

  def op_split_any(self, a):
    net = self.net
    t = [e for e in net.nondangling() if net.is_trace(e)] or net.nondangling()
    return self.op_split_edge(a, t)

  def op_slice(self, a):
    net = self.net
    c = [e for e in net.live() if net.dim(e) > 1] or net.live()
    if not c:
      return False
    e = pick(c, a[0])
    d = net.dim(e)
    r = net.R(e)
    k = a[3] % 6
    if k == 0:
      for s, l in ((0, 0), (0, -1), (0, d + 1), (1, d), (d, 1)):
        self.ctx.raises(ValueError, lambda: tn.slice_edge(r, s, l), 'slice_edge(%d, %d), dim %d' % (s, l, d))
      return False
    if k == 1:
      for s, l in ((-1, 2), (-d - 1, 1), (-d - 2, 2), (-d - 1, d + 1)):
        self.ctx.raises(ValueError, lambda: tn.slice_edge(r, s, l), 'slice_edge(%d, %d), dim %d' % (s, l, d))
      return False
    start = a[1] % d
    length = 1 + a[2] % (d - start)
    give = start - d if k == 2 else start
    res = tn.slice_edge(r, give, length)
    self.ctx.check(res is r, 'slice_edge must return the edge')
    for n, i in net.ends(e):
      n.arr = np.take(n.arr, range(start, start + length), axis=i)
    return True

  def op_split_node(self, a):
    net = self.net
    c = [n for n in net.nodes if n.rank >= 2 and not net.has_trace(n)]
    if not c or len(net.nodes) >= 8:
      return False
    n = pick(c, a[0])
    order = perm_of(n.eids, a[1])
    k = 1 + a[2] % (len(order) - 1)
    le, re = order[:k], order[k:]
    L, Rr = [net.R(e) for e in le], [net.R(e) for e in re]
    ln, rn = self.name(a[3]), self.name(a[3] + 1)
    en = self.name(a[4])
    if en is not None:     # a name that clashes with an axis name is rejected
      en += '_%d' % self.fresh_seed()
    old = n.arr
    mid = None
    how = a[5] % 4
    if how == 0:
      left, right, tr = tn.split_node(n.real, L, Rr, left_name=ln, right_name=rn, edge_name=en)
      self.ctx.equal(int(np.asarray(tr).size), 0, 'nothing may be truncated')
    elif how == 1:
      left, right = tn.split_node_qr(n.real, L, Rr, left_name=ln, right_name=rn, edge_name=en)
    elif how == 2:
      left, right = tn.split_node_rq(n.real, L, Rr, left_name=ln, right_name=rn, edge_name=en)
    else:
      left, mid, right, tr = tn.split_node_full_svd(n.real, L, Rr, left_name=ln, right_name=rn,
                                                    left_edge_name=en)
    net.nodes.remove(n)
    new = []
    for real, nm in ((left, ln), (mid, None), (right, rn)):
      if real is None:
        continue
      m = MNode(real, np.asarray(real.tensor), [], UNNAMED_N if nm is None else nm, None)
      if real is mid:
        m.name = None
      new.append(m)
      net.nodes.append(m)
    net.adopt('split_node', new)
    ctx = self.ctx
    b1 = new[0].eids[-1]
    b2 = new[-1].eids[0]
    ctx.equal(new[0].eids, le + [b1], 'edges of the left node')
    ctx.equal(new[-1].eids, [b2] + re, 'edges of the right node')
    if mid is not None:
      ctx.equal(new[1].eids, [b1, b2], 'edges of the middle node')
    else:
      ctx.equal(b1, b2, 'the parts are not connected')
    got = meinsum([(m.arr, m.eids) for m in new], n.eids)
    ctx.close(got, old, 'split parts do not contract to the node', tol=1e-9)
    ctx.equal(net.R(b1).name, en if en is not None else UNNAMED_E, 'name of the new edge')
    self.detached(n.real, 'split_node', old)
    self.deep += 1
    return True

  def op_remove(self, a):
    net = self.net
    if not net.nodes:
      return False
    n = pick(net.nodes, a[0])
    want = {}
    for i, e in enumerate(n.eids):
      o = [(m, j) for m, j in net.ends(e) if m is not n]
      if o:
        want[i] = (o[0], n.real.axis_names[i], net.R(e))
    uniq = len(set(n.real.axis_names)) == n.rank
    by_name, by_axis = tn.remove_node(n.real)
    self.ctx.equal(set(by_axis), set(want), 'remove_node: axes')
    if uniq:
      self.ctx.equal(set(by_name), {w[1] for w in want.values()}, 'remove_node: names')
    for i, ((m, j), nm, old) in want.items():
      x = by_axis[i]
      if uniq:
        self.ctx.check(by_name[nm] is x, 'remove_node: inconsistent result')
      m.eids[j] = net.new_eid(x, None)
      n.eids[i] = net.new_eid(n.real.edges[i], None)
    if a[1] % 2:
      # the removed node goes out of the picture; it must not be reachable any more
      if want or not net.has_trace(n):
        net.nodes.remove(n)
        for m in net.nodes:
          self.ctx.check(n.real not in tn.reachable(m.real), 'removed node still reachable')
    return bool(want)

  def op_redirect(self, a):
    net = self.net
    c = []
    for e in net.live():
      if net.is_trace(e):
        n = net.ends(e)[0][0]
        i, j = [k for _, k in net.ends(e)]
        for m in net.nodes:
          if m is not n and m.rank > max(i, j) and m.arr.shape[i] == m.arr.shape[j] and \
              m.arr.shape[i] == net.dim(e) and \
              len(net.ends(m.eids[i])) == 1 and len(net.ends(m.eids[j])) == 1:
            c.append((e, n, [i, j], m))
      else:
        for n, i in net.ends(e):
          for m in net.nodes:
            if m is not n and m.rank > i and m.arr.shape[i] == net.dim(e) and \
                len(net.ends(m.eids[i])) == 1:
              c.append((e, n, [i], m))
    if not c:
      return False
    e, n, axes, m = pick(c, a[0] * 60 + a[1])
    others = [x for x in net.nodes if x not in [y for y, _ in net.ends(e)]]
    if others:
      self.ctx.raises(ValueError, lambda: tn.redirect_edge(net.R(e), n.real, others[0].real),
                      'redirect_edge from a node the edge does not touch')
    tn.redirect_edge(net.R(e), m.real, n.real)
    ne = None
    for i in axes:
      m.eids[i] = e
      ne = ne if ne is not None else net.new_eid(n.real.edges[i], None)
      n.eids[i] = ne
    return True

  def op_copy(self, a):
    net = self.net
    if not net.nodes:
      return False
    conj = bool(a[0] % 2)
    nd, ed = tn.copy([n.real for n in net.nodes], conjugate=conj)
    # continue the history on the copy; the original must stay as it is
    if a[1] % 2:
      net.check('original after copy')
    live = net.live()
    self.ctx.equal({id(x) for x in ed}, {id(net.R(e)) for e in live}, 'copy: keys of the edge map')
    for e in live:
      net.edges[e].real = ed[net.R(e)]
    for n in net.nodes:
      n.real = nd[n.real]
      if conj:
        n.arr = n.arr.conj()
    return True

  def op_set(self, a):
    net = self.net
    if not net.nodes:
      return False
    n = pick(net.nodes, a[0])
    v = arr(n.arr.shape, self.fresh_seed(), self.kind)
    t = n.real.backend.convert_to_tensor(v)
    if a[1] % 2:
      n.real.tensor = t
    else:
      n.real.set_tensor(t)
    n.arr = v
    self.ctx.check(n.real.get_tensor() is n.real.tensor, 'get_tensor')
    return True

  def op_arith(self, a):
    net = self.net
    if not net.nodes or len(net.nodes) >= 6:
      return False
    n = pick(net.nodes, a[0])
    cand = [m for m in net.nodes if m.arr.shape == n.arr.shape]
    m = pick(cand, a[1])
    other, oarr = (m.real, m.arr) if a[2] % 2 else (2.5, 2.5)
    k = a[3] % 4
    if k == 3 and np.any(np.asarray(oarr) == 0):
      return False
    f = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x * y, lambda x, y: x / y][k]
    want = f(n.arr, oarr)
    if not np.all(np.isfinite(want)) or np.max(np.abs(want), initial=0) > 1e12:
      return False
    real = f(n.real, other)
    self.ctx.check(real is not n.real and real is not m.real, 'arithmetic must create a node')
    new = MNode(real, want, [], n.name, [str(i) for i in range(want.ndim)])
    for i in range(want.ndim):
      new.eids.append(net.new_eid(real.edges[i]))
    net.nodes.append(new)
    return True

  def op_from_order(self, a):
    net = self.net
    c = [n for n in net.nodes if n.rank and not net.has_trace(n)]
    if not c:
      return False
    n = pick(c, a[0])
    perm = perm_of(range(n.rank), a[1])
    t = n.real.tensor_from_edge_order([net.R(n.eids[p]) for p in perm])
    self.ctx.close(np.asarray(t), n.arr.transpose(perm), 'tensor_from_edge_order', tol=1e-9)
    foreign = [e for e in net.live() if e not in n.eids]
    if foreign:
      self.ctx.raises(ValueError, lambda: n.real.tensor_from_edge_order([net.R(pick(foreign, a[2]))]),
                      'tensor_from_edge_order with a foreign edge')
    return False

  def op_illegal(self, a):
    net = self.net
    ctx = self.ctx
    d, nd = net.dangling(), net.nondangling()
    k = a[0] % 5
    if k == 0:
      pairs = [(x, y) for x in d for y in d if net.dim(x) != net.dim(y)]
      if pairs:
        x, y = pick(pairs, a[1])
        ctx.raises(ValueError, lambda: tn.connect(net.R(x), net.R(y)), 'connect, unequal dimensions')
        ctx.raises(ValueError, lambda: net.R(x) ^ net.R(y), '^, unequal dimensions')
    elif k == 1 and nd and d:
      x, y = pick(nd, a[1]), pick(d, a[2])
      ctx.raises(ValueError, lambda: tn.connect(net.R(x), net.R(y)), 'connect a connected edge')
      ctx.raises(ValueError, lambda: tn.connect(net.R(y), net.R(x)), 'connect a connected edge')
    elif k == 2 and d:
      x = pick(d, a[1])
      ctx.raises(ValueError, lambda: tn.connect(net.R(x), net.R(x)), 'connect an edge to itself')
      ctx.raises(ValueError, lambda: net.R(x).disconnect(), 'disconnect a dangling edge')
      ctx.raises(ValueError, lambda: tn.contract(net.R(x)), 'contract a dangling edge')
    elif k == 3 and len(nd) > 1:
      x, y = perm_of(nd, a[1])[:2]
      ctx.raises(ValueError, lambda: net.R(x) | net.R(y), 'disconnect two different edges')
    elif k == 4 and net.nodes:
      n = pick(net.nodes, a[1])
      nd_ax = [i for i, e in enumerate(n.eids) if len(net.ends(e)) == 2]
      if nd_ax:
        i = pick(nd_ax, a[2])
        fresh = tn.Edge(n.real, i)
        ctx.raises(ValueError, lambda: n.real.add_edge(fresh, i), 'add_edge over a connected edge')
      fresh = tn.Edge(n.real, n.rank)
      ctx.raises(ValueError, lambda: n.real.add_edge(fresh, n.rank), 'add_edge on a missing axis')
      ctx.raises(ValueError, lambda: n.real.get_dimension(n.rank), 'get_dimension of a missing axis')
    return False


def run(case, ctx):
  m = Machine(case, ctx)
  for i in range(2):
    m.op_new([2 + case['seed'] % 3, case['seed'] % 5, 1 + i, 1, 2 + i, case['seed'] % 11])
  for step, (op, a) in enumerate(case['ops']):
    if getattr(m, 'op_' + op)(a):
      m.effective += 1
      ctx.label(op)
    m.net.check('step %d %s%s' % (step, op, a))
  ctx.nontrivial(m.effective >= 4 and m.deep >= 1)


def strat(backend, max_ops=25):
  return st.fixed_dictionaries(dict(
      backend=st.just(backend), kind=st.sampled_from(['int', 'int', 'complex']),
      seed=st.integers(0, 10**6), ops=ops_strategy(max_ops)))


PARTS = [
    Part('history', lambda: strat('numpy'), run, quick=12000, thorough=120000),
    Part('history-tf', lambda: strat('tensorflow', 15), run, quick=240, thorough=4000, shards=4),
    Part('history-jax', lambda: strat('jax', 10), run, quick=60, thorough=800, shards=4),
]
