"""Abstract model of a tensor network, kept in step with the real one.

A model node is a NumPy array plus one edge id per axis.  An edge id occurring
once is dangling, twice is a standard or trace edge.  `check` compares the whole
real network with the model.
"""
import numpy as np
import tensornetwork as tn
from vt.core import Violation
from vt.gens import arr

UNNAMED_E = '__unnamed_edge__'
UNNAMED_N = '__unnamed_node__'


def meinsum(inputs, out):
  """inputs: [(array, labels)], labels hashable; returns einsum."""
  ids = {}
  args = []
  for a, labels in inputs:
    for l in labels:
      if l not in ids:
        ids[l] = len(ids)
    args += [a, [ids[l] for l in labels]]
  if not inputs:
    return np.array(1.0)
  if len(ids) > 50:
    raise ValueError('too many labels')
  return np.einsum(*args, [ids[l] for l in out], optimize='greedy' if len(inputs) > 2 else False)


class MNode:
  def __init__(self, real, array, eids, name=None, axis_names=None):
    self.real = real
    self.arr = np.asarray(array)
    self.eids = list(eids)
    self.name = name
    self.axis_names = axis_names    # None: unspecified

  @property
  def rank(self):
    return len(self.eids)


class MEdge:
  def __init__(self, real, name=UNNAMED_E):
    self.real = real
    self.name = name                # None: unspecified


class Net:
  def __init__(self, ctx, backend='numpy'):
    self.ctx = ctx
    self.backend = backend
    self.nodes = []
    self.edges = {}
    self.next = 0
    self.tol = 1e-9

  # -- basic ---------------------------------------------------------------
  def new_eid(self, real, name=UNNAMED_E):
    e = self.next
    self.next += 1
    self.edges[e] = MEdge(real, name)
    return e

  def add_node(self, array, name=None, axis_names=None):
    kw = {}
    real = tn.Node(np.array(array), name=name, axis_names=axis_names, backend=self.backend)
    n = MNode(real, array, [], UNNAMED_N if name is None else name,
              list(axis_names) if axis_names is not None else [str(i) for i in range(array.ndim)])
    for i in range(array.ndim):
      n.eids.append(self.new_eid(real.edges[i] if i < len(real.edges) else None,
                                 axis_names[i] if axis_names is not None else UNNAMED_E))
    self.nodes.append(n)
    return n

  def ends(self, eid):
    return [(n, i) for n in self.nodes for i, e in enumerate(n.eids) if e == eid]

  def live(self):
    seen = []
    s = set()
    for n in self.nodes:
      for e in n.eids:
        if e not in s:
          s.add(e)
          seen.append(e)
    return seen

  def dangling(self):
    return [e for e in self.live() if len(self.ends(e)) == 1]

  def nondangling(self):
    return [e for e in self.live() if len(self.ends(e)) == 2]

  def is_trace(self, e):
    x = self.ends(e)
    return len(x) == 2 and x[0][0] is x[1][0]

  def dim(self, e):
    n, i = self.ends(e)[0]
    return n.arr.shape[i]

  def has_trace(self, n):
    return len(set(n.eids)) < len(n.eids)

  def shared(self, a, b):
    if a is b:
      return [e for i, e in enumerate(a.eids) if a.eids.count(e) == 2 and a.eids.index(e) == i]
    return [e for e in a.eids if e in b.eids]

  def R(self, e):
    return self.edges[e].real

  def probe(self):
    """Contracts every dangling edge with a fixed vector: a scalar."""
    inputs = [(n.arr, n.eids) for n in self.nodes]
    for e in self.dangling():
      inputs.append((arr((self.dim(e),), 1000 + e, 'pos'), [e]))
    # contract per connected component to stay below the einsum label limit
    comps = []
    for a, l in inputs:
      hit = [c for c in comps if c[0] & set(l)]
      new = (set(l).union(*[c[0] for c in hit]) if hit else set(l), [(a, l)])
      for c in hit:
        new[1].extend(c[1])
        comps.remove(c)
      comps.append(new)
    out = 1.0
    for _, ins in comps:
      out = out * meinsum(ins, [])
    return out

  # -- pure model transformations -----------------------------------------
  def m_reorder(self, n, perm):
    n.arr = n.arr.transpose(perm)
    n.eids = [n.eids[p] for p in perm]
    if n.axis_names is not None:
      n.axis_names = [n.axis_names[p] for p in perm]

  def m_contract_pair(self, a, b, eids):
    la = [(e, 0) if e not in eids else (e, 'c') for e in a.eids]
    lb = [(e, 1) if e not in eids else (e, 'c') for e in b.eids]
    # trace edges inside one node need distinct labels
    la = [(l, a.eids[:i].count(a.eids[i])) if l[1] != 'c' else l for i, l in enumerate(la)]
    lb = [(l, b.eids[:i].count(b.eids[i])) if l[1] != 'c' else l for i, l in enumerate(lb)]
    out = [l for l in la if l[1] != 'c'] + [l for l in lb if l[1] != 'c']
    res = meinsum([(a.arr, la), (b.arr, lb)], out)
    return res, [e for e in a.eids if e not in eids] + [e for e in b.eids if e not in eids]

  def m_trace(self, n, eids):
    labels = [(e, 'c') if e in eids else (e, n.eids[:i].count(e)) for i, e in enumerate(n.eids)]
    out = [l for l in labels if l[1] != 'c']
    return meinsum([(n.arr, labels)], out), [e for e in n.eids if e not in eids]

  # -- comparison ----------------------------------------------------------
  def check(self, where=''):
    ctx = self.ctx
    for k, n in enumerate(self.nodes):
      r = n.real
      w = '%s: node %d (%s)' % (where, k, n.name)
      got = np.asarray(r.tensor)
      ctx.close(got, n.arr, w + ' tensor', tol=self.tol)
      ctx.check(tuple(r.shape) == n.arr.shape, '{}: shape property {} vs {}', w, r.shape, n.arr.shape)
      ctx.equal(r.get_rank(), n.rank, w + ' rank')
      es = r.edges
      ctx.equal(len(es), n.rank, w + ' number of edges')
      for i, e in enumerate(n.eids):
        ctx.check(es[i] is self.edges[e].real, '{}: axis {} holds a different edge object', w, i)
        ctx.check(r.get_edge(i) is es[i] and r[i] is es[i], '{}: get_edge({})', w, i)
        ctx.equal(r.get_dimension(i), n.arr.shape[i], w + ' get_dimension')
      ctx.equal(len(set(r.axis_names)), n.rank, w + ' number of distinct axis names')
      if n.axis_names is not None:
        ctx.equal(list(r.axis_names), list(n.axis_names), w + ' axis names')
        if len(set(n.axis_names)) == n.rank:
          for i, a in enumerate(n.axis_names):
            ctx.check(r[a] is es[i], '{}: lookup by axis name {!r}', w, a)
      if n.name is not None:
        ctx.equal(r.name, n.name, w + ' name')
      ctx.equal(r.has_dangling_edge(), any(len(self.ends(e)) == 1 for e in n.eids),
                w + ' has_dangling_edge')
      ctx.equal(r.has_nondangling_edge(), any(len(self.ends(e)) == 2 for e in n.eids),
                w + ' has_nondangling_edge')
      ctx.equal([id(x) for x in r.get_all_dangling()],
                [id(self.R(e)) for e in n.eids if len(self.ends(e)) == 1], w + ' get_all_dangling')
      ctx.equal({id(x) for x in r.get_all_nondangling()},
                {id(self.R(e)) for e in n.eids if len(self.ends(e)) == 2}, w + ' get_all_nondangling')
    for e in self.live():
      m = self.edges[e]
      r = m.real
      w = '%s: edge %d' % (where, e)
      want = [(id(n.real), i) for n, i in self.ends(e)]
      ctx.check(not r.is_disabled, '{} is disabled but still in use', w)
      got = [(id(r.node1), r.axis1)]
      if len(want) == 2:
        ctx.check(not r.is_dangling(), '{} is dangling, expected two ends', w)
        got.append((id(r.node2), r.axis2))
      else:
        ctx.check(r.is_dangling(), '{} should be dangling', w)
        ctx.check(r.node2 is None and r.axis2 is None, '{}: dangling edge with second end', w)
      if sorted(got) != sorted(want):
        raise Violation('%s: ends %s, expected %s' % (
            w, [(self._idx(a), b) for a, b in got], [(self._idx(a), b) for a, b in want]))
      ctx.equal(r.is_trace(), self.is_trace(e), w + ' is_trace')
      ctx.equal(r.dimension, self.dim(e), w + ' dimension')
      ctx.check(r.is_being_used(), '{}: is_being_used() is False', w)
      if m.name is not None:
        ctx.equal(r.name, m.name, w + ' name')
    reals = [n.real for n in self.nodes]
    if reals:
      try:
        tn.check_correct(reals, False)
      except ValueError as x:
        raise Violation('%s: check_correct rejects a correct network: %s' % (where, x))
      ctx.equal({id(x) for x in tn.get_all_edges(reals)}, {id(self.R(e)) for e in self.live()},
                where + ' get_all_edges')

  def _idx(self, i):
    for k, n in enumerate(self.nodes):
      if id(n.real) == i:
        return k
    return 'foreign'

  def adopt(self, where, nodes=None):
    """Reads structure of the given model nodes back from the real network.

    Keeps known edge ids (by identity), creates new ids for new edges.
    """
    by_real = {id(m.real): e for e, m in self.edges.items()}
    for n in (nodes if nodes is not None else self.nodes):
      n.arr = np.asarray(n.real.tensor)
      eids = []
      for x in n.real.edges:
        if id(x) not in by_real:
          by_real[id(x)] = self.new_eid(x, None)
        eids.append(by_real[id(x)])
      n.eids = eids
      n.axis_names = None
