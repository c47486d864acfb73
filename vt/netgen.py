"""Random networks as JSON cases, and their construction."""
import numpy as np
from hypothesis import strategies as st
from vt.core import Skip
from vt.gens import arr, seeds


def net_case(min_nodes=1, max_nodes=6, max_edges=9, dims=(1, 2, 2, 3), dangling=True, traces=True,
             kinds=('int',), backends=('numpy',)):
  @st.composite
  def s(draw):
    n = draw(st.integers(min_nodes, max_nodes))
    edges = []
    lo = -1 if dangling else 0
    ne = draw(st.integers(0, max_edges))
    for _ in range(ne):
      a = draw(st.integers(0, n - 1))
      b = draw(st.integers(lo, n - 1))
      if b == a and not traces:
        b = lo
        if not dangling:
          continue
      edges.append([a, b, draw(st.sampled_from(list(dims)))])
    if draw(st.booleans()):       # make it connected along a line
      for i in range(n - 1):
        if not any({i, i + 1} == {e[0], e[1]} for e in edges):
          edges.append([i, i + 1, draw(st.sampled_from(list(dims)))])
    return dict(n=n, edges=edges, order=draw(st.lists(st.integers(0, 719), min_size=n, max_size=n)),
                seed=draw(seeds), kind=draw(st.sampled_from(list(kinds))),
                backend=draw(st.sampled_from(list(backends))))
  return s()


def perm_of(seq, k):
  seq = list(seq)
  out = []
  k = int(k)
  while seq:
    out.append(seq.pop(k % len(seq)))
    k = k // (len(seq) + 1) if len(seq) else 0
  return out


def delta(rank, dim):
  a = np.zeros((dim,) * rank)
  a[(np.arange(dim),) * rank] = 1.0
  return a


class Built:
  """labels[i]: edge ids on the axes of node i; arrays[i]; nodes[i]; edges[id]."""


def layout(case):
  """Labels (edge ids) of each node's axes and the dimension of each label."""
  n = case['n']
  lab = [[] for _ in range(n)]
  for k, (a, b, _) in enumerate(case['edges']):
    lab[a].append((k, 0))
    if b >= 0:
      lab[b].append((k, 1))
  lab = [perm_of(l, case['order'][i]) for i, l in enumerate(lab)]
  dims = {k: e[2] for k, e in enumerate(case['edges'])}
  return lab, dims


def build(case, real=True, kind=None):
  """Builds arrays and (if real) tensornetwork nodes for the case."""
  import tensornetwork as tn
  r = Built()
  lab, dims = layout(case)
  r.labels = [[k for k, _ in l] for l in lab]
  r.dims = dims
  if any(np.prod([float(dims[k]) for k in l]) > 1e5 or len(l) > 24 for l in r.labels):
    raise Skip('large')
  r.arrays = [arr([dims[k] for k in l], case['seed'] + 17 * i, kind or case['kind'])
              for i, l in enumerate(r.labels)]
  copies = set(case.get('copy', []))
  r.is_copy = [i in copies and a.ndim > 0 and len(set(a.shape)) == 1 for i, a in enumerate(r.arrays)]
  r.arrays = [delta(a.ndim, a.shape[0]) if c else a for a, c in zip(r.arrays, r.is_copy)]
  r.dangling = [k for k, e in enumerate(case['edges']) if e[1] < 0]
  r.inner = [k for k, e in enumerate(case['edges']) if e[1] >= 0]
  if not real:
    return r
  r.nodes = []
  for i, a in enumerate(r.arrays):
    kw = dict(name='node%d' % i, backend=case['backend'],
              axis_names=['n%d_ax%d' % (i, j) for j in range(a.ndim)])
    if r.is_copy[i]:
      dt = np.complex128 if (kind or case['kind']) in ('cint', 'complex') else np.float64
      r.nodes.append(tn.CopyNode(a.ndim, a.shape[0], dtype=dt, **kw))
    else:
      r.nodes.append(tn.Node(a.copy(), **kw))
  r.edges = {}
  pos = {}
  for i, l in enumerate(lab):
    for ax, (k, side) in enumerate(l):
      pos[(k, side)] = (i, ax)
  for k, e in enumerate(case['edges']):
    i, ax = pos[(k, 0)]
    if e[1] < 0:
      r.edges[k] = r.nodes[i][ax]
      r.edges[k].set_name('dangling%d' % k)
    else:
      j, bx = pos[(k, 1)]
      r.edges[k] = tn.connect(r.nodes[i][ax], r.nodes[j][bx], name='edge%d' % k)
  return r
