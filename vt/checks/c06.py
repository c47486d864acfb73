"""C06: copies and derived networks are faithful and independent of their source."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from vt.core import Part, Skip
from vt.gens import pick
from vt.graphmodel import meinsum
from vt.netgen import net_case, build, perm_of

ID = 'C06'
RULE = ('Random networks of 1-6 plain and copy nodes with parallel, trace and dangling edges and random '
        'axis orders; a random subset is copied (plain or conjugated, the nodes given as list, set, '
        'tuple, dict or generator), then random structural edits are applied to one side; every '
        'connectivity query is compared with the abstract graph. Non-trivial: the network has at least '
        'two nodes and two edges.')


def strategy(backends=('numpy',), max_nodes=6):
  @st.composite
  def s(draw):
    case = draw(net_case(1, max_nodes, 9, (1, 2, 2, 2, 3), kinds=('int', 'cint'), backends=backends))
    case['copy'] = draw(st.lists(st.integers(0, 5), max_size=3))
    case['mask'] = draw(st.integers(0, 63))
    case['form'] = draw(st.integers(0, 5))
    case['conj'] = draw(st.booleans())
    case['side'] = draw(st.booleans())
    case['ops'] = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 63), st.integers(0, 719)),
                                max_size=5))
    case['q'] = draw(st.lists(st.integers(0, 63), min_size=6, max_size=6))
    case['traced'] = draw(st.integers(0, 255))
    return case
  return s


def wrap(seq, form):
  seq = list(seq)
  return [list, set, tuple, lambda s: {x: 1 for x in s}, lambda s: (x for x in s),
          lambda s: iter(s)][form](seq)


def snap(nodes):
  """Everything observable about a network (identities included)."""
  out = []
  for n in nodes:
    rec = [id(n), type(n).__name__, n.name, list(n.axis_names), n.backend.name, tuple(n.shape),
           np.array(n.tensor)]
    for e in n.edges:
      rec.append((id(e), e.name, id(e.node1), e.axis1, id(e.node2) if e.node2 is not None else None,
                  e.axis2))
    out.append(rec)
  return out


def same_snap(ctx, a, b, msg):
  ctx.equal(len(a), len(b), msg)
  for x, y in zip(a, b):
    ctx.equal(x[:6], y[:6], msg)
    ctx.equal(x[7:], y[7:], msg + ' (edges)')
    ctx.check(np.array_equal(x[6], y[6]), msg + ' (tensor)')


def edit(nodes, ops):
  """Random structural edits; returns nothing, tolerates requests that are not allowed."""
  live = list(nodes)
  for op, a, b in ops:
    if not live:
      return
    n = pick(live, a)
    edges = list(n.edges)
    nd = [e for e in edges if not e.is_dangling()]
    try:
      if op == 0 and nd:
        e = pick(nd, b)
        e.disconnect()
      elif op == 1 and nd:
        e = pick(nd, b)
        x, y = e.node1, e.node2
        r = tn.contract_between(x, y)
        live = [m for m in live if m is not x and m is not y] + [r]
      elif op == 2 and edges:
        n.reorder_axes(perm_of(range(len(edges)), b))
      elif op == 3 and not any(e.is_trace() for e in edges):
        n.reorder_edges(perm_of(edges, b))
      elif op == 4:
        n.set_name('renamed')
        for i, e in enumerate(edges):
          e.set_name('renamed%d' % i)
      elif op == 5:
        n.add_axis_names(['new%d' % i for i in range(len(edges))])
      elif op == 6:
        tn.remove_node(n)
      elif op == 7 and len(live) > 1:
        tn.flatten_edges_between(n, pick(live, b))
      elif op == 8 and edges:
        e = pick(edges, b)
        if e.dimension > 1 and isinstance(n, tn.Node):
          tn.slice_edge(e, 1, e.dimension - 1)
      elif op == 9 and isinstance(n, tn.Node):
        n.tensor = n.tensor * 2
        if edges and edges[0].is_dangling():
          other = tn.Node(np.ones((n.shape[0],)), backend=n.backend)
          n[0] ^ other[0]
    except (ValueError, NotImplementedError):
      pass


def final(nodes, order, backend):
  nodes = list(nodes)
  return np.asarray(tn.contractors.greedy(nodes, output_edge_order=order,
                                          ignore_edge_order=not order).tensor)


def ends(e):
  s = {(id(e.node1), e.axis1)}
  if e.node2 is not None:
    s.add((id(e.node2), e.axis2))
  return s


def tf_limit(case, r):
  """TensorFlow's trace only handles tensors of rank up to 6."""
  if case['backend'] == 'tensorflow' and (
      any(len(l) > 6 for l in r.labels) or any(a == b for a, b, _ in case['edges']) and case['n'] > 1):
    raise Skip('rank limit of tf.einsum')


def run_copy(case, ctx):
  r = build(case)
  tf_limit(case, r)
  nodes = r.nodes
  sub = [i for i in range(case['n']) if case['mask'] >> i & 1] or list(range(case['n']))
  sub = perm_of(sub, case['q'][0])
  ctx.nontrivial(case['n'] >= 2 and len(case['edges']) >= 2)
  before = snap(nodes)
  src = [nodes[i] for i in sub]
  form = case['form']
  kw = {'conjugate': True} if case['conj'] else ({} if case['q'][1] % 2 else {'conjugate': False})
  nd, ed = tn.copy(wrap(src, form), **kw)
  same_snap(ctx, before, snap(nodes), 'source after copy')
  if 'x' in ctx.labels:
    return
  ctx.equal(set(map(id, nd)), set(map(id, src)), 'node map keys')
  ctx.equal(len({id(x) for x in nd.values()} | {id(x) for x in nodes}), len(src) + len(nodes),
            'copies are distinct new nodes')
  touching = [k for k in r.edges if any(k in r.labels[i] for i in sub)]
  ctx.equal(set(map(id, ed)), {id(r.edges[k]) for k in touching}, 'edge map keys')
  ctx.equal(len({id(e) for e in ed.values()} | {id(e) for e in r.edges.values()}),
            len(touching) + len(r.edges), 'copied edges are distinct new edges')
  subset = {id(n) for n in src}
  for i in sub:
    n, c = nodes[i], nd[nodes[i]]
    ctx.equal(type(c), type(n), 'type of the copy')
    ctx.equal((c.name, list(c.axis_names), c.backend.name, tuple(c.shape)),
              (n.name, list(n.axis_names), n.backend.name, tuple(n.shape)), 'attributes of the copy')
    want = r.arrays[i].conj() if case['conj'] else r.arrays[i]
    ctx.close(np.asarray(c.tensor), want, 'tensor of the copy', tol=0)
    ctx.equal(len(c.edges), len(n.edges), 'edges of the copy')
    for ax, e in enumerate(n.edges):
      ctx.check(c.edges[ax] is ed[e], 'axis %d of the copy of %s does not carry the mapped edge', ax, n.name)
      ctx.check(c[ax] is ed[e] and c[n.axis_names[ax]] is ed[e], 'access by axis name')
  for k in touching:
    e, c = r.edges[k], ed[r.edges[k]]
    ctx.equal(c.name, e.name, 'edge name')
    want = set()
    for node, ax in ((e.node1, e.axis1), (e.node2, e.axis2)):
      if node is not None and id(node) in subset:
        want.add((id(nd[node]), ax))
    ctx.equal(ends(c), want, 'ends of a copied edge')
    ctx.equal(c.is_dangling(), len(want) == 1, 'dangling')
  # replicate_nodes: same thing in order
  reps = tn.replicate_nodes(wrap(src, form), **kw)
  order = list(wrap(src, 0 if form in (4, 5) else form))
  ctx.equal(len(reps), len(src), 'replicate_nodes')
  for x, n in zip(reps, order):
    ctx.equal(x.name, n.name, 'order of replicate_nodes')
    ctx.close(np.asarray(x.tensor), np.asarray(nd[n].tensor), 'replicated tensor', tol=0)
    for ax, e in enumerate(x.edges):
      o = nd[n].edges[ax]
      ctx.equal((e.name, e.axis1, e.axis2, e.node1.name, e.node2.name if e.node2 is not None else None),
                (o.name, o.axis1, o.axis2, o.node1.name, o.node2.name if o.node2 is not None else None),
                'replicated edge')
  ctx.equal(len({id(x) for x in reps} | {id(x) for x in nd.values()} | {id(x) for x in nodes}),
            2 * len(src) + len(nodes), 'replicated nodes are new')
  # Node.copy
  n = src[0]
  c = n.copy(**kw)
  ctx.equal((type(c), c.name, list(c.axis_names)), (type(n), n.name, list(n.axis_names)), 'Node.copy')
  ctx.close(np.asarray(c.tensor), np.asarray(nd[n].tensor), 'Node.copy tensor', tol=0)
  for ax, e in enumerate(n.edges):
    x = c.edges[ax]
    w = {(id(c), a) for m, a in ((e.node1, e.axis1), (e.node2, e.axis2)) if m is n} if e.is_trace() \
        else {(id(c), ax)}
    ctx.equal((x.name, ends(x)), (e.name, w), 'Node.copy edge')
  # independence
  copies = [nd[m] for m in src]
  if case['side']:
    edit(copies, case['ops'])
    same_snap(ctx, before, snap(nodes), 'source after editing the copy')
  else:
    cb = snap(copies)
    edit(nodes, case['ops'])
    same_snap(ctx, cb, snap(copies), 'copy after editing the source')
  # the surviving side contracts to the right tensor
  if case['side']:
    keep, labels, out = nodes, r.labels, r.dangling
    order = [r.edges[k] for k in out]
    ins = list(zip(r.arrays, labels))
  else:
    keep = copies
    out = [k for k in touching if ed[r.edges[k]].is_dangling()]
    order = [ed[r.edges[k]] for k in out]
    ins = [(r.arrays[i].conj() if case['conj'] else r.arrays[i], r.labels[i]) for i in sub]
  size = np.prod([float(r.dims[k]) for k in out])
  if size <= 20000 and len(out) <= 20:
    got = final(keep, order, case['backend'])
    ctx.close(got, meinsum(ins, out), 'contraction of the untouched side')
  if any(r.is_copy[i] for i in sub):
    ctx.label('copy node copied')
  if any(nodes_ is not None for nodes_ in sub) and len(sub) < case['n']:
    ctx.label('proper subset')
  if case['conj']:
    ctx.label('conjugated')
  ctx.label('form%d' % form)


def components(r, n):
  comp = list(range(n))
  changed = True
  while changed:
    changed = False
    for k in r.edges:
      on = [i for i in range(n) if k in r.labels[i]]
      m = min(comp[i] for i in on)
      for i in on:
        if comp[i] != m:
          comp[i] = m
          changed = True
  return comp


def run_queries(case, ctx):
  r = build(case)
  nodes = r.nodes
  N = case['n']
  ctx.nontrivial(N >= 2 and len(case['edges']) >= 2)
  before = snap(nodes)
  q = case['q']
  form = case['form']
  ids = lambda xs: sorted(id(x) for x in xs)
  comp = components(r, N)
  ends_of = {k: [i for i in range(N) for l in r.labels[i] if l == k] for k in r.edges}

  def setof(xs, want, msg):
    xs = list(xs)
    ctx.equal(ids(xs), ids(want), msg)

  sub = [i for i in range(N) if case['mask'] >> i & 1] or [q[0] % N]
  S = [nodes[i] for i in sub]
  # reachable
  i = q[0] % N
  setof(tn.reachable(nodes[i]), [nodes[j] for j in range(N) if comp[j] == comp[i]], 'reachable(node)')
  want = [nodes[j] for j in range(N) if comp[j] in {comp[a] for a in sub}]
  setof(tn.reachable(wrap(S, form)), want, 'reachable(nodes)')
  if r.edges:
    ks = sorted(r.edges)
    k = pick(ks, q[1])
    e = r.edges[k]
    setof(tn.reachable(e), [nodes[j] for j in range(N) if comp[j] == comp[ends_of[k][0]]], 'reachable(edge)')
    es = [kk for n_, kk in enumerate(ks) if case['traced'] >> (n_ % 8) & 1] or [k]
    c = {comp[ends_of[kk][0]] for kk in es}
    setof(tn.reachable(wrap([r.edges[kk] for kk in es], form)), [nodes[j] for j in range(N) if comp[j] in c],
          'reachable(edges)')
    mixed = [r.edges[kk] for kk in es] + S
    setof(tn.reachable(mixed), [nodes[j] for j in range(N) if comp[j] in c | {comp[a] for a in sub}],
          'reachable(mixed)')
    w = sorted({j for kk in es for j in ends_of[kk]})
    setof(tn.get_all_nodes(wrap([r.edges[kk] for kk in es], form)), [nodes[j] for j in w], 'get_all_nodes')
    # parallel edges
    if len(ends_of[k]) == 2:
      setof(tn.get_parallel_edges(e), [r.edges[kk] for kk in ks if sorted(ends_of[kk]) == sorted(ends_of[k])],
            'get_parallel_edges')
    # edge queries
    ctx.equal((e.is_dangling(), e.is_trace(), e.is_being_used(), e.dimension),
              (len(ends_of[k]) == 1, len(ends_of[k]) == 2 and len(set(ends_of[k])) == 1, True, r.dims[k]),
              'edge predicates')
    ctx.equal(sorted(id(x) for x in e.get_nodes() if x is not None), ids([nodes[j] for j in ends_of[k]]),
              'get_nodes')
  ctx.raises((ValueError, TypeError), lambda: tn.reachable([]), 'reachable of nothing')
  ctx.raises(TypeError, lambda: tn.reachable([nodes[0], 3]), 'reachable of a number')
  # neighbours: in axis order, each once
  nb = []
  for l in r.labels[i]:
    for j in ends_of[l]:
      if j != i and j not in nb:
        nb.append(j)
  ctx.equal([id(x) for x in tn.get_neighbors(nodes[i])], [id(nodes[j]) for j in nb], 'get_neighbors')
  # all edges / dangling
  touching = [k for k in r.edges if any(j in sub for j in ends_of[k])]
  setof(tn.get_all_edges(wrap(S, form)), [r.edges[k] for k in touching], 'get_all_edges')
  setof(tn.get_subgraph_dangling(wrap(S, form)),
        [r.edges[k] for k in touching if len(ends_of[k]) == 1 or not set(ends_of[k]) <= set(sub)],
        'get_subgraph_dangling')
  setof(tn.get_all_nondangling(wrap(S, form)), [r.edges[k] for k in touching if len(ends_of[k]) == 2],
        'get_all_nondangling')
  lst = list(wrap(S, form if form < 4 and form != 1 else 0))
  want = [r.edges[l] for m in lst for l in r.labels[[id(x) for x in nodes].index(id(m))]
          if len(ends_of[l]) == 1]
  ctx.equal([id(x) for x in tn.get_all_dangling(lst)], [id(x) for x in want], 'get_all_dangling')
  # node queries
  n = nodes[i]
  setof(n.get_all_nondangling(), {r.edges[l] for l in r.labels[i] if len(ends_of[l]) == 2},
        'node.get_all_nondangling')
  ctx.equal([id(x) for x in n.get_all_dangling()],
            [id(r.edges[l]) for l in r.labels[i] if len(ends_of[l]) == 1], 'node.get_all_dangling')
  ctx.equal([id(x) for x in n.get_all_edges()], [id(r.edges[l]) for l in r.labels[i]], 'node.get_all_edges')
  ctx.equal((n.has_dangling_edge(), n.has_nondangling_edge()),
            (any(len(ends_of[l]) == 1 for l in r.labels[i]), any(len(ends_of[l]) == 2 for l in r.labels[i])),
            'has_(non)dangling_edge')
  ctx.equal((n.get_rank(), tuple(n.shape)), (len(r.labels[i]), tuple(r.dims[l] for l in r.labels[i])), 'rank')
  for ax in range(n.get_rank()):
    nm = 'n%d_ax%d' % (i, ax)
    ctx.equal((n.get_axis_number(nm), n.get_axis_number(ax), n.get_dimension(nm), n.get_dimension(ax)),
              (ax, ax, r.dims[r.labels[i][ax]], r.dims[r.labels[i][ax]]), 'axis lookup')
    ctx.check(n.get_edge(nm) is n.edges[ax] and n.get_edge(ax) is n.edges[ax] and n[nm] is n.edges[ax],
              'edge lookup')
  # shared edges
  a, b = q[2] % N, q[3] % N
  setof(tn.get_shared_edges(nodes[a], nodes[b]),
        [r.edges[k] for k in r.edges if len(ends_of[k]) == 2 and set(ends_of[k]) == {a, b}],
        'get_shared_edges')
  # consistency checks
  tn.check_correct(wrap(S, form), check_connections=False)
  connected = len({comp[a] for a in sub}) == 1
  for name, fn in (('check_correct', lambda: tn.check_correct(wrap(S, form))),
                   ('check_connected', lambda: tn.check_connected(wrap(S, form)))):
    if connected:
      fn()
    else:
      ctx.raises(ValueError, fn, name + ' of a disconnected network')
  same_snap(ctx, before, snap(nodes), 'network after queries')
  ctx.label('connected' if connected else 'disconnected')
  # contract_trace_edges
  if any(len(ends_of[l]) == 2 and len(set(ends_of[l])) == 1 for l in r.labels[i]) and isinstance(n, tn.Node):
    if case['backend'] == 'numpy':
      res = tn.contract_trace_edges(n)
      keep = [l for l in r.labels[i] if not (len(ends_of[l]) == 2 and len(set(ends_of[l])) == 1)]
      ctx.close(np.asarray(res.tensor), meinsum([(r.arrays[i], r.labels[i])], keep), 'contract_trace_edges')
      ctx.equal([id(x) for x in res.edges], [id(r.edges[l]) for l in keep], 'edges after contract_trace_edges')
      ctx.label('trace')
  # a broken edge is noticed
  elif n.get_rank() >= 2:
    n.edges[0].axis1, n.edges[1].axis1 = n.edges[0].axis1 + 1, n.edges[1].axis1 + 1
    x = n.edges[0]
    ok = any(x.node1 is n and x.axis1 == 0 or x.node2 is n and x.axis2 == 0 for _ in [0])
    y = n.edges[1]
    ok = ok and (y.node1 is n and y.axis1 == 1 or y.node2 is n and y.axis2 == 1)
    if not ok:
      ctx.raises(ValueError, lambda: tn.check_correct(iter([n]), False), 'check_correct of a broken edge')


def run_rho(case, ctx):
  r = build(case)
  if not r.dangling:
    raise Skip('closed')
  N = case['n']
  traced = [k for j, k in enumerate(r.dangling) if case['traced'] >> (j % 8) & 1] or [r.dangling[0]]
  traced = perm_of(traced, case['q'][4])
  comp = components(r, N)
  ends_of = {k: [i for i in range(N) for l in r.labels[i] if l == k] for k in r.edges}
  cs = {comp[ends_of[k][0]] for k in traced}
  sub = [i for i in range(N) if comp[i] in cs]
  touching = [k for k in r.edges if ends_of[k][0] in sub]
  te = [r.edges[k] for k in traced]
  inner = [e for k, e in r.edges.items() if k in r.inner]
  if inner and case['q'][5] % 4 == 0:
    before = snap(r.nodes)
    ctx.raises(ValueError, lambda: tn.reduced_density(te + [inner[0]]), 'non-dangling edge traced out')
    same_snap(ctx, before, snap(r.nodes), 'network after rejection')
  nd, ed = tn.reduced_density(wrap(te, 0 if case['form'] == 1 else case['form']))
  ctx.nontrivial(len(sub) >= 2)
  ctx.equal({id(x) for x in nd}, {id(r.nodes[i]) for i in sub}, 'node map of reduced_density')
  # the edge map lists the original edges and the conjugate counterpart of each
  ctx.check(all(r.edges[k] in ed for k in touching if k not in traced), 'edge map of reduced_density')
  for k in touching:
    if k in traced:
      node = r.nodes[ends_of[k][0]]
      ax = r.labels[ends_of[k][0]].index(k)
      e = node[ax]
      ctx.check(nd[node][ax] is e and not e.is_dangling(), 'traced edge joins state and conjugate')
      ctx.check(te[traced.index(k)] in ed and ed[te[traced.index(k)]] is e, 'map of a traced edge')
    else:
      e, c = r.edges[k], ed[r.edges[k]]
      ctx.equal(len(ends_of[k]) == 1, c.is_dangling(), 'kept edge')
  free = [k for k in r.dangling if k in touching and k not in traced]
  if np.prod([float(r.dims[k]) for k in free]) > 200:
    raise Skip('large')
  off = 1000
  ins = [(r.arrays[i], r.labels[i]) for i in sub]
  ins += [(r.arrays[i].conj(), [l if l in traced else l + off for l in r.labels[i]]) for i in sub]
  out = free + [k + off for k in free]
  order = [r.edges[k] for k in free] + [ed[r.edges[k]] for k in free]
  got = final([r.nodes[i] for i in sub] + list(nd.values()), order, case['backend'])
  ctx.close(got, meinsum(ins, out), 'reduced density matrix')


def run_switch(case, ctx):
  r = build(case)
  ctx.nontrivial(case['n'] >= 2 and len(case['edges']) >= 2)
  if any(r.is_copy):
    raise Skip('copy node')
  before = snap(r.nodes)
  sub = [i for i in range(case['n']) if case['mask'] >> i & 1] or list(range(case['n']))
  new = ['tensorflow', 'jax', 'numpy'][case['q'][0] % 3]
  ctx.label(new)
  tn.switch_backend(wrap([r.nodes[i] for i in sub], case['form']), new)
  after = snap(r.nodes)
  for i in sub:
    before[i][4] = new
    t = r.nodes[i].tensor
    ctx.check(isinstance(t, np.ndarray) == (new == 'numpy'), 'tensor type after switch_backend: %s', type(t))
    ctx.equal(np.dtype(t.dtype.name if hasattr(t.dtype, 'name') else t.dtype), before[i][6].dtype,
              'dtype after switch_backend')
  same_snap(ctx, before, after, 'network after switch_backend')
  if len(sub) == case['n'] and len(r.dangling) <= 5:
    if new == 'tensorflow':
      tf_limit(dict(case, backend='tensorflow'), r)
    got = final(r.nodes, [r.edges[k] for k in r.dangling], new)
    ctx.close(got, meinsum(list(zip(r.arrays, r.labels)), r.dangling), 'contraction after switch_backend')
  ctx.raises(ValueError, lambda: tn.switch_backend(r.nodes, 'symmetric'), 'switch to symmetric')


def jax64():
  import jax
  jax.config.update('jax_enable_x64', True)


PARTS = [
    Part('copy', strategy(), run_copy, 5000, 60000),
    Part('queries', strategy(), run_queries, 5000, 60000),
    Part('rho', strategy(max_nodes=4), run_rho, 2000, 20000),
    Part('switch', strategy(max_nodes=4), run_switch, 150, 1500, setup=jax64),
    Part('copy-tf', strategy(backends=('tensorflow',), max_nodes=4), run_copy, 100, 1500),
]
