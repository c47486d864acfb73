"""C25: copy tensors behave as hyperedges."""
import io
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import contractors
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.graphmodel import meinsum
from vt.netgen import build, delta, net_case

ID = 'C25'
RULE = ('Random networks with copy nodes of all ranks (self connected, dangling, adjacent, several legs on one partner; partners with '
        'trace edges and edges among themselves) contracted by random sequences of routes: dedicated copy contraction, bucket '
        'contraction, pairwise and trace contraction, after reorderings, copies, HDF5 round trips, flattenings and slicings; the value '
        'is the Einstein sum with the indices identified, and the queries of every copy node are compared with the generated incidence '
        'after every step. Non-trivial: a copy node with at least two legs on other nodes was contracted by the dedicated route.')
ASSUMPTIONS = ['bucket orders that hold two adjacent copy nodes may be rejected']
BACKENDS = ['numpy', 'numpy', 'numpy', 'tensorflow', 'jax']


class State:
  """nodes: list of (node, array, labels, is_copy)."""


def make(case, ctx):
  net = build(case['net'])
  s = State()
  s.items = [[n, a, list(l), c] for n, a, l, c in zip(net.nodes, net.arrays, net.labels, net.is_copy)]
  s.edges = dict(net.edges)
  s.out = list(net.dangling)
  s.inputs = [(a, list(l)) for a, l in zip(net.arrays, net.labels)]
  s.dims = dict(net.dims)
  if len({x for _, l in s.inputs for x in l}) > 40 or np.prod([float(s.dims[k]) for k in s.out]) > 20000:
    raise Skip('large')
  s.want = meinsum(s.inputs, s.out)
  return s


def owner(items, k):
  return [it for it in items if k in it[2]]


def check_copy(ctx, items, it, what):
  """Every query of one copy node."""
  node, _, labels, _ = it
  rank = len(labels)
  ctx.check(isinstance(node, tn.CopyNode), '{}: no longer a copy node', what)
  ctx.equal((node.rank, node.get_rank(), tuple(node.shape)), (rank, rank, (node.dimension,) * rank), what + ': rank and shape')
  ctx.equal(len(node.edges), rank, what + ': legs')
  count = {k: sum(l.count(k) for _, _, l, _ in items) for k in labels}
  dang = any(count[k] == 1 for k in labels)
  if dang:
    ctx.raises(ValueError, node.get_partners, what + ': partners of a copy node with dangling legs')
    ctx.raises(ValueError, lambda: tn.contract_copy_node(node), what + ': contraction of a copy node with dangling legs')
    ctx.label('dangling copy node')
    return False
  want = {}
  for other, _, l, _ in items:
    if other is node:
      continue
    axes = {j for j, k in enumerate(l) if k in labels}
    if axes:
      want[id(other)] = axes
  got = node.get_partners()
  ctx.equal({id(k): set(v) for k, v in got.items()}, want, what + ': partners')
  return True


def check_tensor(ctx, it, what):
  node, _, labels, _ = it
  ctx.close(np.array(node.tensor), delta(len(labels), node.dimension) if labels else np.array(1.), what + ': entries')
  ctx.close(np.array(node.get_tensor()), delta(len(labels), node.dimension) if labels else np.array(1.), what + ': entries')
  ctx.equal(np.dtype(node.dtype), np.array(node.tensor).dtype, what + ': dtype')


def dedicated(ctx, items, it, named, what):
  """contract_copy_node; returns the new items."""
  node, _, labels, _ = it
  partners = [p for p in items if p is not it and any(k in labels for k in p[2])]
  order = [id(p) for p in node.get_partners()]
  partners.sort(key=lambda p: order.index(id(p[0])))
  old_edges = list(node.edges)
  old = [(p[0], [(e, k) for e, k in zip(p[0].edges, p[2]) if k not in labels], tuple(p[0].axis_names)) for p in partners]
  t = node.compute_contracted_tensor()
  ax = [k for p in partners for k in p[2] if k not in labels]
  arrs = []
  for p in partners:
    arrs.append((p[1], ['hub' if k in labels else (id(p[0]), j, k) for j, k in enumerate(p[2])]))
  outl = [(id(p[0]), j, k) for p in partners for j, k in enumerate(p[2]) if k not in labels]
  if partners:
    want = meinsum(arrs, outl)
  else:
    want = np.array(float(node.dimension) if labels else 1.)
  ctx.close(np.array(t), want, what + ': contracted tensor')
  new = tn.contract_copy_node(node, name='joined') if named else tn.contract_copy_node(node)
  ctx.check(isinstance(new, tn.Node) and not isinstance(new, tn.CopyNode), '{}: kind of the result', what)
  ctx.equal(new.name, 'joined' if named else '__unnamed_node__', what + ': name')
  ctx.equal(new.backend.name, node.backend.name, what + ': backend')
  ctx.close(np.array(new.tensor), want, what + ': value')
  ctx.equal(len(new.edges), len(ax), what + ': legs')
  moved = [e for _, es, _ in old for e, _ in es]
  for j, (e, f) in enumerate(zip(new.edges, moved)):
    ctx.check(e is f, '{}: leg {} is not the edge of the partner', what, j)
    ctx.check((e.node1 is new and e.axis1 == j) or (not e.is_dangling() and e.node2 is new and e.axis2 == j),
              '{}: leg {} does not know its node', what, j)
  # consumed nodes are detached, the contracted edges cannot be used again
  for n in [node] + [p for p, _, _ in old]:
    for j, e in enumerate(n.edges):
      ctx.check(e.is_dangling() and e.node1 is n and e.axis1 == j, '{}: the consumed node {!r} still has leg {}', what, n.name, j)
  for e in old_edges:
    ctx.check(e.is_disabled, '{}: a contracted edge can still be used', what)
  left = [p for p in items if p is not it and not any(p is q for q in partners)]
  return left + [[new, want, ax, False]]


def network_ok(ctx, items, what):
  """The real incidence is the one of the model."""
  ends = {}
  for n, a, l, _ in items:
    ctx.equal(len(n.edges), len(l), what + ': number of legs')
    ctx.equal(tuple(n.shape), a.shape, what + ': shape')
    for j, k in enumerate(l):
      ends.setdefault(k, []).append((n, j))
  for k, e in ends.items():
    objs = {id(n.edges[j]) for n, j in e}
    ctx.equal(len(objs), 1, what + ': edge %s' % k)
    edge = e[0][0].edges[e[0][1]]
    ctx.equal(edge.is_dangling(), len(e) == 1, what + ': dangling edge %s' % k)
    got = [(id(edge.node1), edge.axis1)] + ([] if edge.is_dangling() else [(id(edge.node2), edge.axis2)])
    ctx.equal(sorted(got), sorted((id(n), j) for n, j in e), what + ': ends of edge %s' % k)


def run(case, ctx):
  try:
    run_case(case, ctx)
  except Exception as e:  # pylint: disable=broad-except
    if case['net']['backend'] == 'tensorflow' and 'Unsupported rank' in str(e):
      raise Skip('TensorFlow has no kernel')
    raise


def run_case(case, ctx):
  s = make(case, ctx)
  be = case['net']['backend']
  tol = 1e-4 if be == 'jax' else 1e-8
  scale = max(1., float(np.prod([max(1., np.abs(a).sum()) for a, _ in s.inputs if a.size]))) if s.inputs else 1.
  scale = max(1., min(scale, 1e6) * 1e-3, float(np.abs(s.want).max()) if s.want.size else 1.)
  items = s.items
  for _, _, l, c in items:
    if c:
      ctx.label('copy node')
      if len(set(l)) < len(l):
        ctx.label('self connected')
  done = 0
  for step, (k, j) in enumerate(case['ops']):
    copies = [it for it in items if it[3]]
    what = 'step %d' % step
    if not copies:
      break
    it = pick(copies, j)
    if k == 'query':
      for c in copies:
        check_copy(ctx, items, c, what + ' query')
        check_tensor(ctx, c, what + ' tensor')
    elif k == 'copycontract':
      if check_copy(ctx, items, it, what):
        size = [sum(1 for x in p[2] if x not in it[2]) for p in items if p is not it and any(x in it[2] for x in p[2])]
        if sum(size) > 12 or any(p[1].ndim > 6 and be == 'tensorflow' for p in items):
          continue
        if len([p for p in items if p is not it and any(x in it[2] for x in p[2])]) and len(it[2]) >= 2:
          done += 1
        items = dedicated(ctx, items, it, j % 2, what + ' contract_copy_node')
        ctx.label('dedicated')
        network_ok(ctx, items, what)
    elif k == 'pair':
      if j % 3 and len(set(it[2])) < len(it[2]):
        it[0].name = 'copy'
        new = tn.contract_trace_edges(it[0])
        lab = [x for x in it[2] if it[2].count(x) == 1]
        items = [p for p in items if p is not it] + [[new, meinsum([(it[1], it[2])], lab), lab, False]]
        ctx.label('trace of a copy node')
      else:
        others = [p for p in items if p is not it and any(x in it[2] for x in p[2])]
        if not others:
          continue
        o = pick(others, j)
        if it[1].ndim + o[1].ndim > 12:
          continue
        lab = [x for x in it[2] if x not in o[2]] + [x for x in o[2] if x not in it[2]]
        tr = len(set(lab)) < len(lab)
        new = tn.contract_between(it[0], o[0])
        # (trace edges stay, doubled labels: einsum with distinct names)
        a = [(it[1], [('a', m, x) if x not in o[2] else x for m, x in enumerate(it[2])]),
             (o[1], [('b', m, x) if x not in it[2] else x for m, x in enumerate(o[2])])]
        outl = [('a', m, x) for m, x in enumerate(it[2]) if x not in o[2]] + [('b', m, x) for m, x in enumerate(o[2]) if x not in it[2]]
        val = meinsum(a, outl)
        ctx.close(np.array(new.tensor), val, what + ' contract_between', tol, scale)
        items = [p for p in items if p is not it and p is not o] + [[new, val, lab, False]]
        ctx.label('pairwise' + (' with trace' if tr else ''))
      network_ok(ctx, items, what)
    elif k == 'reorder':
      o = pick(items, j)
      r = len(o[2])
      perm = [int(x) for x in np.random.default_rng(j).permutation(r)]
      o[0].reorder_axes(perm)
      o[2] = [o[2][x] for x in perm]
      o[1] = np.transpose(o[1], perm)
      network_ok(ctx, items, what + ' reorder')
      if o[3]:
        check_tensor(ctx, o, what + ' reordered')
    elif k == 'clone':
      conj = bool(j % 2)
      nodes = [p[0] for p in items]
      d, de = tn.copy(nodes, conjugate=conj)
      for p in items:
        if p[3]:
          ctx.check(isinstance(d[p[0]], tn.CopyNode), '{}: the copy of a copy node is a {}', what, type(d[p[0]]))
          ctx.equal(np.dtype(d[p[0]].dtype), np.dtype(p[0].dtype), what + ': dtype of the copy')
          ctx.equal(d[p[0]].backend.name, be, what + ': backend of the copy')
      new = [[d[p[0]], np.conj(p[1]) if conj else p[1], list(p[2]), p[3]] for p in items]
      network_ok(ctx, items, what + ' original')
      network_ok(ctx, new, what + ' copied')
      for p, q in zip(items, new):
        ctx.equal(q[0].name, p[0].name, what + ': name of the copy')
        ctx.close(np.array(q[0].tensor), q[1], what + ': copied tensor', tol, scale)
      if conj:
        s.want = np.conj(s.want)
      items = new
      ctx.label('copied')
    elif k == 'store':
      if be != 'numpy' or j % 3 == 0:
        one = [p[0].copy() for p in items if p[3]]
        for p, c in zip([p for p in items if p[3]], one):
          ctx.check(isinstance(c, tn.CopyNode), '{}: Node.copy of a copy node is a {}', what, type(c))
          ctx.close(np.array(c.tensor), p[1], what + ': Node.copy')
          ctx.equal(tuple(c.axis_names), tuple(p[0].axis_names), what + ': axis names')
          for m, x in enumerate(p[2]):
            ctx.equal(c.edges[m].is_trace(), p[2].count(x) == 2, what + ': trace edges of the copy')
        continue
      f = io.BytesIO()
      for m, p in enumerate(items):
        p[0].name = 'n%d' % m
      tn.save_nodes([p[0] for p in items], f)
      f.seek(0)
      back = {n.name: n for n in tn.load_nodes(f)}
      ctx.equal(sorted(back), sorted('n%d' % m for m in range(len(items))), what + ': stored nodes')
      new = []
      for m, p in enumerate(items):
        n = back['n%d' % m]
        ctx.check(isinstance(n, tn.CopyNode) == p[3], '{}: a {} was loaded', what, type(n))
        if p[3]:
          ctx.equal(np.dtype(n.dtype), np.dtype(p[0].dtype), what + ': loaded dtype')
        ctx.close(np.array(n.tensor), p[1], what + ': loaded tensor', tol, scale)
        new.append([n, p[1], list(p[2]), p[3]])
      network_ok(ctx, new, what + ' loaded')
      items = new
      ctx.label('stored')
    elif k == 'bucket':
      order = []
      for c in sorted(copies, key=lambda c: hash((j, id(c)))):
        lab = c[2]
        if any(sum(l.count(x) for _, _, l, _ in items) == 1 for x in lab):
          continue
        if any(set(x[2]) & set(lab) for x in order):
          continue
        order.append(c)
      if not order or be == 'tensorflow':
        continue
      order = order[:1 + j % 3]
      size = sum(len(p[2]) for p in items if any(set(p[2]) & set(c[2]) for c in order))
      if size > 14:
        continue
      res = contractors.bucket([p[0] for p in items], [c[0] for c in order])
      res = list(res)
      # model of the same
      model = list(items)
      for c in order:
        part = [p for p in model if p is not c and set(p[2]) & set(c[2])]
        ax = [(id(p), m, x) for p in part for m, x in enumerate(p[2]) if x not in c[2]]
        model = [p for p in model if p is not c and not any(p is q for q in part)]
        model.append([None, None, [x for _, _, x in ax], False])
      ctx.equal(len(res), len(model), what + ': number of nodes after bucket')
      kept = {id(p[0]) for p in model if p[0] is not None}
      ctx.check(kept <= {id(n) for n in res}, '{}: bucket lost a node', what)
      for c in order:
        ctx.check(not any(n is c[0] for n in res), '{}: bucket kept a contracted copy node', what)
      ctx.label('bucket')
      done += 1
      finish(ctx, res, s, items, case, tol, scale, what + ' bucket')
      ctx.nontrivial(done)
      return
    elif k == 'bad':
      n = it[0]
      b = tn.CopyNode(2, 2, backend=be)
      m = j % 5
      if m == 0:
        for f in (lambda: n + 1, lambda: n - 1, lambda: n * 2, lambda: n / 2, lambda: n + b):
          ctx.raises(NotImplementedError, f, what + ': arithmetic on a copy node')
      elif m == 1:
        ctx.raises(NotImplementedError, lambda: tn.nodes_to_json([b]), what + ': JSON of a copy node')
      else:
        # legs that no longer belong to a delta tensor
        p = tn.Node(arr((4 if m == 2 else 2, 2, 2), j, 'int'), backend=be)
        c = tn.CopyNode(3, 2, backend=be, name='flattened')
        if m == 2:
          tn.flatten_edges([c[0], c[1]])
          tn.connect(c[1], p[0])
          tn.connect(c[0], p[1])
          w = None
        elif m == 3:
          tn.connect(c[0], p[1])
          tn.connect(c[1], p[2])
          tn.connect(c[2], p[0])
          w = meinsum([(delta(3, 2), 'abc'), (np.array(p.tensor), 'cab')], '')
          tn.flatten_edges_between(c, p)
        else:
          tn.connect(c[0], p[1])
          tn.connect(c[1], p[2])
          tn.connect(c[2], p[0])
          w = meinsum([(delta(3, 2)[:, :, 1:], 'abc'), (np.array(p.tensor)[1:], 'cab')], '')
          tn.slice_edge(c[2], 1, 1)
        try:
          r = np.array(tn.contract_copy_node(c).tensor)
        except ValueError:
          ctx.label('rejected: no delta tensor')
        else:
          if w is None:
            ctx.fail(what + ': contraction of mismatched legs')
          ctx.close(r, w, what + ': contraction of a copy node with flattened or sliced legs')
      network_ok(ctx, items, what + ' rejected')
  finish(ctx, [p[0] for p in items], s, items, case, tol, scale, 'end')
  ctx.nontrivial(done)


def finish(ctx, nodes, s, items, case, tol, scale, what):
  """Contracts what is left; the value is the Einstein sum."""
  out = []
  for k in s.out:
    o = owner(items, k)[0]
    e = None
    for n in nodes:
      for f in n.edges:
        if f.is_dangling() and f.name == 'dangling%d' % k:
          e = f
    ctx.check(e is not None, '{}: the dangling edge {} is lost', what, k)
    out.append(e)
  ctx.equal(len(tn.get_all_dangling(nodes)), len(out), what + ': dangling edges')
  nodes = list(nodes)
  total = sum(n.get_rank() for n in nodes)
  if total > 40 or len(out) > 14:
    raise Skip('large')
  method = [contractors.greedy, contractors.auto, None][case['method'] % 3]
  if method is None or len(nodes) > 9 or case['net']['backend'] == 'tensorflow':
    r = pairwise(ctx, nodes, out, case)
  else:
    r = method(nodes, output_edge_order=out)
  ctx.close(np.array(r.tensor), s.want, what + ': value of the network', tol, scale)


def pairwise(ctx, nodes, out, case):
  nodes = [tn.contract_trace_edges(n) if any(e.is_trace() for e in n.edges) else n for n in nodes]
  while len(nodes) > 1:
    best = None
    for i, a in enumerate(nodes):
      for b in nodes[i + 1:]:
        sh = len(tn.get_shared_edges(a, b))
        c = (sh == 0, a.get_rank() + b.get_rank() - 2 * sh)
        if best is None or c < best[0]:
          best = (c, a, b)
    if best[0][1] > 14:
      raise Skip('large')
    _, a, b = best
    r = tn.contract_between(a, b, allow_outer_product=True)
    nodes = [n for n in nodes if n is not a and n is not b] + [r]
  r = nodes[0]
  r.reorder_edges(out)
  return r


@st.composite
def strategy(draw):
  dim = draw(st.sampled_from([[2], [3], [2], [1], [2, 2, 3], [2], [4]]))
  net = draw(net_case(1, 6, 10, dims=dim, kinds=('int', 'int', 'cint'), backends=BACKENDS))
  net['copy'] = draw(st.lists(st.integers(0, 5), min_size=1, max_size=4, unique=True))
  if net['n'] <= min(net['copy']):
    net['copy'].append(0)
  if draw(st.integers(0, 3)):      # close most networks
    net['edges'] = [[a, (b if b >= 0 else (a + 1) % net['n']), d] for a, b, d in net['edges']]
  ops = draw(st.lists(st.tuples(st.sampled_from(['query', 'copycontract', 'copycontract', 'copycontract', 'pair', 'reorder', 'clone', 'store',
                                                 'bucket', 'bad']), st.integers(0, 999)), min_size=1, max_size=7))
  return dict(net=net, ops=ops, method=draw(st.integers(0, 5)))


PARTS = [Part('network', strategy, run, 6000, 60000)]
