"""C02: contraction gives the same tensor for every order, algorithm and call form."""
import numpy as np
import opt_einsum
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import contractors
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.graphmodel import meinsum
from vt.netgen import net_case, build, perm_of

ID = 'C02'
RULE = ('Random networks of 1-8 (part large: 9-18) nodes (traces, parallel edges, hyper-connected pairs, scalars, '
        'disconnected parts, unit dimensions, excluded outside nodes); contracted by every '
        'contractor, by path_solver+contract_path, by random user-defined optimisers and by random '
        'sequences of contract/contract_between/contract_parallel/@/outer_product; compared to the '
        'direct Einstein sum (integer entries). Non-trivial: at least two nodes and one inner edge.')
ASSUMPTIONS = ['output_edge_order of contract_between is complete, as its documentation requires']


class RandomOptimizer(opt_einsum.paths.PathOptimizer):
  """Contracts pseudo-random pairs."""

  def __init__(self, k):
    self.k = k

  def __call__(self, inputs, output, size_dict, memory_limit=None):
    n = len(inputs)
    path = []
    k = self.k
    while n > 1:
      a, b = perm_of(range(n), k)[:2]
      k = k * 31 % 7919 + 1
      path.append((a, b))
      n -= 1
    return path


def check_final(ctx, b, final, order, where, inside=None):
  inside = range(len(b.nodes)) if inside is None else inside
  want = meinsum([(b.arrays[i], b.labels[i]) for i in inside], order)
  ctx.close(np.asarray(final.tensor), want, where, tol=1e-10)
  ctx.equal(len(final.edges), len(order), where + ': number of edges')
  for i, k in enumerate(order):
    e = b.edges[k]
    ctx.check(final.edges[i] is e, '{}: axis {} does not carry the requested edge', where, i)
    ctx.check(not e.is_disabled, '{}: surviving edge disabled', where)
    ctx.check((e.node1 is final and e.axis1 == i) or (e.node2 is final and e.axis2 == i),
              '{}: surviving edge {} does not point to the final node', where, k)
    ctx.equal(e.dimension, b.dims[k], where + ': dimension of a surviving edge')
  ctx.equal(tuple(final.shape), tuple(b.dims[k] for k in order), where + ': shape')
  tn.check_correct([final], False)


def kw_mem(alg, mem):
  return None if alg == 'custom' else mem


def run_contractor(case, ctx):
  net = case['net']
  b = build(net)
  ctx.label(case['alg'])
  n = net['n']
  ctx.label('%s nodes' % ('1' if n < 2 else '2-4' if n < 5 else '5-8' if n < 9 else '9-14' if n < 15 else '15+'))
  if net['backend'] == 'tensorflow' and any(len(l) > 6 for l in b.labels):
    raise Skip('TensorFlow traces at most rank 6')
  # optionally leave some nodes outside of the contraction
  outside = set()
  if case['outside'] and n > 2:
    outside = {case['outside'] % n}
  inside = [i for i in range(n) if i not in outside]
  cnt = {}
  for i in inside:
    for k in b.labels[i]:
      cnt[k] = cnt.get(k, 0) + 1
  out = [k for k in cnt if cnt[k] == 1]
  # dangling edges of the subgraph: those seen once (traces are seen twice)
  size = np.prod([float(b.dims[k]) for k in out])
  if size > 3000 or len(out) > 20 or np.prod([float(b.dims[k]) for k in cnt]) > 3e5:
    raise Skip('large')
  ctx.nontrivial(len(inside) >= 2 and any(cnt[k] == 2 for k in cnt))
  order = perm_of(out, case['perm'])
  rnodes = [b.nodes[i] for i in perm_of(inside, case['perm'] // 7)]
  coll = [list, tuple, set][case['coll'] % 3](rnodes)
  mem = [None, 4, 10**9, 16, -1][case['mem'] % 5]
  nbranch = [None, 1, 2, 3][case['nb'] % 4]
  alg = case['alg']
  tracy = any(len(set(b.labels[i])) < len(b.labels[i]) for i in inside)
  oeo = [b.edges[k] for k in order]
  kw = {}
  ignore = case['ignore'] % 4 == 0
  given = True
  if ignore:
    kw['ignore_edge_order'] = True
    if case['ignore'] % 8:
      kw['output_edge_order'] = oeo
  elif len(oeo) <= 1 and case['ignore'] % 3 == 0:
    given = False
  else:
    kw['output_edge_order'] = list(oeo)
  if alg in ('path', 'path-auto'):
    solver = 'auto' if alg == 'path-auto' else ['optimal', 'branch', 'greedy', 'auto'][case['nb'] % 4]
    lst = list(rnodes)
    if len(lst) == 1 and solver == 'auto':
      path = []
    else:
      path = contractors.path_solver(solver, lst, memory_limit=None, nbranch=nbranch)
    keep = list(lst)
    final = contractors.contract_path(path, lst, list(oeo))
    ctx.check(lst == keep, 'contract_path changed the list of nodes it was given')
    check_final(ctx, b, final, order, 'path_solver(%s)+contract_path' % solver, inside)
    return
  if alg == 'optimal':
    f = lambda **k: contractors.optimal(coll, memory_limit=mem if mem != -1 else None, **k)
  elif alg == 'branch':
    f = lambda **k: contractors.branch(coll, memory_limit=mem, nbranch=nbranch, **k)
  elif alg == 'greedy':
    f = lambda **k: contractors.greedy(coll, memory_limit=mem, **k)
  elif alg == 'auto':
    f = lambda **k: contractors.auto(coll, memory_limit=mem if mem != -1 else None, **k)
  else:
    f = lambda **k: contractors.custom(coll, RandomOptimizer(case['perm']), memory_limit=mem, **k)
  if case['reject'] % 5 == 0:
    # requests that must be rejected before anything is contracted
    if len(out) > 1:
      ctx.raises(ValueError, lambda: f(), alg + ' without edge order')
    if out:
      ctx.raises(ValueError, lambda: f(output_edge_order=oeo[1:]), alg + ' with missing edge')
    others = [e for k, e in b.edges.items() if k not in out]
    if others:
      if not (alg == 'auto' and len(rnodes) == 1):
        ctx.raises(ValueError, lambda: f(output_edge_order=oeo + others[:1]), alg + ' with foreign edge')
    if alg == 'auto' and len(rnodes) == 1 and tracy:
      b = build(net)
      return
    tn.check_correct(b.nodes, False)
    for nd, a in zip(b.nodes, b.arrays):
      ctx.close(np.asarray(nd.tensor), a, 'rejected contraction changed a node')
  keep = list(oeo)
  if kw_mem(alg, mem) in (4, 16):
    try:
      final = f(**kw)
    except (RuntimeError, ValueError):   # the limit cannot be met: rejected, no wrong value
      ctx.label('memory limit rejected')
      return
  else:
    final = f(**kw)
  ctx.check(oeo == keep, 'output_edge_order was modified')
  if ignore:
    ids = {id(e): k for k, e in b.edges.items()}
    got = [ids.get(id(e)) for e in final.edges]
    ctx.check(sorted(map(str, got)) == sorted(map(str, order)), '{}: remaining edges are not the dangling ones', alg)
    order = got
  check_final(ctx, b, final, order, alg, inside)
  for i in outside:
    ctx.close(np.asarray(b.nodes[i].tensor), b.arrays[i], 'node outside the contraction changed')
    for ax, k in enumerate(b.labels[i]):
      ctx.check(b.nodes[i].edges[ax] is b.edges[k], 'edge of an outside node changed')
  for i in inside:
    if b.nodes[i] is final:
      continue
    for ax, e in enumerate(b.nodes[i].edges):
      ctx.check(e.is_dangling() and e.node1 is b.nodes[i] and e not in final.edges,
                'consumed node {} is still attached to the network', i)


def run_sequence(case, ctx):
  """Contract step by step with random call forms."""
  net = case['net']
  b = build(net)
  live = list(b.nodes)
  labels = {id(nd): list(l) for nd, l in zip(b.nodes, b.labels)}
  ks = list(case['steps'])
  step = 0
  if np.prod([float(d) for d in b.dims.values()]) > 3e5:
    raise Skip('large')
  while True:
    k = ks[step % len(ks)] + 101 * step
    step += 1
    inner = [e for e in b.inner if not b.edges[e].is_disabled]
    if not inner:
      break
    e = b.edges[pick(inner, k)]
    x, y = e.node1, e.node2
    lx, ly = labels[id(x)], labels[id(y)]
    form = (k // 7) % 6
    if x is y:
      if form in (0, 1):
        ek = [q for q in inner if b.edges[q] is e][0]
        new = tn.contract(e)
        lab = [q for q in lx if q != ek]
      else:
        tr = {q for q in lx if lx.count(q) == 2}
        lab = [q for q in lx if q not in tr]
        if form == 2:
          new = tn.contract_parallel(e)
        elif form == 3:
          new = tn.contract_between(x, x)
        else:
          new = tn.contract_trace_edges(x)
      live = [z for z in live if z is not x]
    else:
      sh = {q for q in lx if q in ly}
      if form == 0:
        ek = [q for q in inner if b.edges[q] is e][0]
        new = tn.contract(e)
        lab = [q for q in lx if q != ek] + [q for q in ly if q != ek]
      else:
        lab = [q for q in lx if q not in sh] + [q for q in ly if q not in sh]
        tr = any(lab.count(q) > 1 for q in lab)
        if form == 1:
          new = x @ y
        elif form == 2:
          new = tn.contract_parallel(e)
        elif form == 3 and not tr:
          lab = perm_of(lab, k // 11)
          new = tn.contract_between(x, y, output_edge_order=[b.edges[q] for q in lab])
        elif form == 4:
          f = tn.flatten_edges_between(x, y)
          new = tn.contract(f)
          if e.is_disabled:
            pass
          # axes stay in order: flattened axes are moved to the back first
        else:
          if (k // 13) % 2:
            x, y = y, x
            lab = [q for q in ly if q not in sh] + [q for q in lx if q not in sh]
          new = tn.contract_between(x, y)
      if form == 4 and new.edges and False:
        pass
      live = [z for z in live if z is not x and z is not y]
    if form == 4 and x is not y:
      ids = {id(z): q for q, z in b.edges.items()}
      got = [ids[id(z)] for z in new.edges]
      # contract() keeps the order of the flattened edge's ends
      alt = [q for q in ly if q not in sh] + [q for q in lx if q not in sh]
      ctx.check(got in (lab, alt), 'flatten+contract: axes {} expected {}', got, lab)
      lab = got
    live.append(new)
    labels[id(new)] = lab
    ctx.label('trace' if x is y else 'form%d' % form)
    ctx.equal([id(z) for z in new.edges], [id(b.edges[q]) for q in lab], 'axes after form %d' % form)
    tn.check_correct(live, False)
  ctx.nontrivial(step > 2)
  out = [q for nd in live for q in labels[id(nd)]]
  order = perm_of(out, case['perm'])
  if np.prod([float(b.dims[q]) for q in order]) > 3000 or len(order) > 20:
    raise Skip('large')
  how = case['perm'] % 3
  if len(live) == 1:
    final = live[0].reorder_edges([b.edges[q] for q in order]) if order else live[0]
  elif how == 0:
    final = tn.outer_product_final_nodes(live, [b.edges[q] for q in order])
  else:
    final = live[0]
    lab = labels[id(final)]
    for nd in live[1:]:
      lab = lab + labels[id(nd)]
      if how == 1:
        final = tn.outer_product(final, nd)
      else:
        final = tn.contract_between(final, nd, allow_outer_product=True)
    ctx.equal([id(z) for z in final.edges], [id(b.edges[q]) for q in lab], 'axes after outer products')
    order = lab
  check_final(ctx, b, final, order, 'sequence')


def run_pair(case, ctx):
  """Two nodes with several shared edges in arbitrary axis order."""
  ns, n1, n2 = case['ns'], case['n1'], case['n2']
  dims = case['dims']
  edges = [[0, 1, dims[i]] if case['flip'] >> i & 1 else [1, 0, dims[i]] for i in range(ns)]
  edges += [[0, -1, dims[ns + i]] for i in range(n1)]
  edges += [[1, -1, dims[ns + n1 + i]] for i in range(n2)]
  net = dict(n=2, edges=edges, order=case['order'], seed=case['seed'], kind=case['kind'],
             backend=case['backend'])
  b = build(net)
  if b.arrays[0].size * b.arrays[1].size > 2e5:
    raise Skip('large')
  ctx.nontrivial(ns >= 1 and n1 + n2 >= 1)
  x, y = b.nodes
  out = [k for k in b.labels[0] if k in b.dangling] + [k for k in b.labels[1] if k in b.dangling]
  alt = [k for k in b.labels[1] if k in b.dangling] + [k for k in b.labels[0] if k in b.dangling]
  form = case['form'] % 6
  name = 'result' if case['form'] % 2 else None
  names = ['z%d' % i for i in range(len(out))] if case['form'] // 6 % 2 else None
  ctx.label('form%d' % form)
  if form == 0 and out:
    order = perm_of(out, case['perm'])
    if ns == 0 and False:
      return
    oeo = [b.edges[k] for k in order]
    keep = list(oeo)
    if case['reject'] and ns:
      bad = oeo + [b.edges[0]]
      ctx.raises(ValueError, lambda: tn.contract_between(x, y, output_edge_order=bad),
                 'contract_between: shared edge in output_edge_order')
      z = tn.Node(np.ones((2, 2)), backend=case['backend'])
      ctx.raises(ValueError, lambda: tn.contract_between(x, y, output_edge_order=[z[0]] + oeo),
                 'contract_between: foreign edge in output_edge_order')
      tn.check_correct([x, y], False)
    final = tn.contract_between(x, y, name=name, allow_outer_product=True, output_edge_order=oeo,
                                axis_names=names)
    ctx.check(oeo == keep, 'output_edge_order modified')
  elif form == 1 and ns:
    final = tn.contract_parallel(b.edges[0])
    order = out if b.edges[0].is_disabled and edges[0][0] == 0 else alt
    name = names = None
  elif form == 2 and ns:
    final = x @ y
    order = out
    name = names = None
  elif form == 3:
    if case['reject'] and not ns:
      ctx.raises(ValueError, lambda: tn.contract_between(x, y), 'contract_between without shared edges')
    final = tn.contract_between(y, x, name=name, allow_outer_product=True, axis_names=names)
    order = alt
  elif form == 4 and not ns:
    final = tn.outer_product(x, y, name=name, axis_names=names)
    order = out
  else:
    final = tn.contract_between(x, y, name=name, allow_outer_product=True, axis_names=names)
    order = out
  if name:
    ctx.equal(final.name, name, 'name')
  if names:
    ctx.equal(list(final.axis_names), names, 'axis names')
    for i, q in enumerate(names):
      ctx.check(final[q] is final.edges[i], 'axis name lookup')
  check_final(ctx, b, final, order, 'pair form %d' % form)
  for nd, a in zip((x, y), b.arrays):
    ctx.close(np.asarray(nd.tensor), a, 'contraction modified an operand')
    for e in nd.edges:
      ctx.check(e.is_dangling() and e.node1 is nd, 'consumed node still attached')


def run_topology(case, ctx):
  """from_topology builds the network an einsum-like string spells, or rejects it."""
  net, be = case['net'], case['backend']
  b = build(net, real=False)
  n = net['n']
  if any(len(set(l)) < len(l) for l in b.labels):
    ctx.label('trace')
  letters = [perm_of('abcdefghijklmnopqrstuvwxyzABCDEFGHIJ', case['perm'] // 3 + 1)[k] for k in range(len(b.dims))]
  terms = [''.join(letters[k] for k in l) for l in b.labels]
  top = ','.join(terms)
  give = [a.copy() for a in b.arrays]
  bad = case['bad']
  kw = {} if be is None else {'backend': be}
  if bad == 1:
    ctx.raises(ValueError, lambda: tn.from_topology(top + ',', give, **kw), 'one tensor too few')
  elif bad == 2:
    ctx.raises(ValueError, lambda: tn.from_topology(top, give + [np.ones(())], **kw), 'one tensor too many')
  elif bad == 3:
    ctx.raises(ValueError, lambda: tn.from_topology(top + 'Z', give, **kw), 'wrong rank')
  elif bad == 4 and b.inner:
    k = b.inner[0]
    i = max(q for q in range(n) if k in b.labels[q])
    if b.labels[i].count(k) == 1:
      sh = [b.dims[q] + (q == k) for q in b.labels[i]]
      ctx.raises(ValueError, lambda: tn.from_topology(top, give[:i] + [np.ones(sh)] + give[i + 1:], **kw),
                 'unequal dimensions')
  elif bad == 5 and b.inner:
    k = b.inner[0]
    ctx.raises(ValueError, lambda: tn.from_topology(top + ',' + letters[k], give + [np.ones(b.dims[k])], **kw),
               'a letter used three times')
  if any(len(set(l)) < len(l) for l in b.labels):
    ctx.raises(ValueError, lambda: tn.from_topology(top, give, **kw), 'a letter twice in one term')
    return
  nodes = tn.from_topology(top, give if case['perm'] % 2 else tuple(give), **kw)
  ctx.nontrivial(n > 1 and bool(b.inner))
  ctx.equal(len(nodes), n, 'number of nodes')
  where = {}
  for i, (nd, a, l, t) in enumerate(zip(nodes, b.arrays, b.labels, terms)):
    ctx.close(np.asarray(nd.tensor), a, 'tensor %d' % i)
    ctx.equal(list(nd.axis_names), list(t), 'axis names')
    ctx.equal(nd.backend.name, be or 'numpy', 'backend')
    for ax, k in enumerate(l):
      where.setdefault(k, []).append((nd, ax))
  b.nodes, b.edges = nodes, {}
  for k, ends in where.items():
    e = ends[0][0].edges[ends[0][1]]
    b.edges[k] = e
    ctx.equal(len(ends), 2 if k in b.inner else 1, 'ends')
    ctx.check(all(nd.edges[ax] is e for nd, ax in ends), 'letter {} is not one edge', letters[k])
    ctx.check(e.is_dangling() == (k not in b.inner), 'letter {}', letters[k])
  tn.check_correct(nodes, False)
  for g, a in zip(give, b.arrays):
    ctx.check(np.array_equal(g, a), 'an argument was modified')
  out = [k for k in b.dims if k not in b.inner]
  if np.prod([float(d) for d in b.dims.values()]) > 3e5 or np.prod([float(b.dims[k]) for k in out]) > 3000:
    raise Skip('large')
  order = perm_of(out, case['perm'])
  oeo = [b.edges[k] for k in order]
  check_final(ctx, b, contractors.greedy(nodes, output_edge_order=oeo), order, 'from_topology + greedy')


def st_topology(backends):
  return st.fixed_dictionaries(dict(
      net=st.one_of(net_case(2, 6, 9, kinds=('int', 'cint'), traces=False), net_case(2, 6, 9, kinds=('cint',), traces=False),
                    net_case(1, 5, 9, kinds=('int', 'cint'))), perm=st.integers(0, 50400), bad=st.integers(0, 14),
      backend=st.sampled_from(list(backends))))


def st_contractor(backend, algs=('optimal', 'branch', 'greedy', 'auto', 'custom', 'path'), mx=7):
  return st.fixed_dictionaries(dict(
      net=net_case(1, mx, 10, backends=(backend,), kinds=('int', 'int', 'cint')),
      alg=st.sampled_from(list(algs)), perm=st.integers(0, 5040), coll=st.integers(0, 2),
      mem=st.integers(0, 4), nb=st.integers(0, 3), ignore=st.integers(0, 23),
      outside=st.sampled_from([0, 0, 0, 1, 2, 3]), reject=st.integers(0, 9)))


def st_sequence(backend):
  return st.fixed_dictionaries(dict(
      net=net_case(2, 6, 10, backends=(backend,), kinds=('int', 'cint')),
      steps=st.lists(st.integers(0, 2000), min_size=3, max_size=10), perm=st.integers(0, 5040)))


def st_pair(backend):
  return st.fixed_dictionaries(dict(
      ns=st.integers(0, 4), n1=st.integers(0, 3), n2=st.integers(0, 3),
      dims=st.lists(st.sampled_from([1, 2, 2, 3]), min_size=10, max_size=10),
      flip=st.integers(0, 15), order=st.lists(st.integers(0, 5039), min_size=2, max_size=2),
      seed=seeds, kind=st.sampled_from(['int', 'cint']), backend=st.just(backend),
      form=st.integers(0, 11), perm=st.integers(0, 719), reject=st.booleans()))


@st.composite
def big_net(draw, lo, hi):
  """A sparse network of many nodes: ring or tree, few chords, traces and dangling edges."""
  n = draw(st.integers(lo, hi))
  edges = []
  shape = draw(st.integers(0, 2))
  for i in range(1, n):
    j = i - 1 if shape == 0 else draw(st.integers(max(0, i - 4), i - 1))
    edges.append([i, j] if draw(st.booleans()) else [j, i])
  if shape == 2:
    edges.pop(draw(st.integers(0, len(edges) - 1)))       # two components
  for _ in range(draw(st.integers(0, 4))):
    edges.append([draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))])
  for _ in range(draw(st.integers(0, 6))):
    edges.append([draw(st.integers(0, n - 1)), -1])
  d = draw(st.lists(st.sampled_from([1, 2, 2]), min_size=len(edges), max_size=len(edges)))
  left = 16
  for e, x in zip(edges, d):
    if left <= 0:
      x = 1
    left -= x == 2
    e.append(x)
  return dict(n=n, edges=edges, order=draw(st.lists(st.integers(0, 719), min_size=n, max_size=n)),
              seed=draw(seeds), kind=draw(st.sampled_from(['int', 'cint'])), backend='numpy')


def st_large():
  return st.fixed_dictionaries(dict(
      net=big_net(9, 18), alg=st.sampled_from(['greedy', 'auto', 'auto', 'auto', 'custom', 'path-auto']),
      perm=st.integers(0, 10**9), coll=st.integers(0, 2), mem=st.sampled_from([0, 2, 4]), nb=st.integers(0, 3),
      ignore=st.integers(0, 23), outside=st.sampled_from([0, 0, 0, 1, 5]), reject=st.integers(0, 29)))


PARTS = [
    Part('contractors', lambda: st_contractor('numpy'), run_contractor, quick=6000, thorough=80000),
    Part('large', st_large, run_contractor, quick=1500, thorough=20000),
    Part('topology', lambda: st_topology(['numpy', None]), run_topology, quick=2500, thorough=25000),
    Part('topology-tf-jax', lambda: st_topology(['tensorflow', 'jax']), run_topology, quick=80, thorough=1500,
         shards=2),
    Part('sequence', lambda: st_sequence('numpy'), run_sequence, quick=4000, thorough=50000),
    Part('pair', lambda: st_pair('numpy'), run_pair, quick=5000, thorough=50000),
    Part('contractors-tf', lambda: st_contractor('tensorflow', mx=5), run_contractor, quick=160,
         thorough=3000, shards=4),
    Part('pair-tf', lambda: st_pair('tensorflow'), run_pair, quick=300, thorough=3000, shards=3),
    Part('pair-jax', lambda: st_pair('jax'), run_pair, quick=60, thorough=600, shards=2),
]
