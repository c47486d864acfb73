"""C03: contraction path solvers return valid paths with true, minimal cost."""
import itertools
import math
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import contractors
from tensornetwork.contractors.custom_path_solvers import pathsolvers
from tensornetwork.contractors.custom_path_solvers import nconinterface
from vt.core import Part, Skip
from vt.gens import arr, seeds
from vt.graphmodel import meinsum
from vt.netgen import net_case, layout, build, perm_of

ID = 'C03'
RULE = ('Random networks of 1-7 tensors (parallel edges, traces, unit dimensions, disconnected parts, '
        'scalars, open legs) as log-adjacency matrices, ncon labels and node networks; solver orders '
        'are replayed on label sets, costs recomputed, and the minimum found by an independent '
        'dynamic program over all subsets. Non-trivial: at least 3 tensors and 2 inner edges.')
ASSUMPTIONS = ['costs are products of the dimensions of all labels of the two operands (partial '
               'traces are free, as documented)']
TOL = 1e-6


def size(labels, dims):
  r = 1
  for l in labels:
    r *= dims[l]
  return r


def free_labels(labels):
  """Labels of each tensor after partial traces."""
  return [frozenset(l for l in ls if ls.count(l) == 1) for ls in labels]


def replay(ctx, order, tensors, dims, where, style):
  """Follows pairwise contractions; returns (cost, number of outer products)."""
  cur = list(tensors)
  cost = 0
  outer = 0
  for pair in order:
    if len(pair) == 1 and style != 'merge':   # partial trace of one tensor
      ctx.check(0 <= pair[0] < len(cur), '{}: no tensor {}', where, pair[0])
      cur.append(cur.pop(pair[0]))
      continue
    ctx.equal(len(pair), 2, where + ': not a pairwise contraction')
    a, b = int(pair[0]), int(pair[1])
    ctx.check(a != b and 0 <= a < len(cur) and 0 <= b < len(cur),
              '{}: pair ({}, {}) is not valid for {} remaining tensors', where, a, b, len(cur))
    x, y = cur[a], cur[b]
    cost += size(x | y, dims)
    if not any(dims[l] > 1 for l in x & y):
      outer += 1
    z = x ^ y
    if style == 'merge':           # result takes the place of the first operand
      cur[a] = z
      del cur[b]
    else:                          # opt_einsum: result appended at the end
      cur = [t for i, t in enumerate(cur) if i not in (a, b)] + [z]
  ctx.equal(len(cur), 1, where + ': tensors left after following the order')
  return cost, outer


def subset_min(tensors, dims, outer, unit=True):
  """Minimal total cost of contracting everything.

  outer=True: any pairwise order.  outer=False: only pairs sharing a label
  (with dimension > 1 unless unit) while there are any, then outer products.
  """
  n = len(tensors)
  lab = {}
  for m in range(1, 1 << n):
    s = frozenset()
    for i in range(n):
      if m >> i & 1:
        s = s ^ tensors[i]
    lab[m] = s

  def joined(a, b):
    return any(unit or dims[l] > 1 for l in lab[a] & lab[b])

  best = {1 << i: 0 for i in range(n)}
  for m in sorted(range(1, 1 << n), key=lambda v: bin(v).count('1')):
    if m in best:
      continue
    low = m & -m
    rest = m ^ low
    v = None
    for bits in range(rest + 1):
      if bits & rest != bits or bits == rest:
        continue
      a = low | bits
      b = m ^ a
      if a not in best or b not in best:
        continue
      if not outer and not joined(a, b):
        continue
      c = best[a] + best[b] + size(lab[a] | lab[b], dims)
      if v is None or c < v:
        v = c
    if v is not None:
      best[m] = v
  full = (1 << n) - 1
  if outer or full in best:
    return best[full]
  # connected components, then all orders of outer products
  comps = []
  left = full
  while left:
    c = left & -left
    while True:
      g = c
      for i in range(n):
        if left >> i & 1 and not c >> i & 1 and any(
            unit or dims[l] > 1 for j in range(n) if c >> j & 1 for l in tensors[i] & tensors[j]):
          g |= 1 << i
      if g == c:
        break
      c = g
    comps.append(c)
    left &= ~c
  base = sum(best[c] for c in comps)
  return base + subset_min([lab[c] for c in comps], dims, True)


def prepare(case):
  net = case['net']
  lab, dims = layout(net)
  labels = [[k for k, _ in l] for l in lab]
  return net, labels, dims


def log10(x):
  return math.log10(x)


def run_solve(case, ctx):
  net, labels, dims = prepare(case)
  n = net['n']
  tens = free_labels(labels)
  adj = np.zeros((n, n))
  for k, (a, b, d) in enumerate(net['edges']):
    if b < 0:
      adj[a, a] += np.log10(d)
    elif a != b:
      adj[a, b] += np.log10(d)
      adj[b, a] += np.log10(d)
  keep = adj.copy()
  inner = [e for e in net['edges'] if e[1] >= 0 and e[1] != e[0]]
  ctx.nontrivial(n >= 3 and len(inner) >= 2)
  free_min = subset_min(tens, dims, True) if n > 1 else 0
  ref_min = subset_min(tens, dims, False, unit=False) if n > 1 else 0
  for name, f in (('greedy_size_solve', pathsolvers.greedy_size_solve),
                  ('greedy_cost_solve', pathsolvers.greedy_cost_solve)):
    if n == 1:
      continue
    order, cost = f(adj)
    ctx.check(np.array_equal(adj, keep), '{} changed the adjacency matrix', name)
    true, _ = replay(ctx, np.asarray(order).T.tolist(), tens, dims, name, 'merge')
    ctx.close(float(cost), log10(true), name + ': reported cost', tol=TOL)
    ctx.check(true >= free_min, '{}: cost {} below the minimum {}', name, true, free_min)
  greedy = None
  for mb in (None, case['max_branch']):
    w = 'full_solve_complete(max_branch=%s)' % mb
    order, cost, is_opt = pathsolvers.full_solve_complete(adj, max_branch=mb)
    ctx.check(np.array_equal(adj, keep), '{} changed the adjacency matrix', w)
    ctx.equal(np.asarray(order).shape, (2, n - 1), w + ': shape of the order')
    true, outer = replay(ctx, np.asarray(order).T.tolist(), tens, dims, w, 'merge')
    if n == 1:
      continue
    ctx.label('outer' if outer else 'inner')
    ctx.close(float(cost), log10(true), w + ': reported cost', tol=TOL)
    ctx.check(true >= free_min * (1 - TOL), '{}: cost {} below the minimum {}', w, true, free_min)
    if is_opt:
      ctx.label('optimal')
      ctx.check(true <= ref_min * (1 + 1e-4), '{}: claims optimality at {} but {} is possible', w, true, ref_min)
    if mb is None:
      ctx.check(true <= ref_min * (1 + 1e-4), '{}: cost {} but {} is possible', w, true, ref_min)
      if not is_opt:
        ctx.check(true <= ref_min * (1 + 1e-4), '{}: exhaustive search not reported optimal', w)


def run_ncon(case, ctx):
  net, labels, dims = prepare(case)
  n = net['n']
  tens = free_labels(labels)
  inner = [k for k, e in enumerate(net['edges']) if e[1] >= 0]
  open_ = [k for k, e in enumerate(net['edges']) if e[1] < 0]
  if len(open_) > 8 or size(dims, dims) > 3e5 or any(size(l, dims) > 1e5 for l in labels):
    raise Skip('large')
  ctx.nontrivial(n >= 3 and len(inner) >= 2)
  num = {k: i + 1 for i, k in enumerate(perm_of(inner, case['perm']))}
  num.update({k: -(i + 1) for i, k in enumerate(perm_of(open_, case['perm']))})
  nlab = [[num[k] for k in ls] for ls in labels]
  arrays = [arr([dims[k] for k in ls], net['seed'] + i, 'int') for i, ls in enumerate(labels)]
  keep = [list(l) for l in nlab]
  mb = case['max_branch']
  con, cost, is_opt = nconinterface.ncon_solver(arrays, nlab, max_branch=mb)
  ctx.check(nlab == keep, 'ncon_solver changed the labels')
  con = [int(c) for c in con]
  ctx.equal(sorted(con), sorted(num[k] for k in inner), 'ncon_solver: labels in the contraction order')
  out = sorted((num[k] for k in open_), reverse=True)
  back = {v: k for k, v in num.items()}
  want = meinsum(list(zip(arrays, labels)), [back[o] for o in out])
  if n > 1 or nlab[0]:
    ctx.close(tn.ncon(arrays, nlab, con_order=con), want, 'ncon with the solved order', tol=1e-9)
  # cost of an order: follow the labels, contracting whole bundles
  for name, order in (('solved', con), ('random', [num[k] for k in perm_of(inner, case['perm2'])]),
                      ('default', None)):
    cur = [frozenset(num[l] for l in t) for t in tens]
    nd = {v: dims[k] for v, k in back.items()}
    total = 0
    outer_after = 0
    for c in (order if order is not None else sorted(num[k] for k in inner)):
      pos = [i for i, t in enumerate(cur) if c in t]
      if len(pos) < 2:
        continue
      x, y = cur[pos[0]], cur[pos[1]]
      total += size(x | y, nd)
      cur = [t for i, t in enumerate(cur) if i not in pos] + [x ^ y]
    sizes = sorted(size(t, nd) for t in cur)
    outer_after = len(sizes) - 1
    while len(sizes) > 1:
      total += sizes[0] * sizes[1]
      sizes = sorted([sizes[0] * sizes[1]] + sizes[2:])
    got = nconinterface.ncon_cost_check(arrays, nlab, order)
    if total == 0:
      ctx.check(got == float('-inf'), 'ncon_cost_check of nothing: {}', got)
    else:
      ctx.close(float(got), log10(total), 'ncon_cost_check(%s order)' % name, tol=TOL)
    if name == 'solved' and outer_after == 0 and n > 1:
      # bundles merged by the solver are the ones replayed here unless it used outer products
      free_min = subset_min(tens, dims, True)
      ctx.check(10 ** float(cost) >= free_min * (1 - 1e-5), 'ncon_solver: cost below the minimum')
      ref_min = subset_min(tens, dims, False, unit=False)
      if mb is None or is_opt:
        ctx.check(10 ** float(cost) <= ref_min * (1 + 1e-4),
                  'ncon_solver: cost {} but {} is possible', 10 ** float(cost), ref_min)
        if min(dims.values()) > 1 and is_opt:
          ctx.close(float(got), float(cost), 'ncon_cost_check of the solved order vs reported cost', tol=1e-5)


def run_nodes(case, ctx):
  net = case['net']
  b = build(net)
  n = net['n']
  tens = free_labels(b.labels)
  if size(b.dims, b.dims) > 1e6:
    raise Skip('large')
  ctx.nontrivial(n >= 3 and len(b.inner) >= 2)
  alg = case['alg']
  ctx.label(alg)
  nb = [None, 1, 2][case['max_branch'] % 3 if case['max_branch'] else 0]
  if n == 1 and alg == 'auto':
    return
  path = contractors.path_solver(alg, list(b.nodes), nbranch=nb)
  tn.check_correct(b.nodes, False)
  if n == 1:
    return
  cost, outer = replay(ctx, [list(p) for p in path], tens, b.dims, 'path_solver(%s)' % alg, 'append')
  free_min = subset_min(tens, b.dims, True)
  ctx.check(cost >= free_min, 'impossible cost')
  # connected? then 'optimal' must reach the minimum over orders without outer products
  comp = {0}
  while True:
    g = {j for j in range(n) for i in comp if tens[i] & tens[j]} | comp
    if g == comp:
      break
    comp = g
  if alg == 'optimal' and len(comp) == n:
    ref = subset_min(tens, b.dims, False, unit=True)
    ctx.check(cost <= ref, 'path_solver(optimal): cost {} but {} is possible', cost, ref)


def strat(mx, dims, **extra):
  return st.fixed_dictionaries(dict(
      net=net_case(1, mx, 11, dims=dims), perm=st.integers(0, 5040), perm2=st.integers(0, 5040),
      max_branch=st.sampled_from([None, None, 1, 2, 3, 10]), **extra))


def strat_large():
  @st.composite
  def s(draw):
    n = draw(st.integers(9, 10))
    edges = [[i, i + 1, draw(st.sampled_from([2, 3, 4]))] for i in range(n - 1)]
    for i in range(n):
      for j in range(i + 2, n):
        if draw(st.integers(0, 3)):
          edges.append([i, j, draw(st.sampled_from([2, 3, 4, 5]))])
    return dict(net=dict(n=n, edges=edges, order=[0] * n, seed=0, kind='int', backend='numpy'),
                perm=0, perm2=0, max_branch=draw(st.sampled_from([5, 50, 500])))
  return s()


PARTS = [
    Part('solve', lambda: strat(7, (1, 2, 3, 4, 7, 10)), run_solve, quick=2500, thorough=40000),
    Part('solve-large', lambda: strat_large(), run_solve, quick=24, thorough=600, shards=8),
    Part('ncon', lambda: strat(6, (1, 2, 2, 3, 3)), run_ncon, quick=2500, thorough=40000),
    Part('nodes', lambda: strat(7, (1, 2, 3, 4), alg=st.sampled_from(['optimal', 'optimal', 'branch', 'greedy', 'auto'])),
         run_nodes, quick=2500, thorough=40000),
]
