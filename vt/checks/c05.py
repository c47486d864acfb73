"""C05: splits and decompositions reconstruct, are isometric and truncate optimally."""
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from vt.core import Part, Skip
from vt.gens import arr, pick, seeds
from vt.graphmodel import meinsum
from vt.netgen import perm_of

ID = 'C05'
RULE = ('Random tensors of rank 2-5 (random, integer, prescribed spectra with repeated, decaying and '
        'zero singular values, zero and rank-deficient matrices; real and complex, double and single '
        'precision) cut at any axis / into any ordered edge bipartition, with singular-value caps and '
        'absolute or relative error bounds placed between the attainable truncation errors. '
        'Non-trivial: both sides of the cut have dimension at least 2.')
ASSUMPTIONS = ['error bounds lie clearly between attainable values, or are attained exactly in floating point (ties part)']


def matrix_of(case, m, n):
  kind = case['kind']
  cplx = case['complex']
  seed = case['seed']
  if kind == 'random':
    return arr((m, n), seed, 'complex' if cplx else 'real')
  if kind == 'int':
    a = arr((m, n), seed, 'cint' if cplx else 'int')
    rng = np.random.default_rng(seed)
    return a * rng.integers(0, 2, (m, n))
  if kind == 'zero':
    return np.zeros((m, n), dtype=complex if cplx else float)
  k = min(m, n)
  base = case['spectrum']
  s = np.array([base[i % len(base)] for i in range(k)], dtype=float)
  if kind == 'decay':
    s = 10.0 ** (-np.arange(k) / 2.0) * 3
  u = np.linalg.qr(arr((m, m), seed + 1, 'complex' if cplx else 'real'))[0][:, :k]
  v = np.linalg.qr(arr((n, n), seed + 2, 'complex' if cplx else 'real'))[0][:, :k]
  return (u * s) @ v.conj().T


def truncation(case, s):
  """(max_singular_values, err argument, relative, kept) from the abstract choice."""
  k = len(s)
  mx = None
  if case['cap'] is not None:
    mx = 1 + case['cap'] % (k + 2)
  err = None
  rel = case['relative']
  keep_err = k
  if case['err'] is not None and k:
    # truncation errors when keeping j values, j = k .. 0
    errs = [float(np.sqrt(np.sum(s[j:] ** 2))) for j in range(k, -1, -1)]
    top = errs[-1] + 1e-30
    gaps = [i for i in range(k) if errs[i + 1] - errs[i] > 1e-4 * max(top, 1e-3)]
    if not gaps:
      return mx, None, False, min(mx or k, k)
    i = pick(gaps, case['err'])
    lo, hi = errs[i], errs[i + 1]
    t = [0.5, 0.2, 0.8][case['err'] % 3]
    e = lo + (hi - lo) * t
    keep_err = k - i
    if case['err'] % 11 == 10:
      e = 2 * top
      keep_err = 0
    if rel and s[0] > 0:
      err = e / float(s[0])
    else:
      err, rel = e, False
  elif rel:
    rel = False
  return mx, err, rel, min(mx if mx is not None else k, keep_err)


def eps(case):
  return 3e-4 if case['single'] else 1e-9


def to_np(x):
  return np.asarray(x)


def check_svd(ctx, case, mat, u, s, vh, rest, keep, sref, where):
  """u (m,k), s (k,), vh (k,n), rest."""
  tol = eps(case)
  sc = 1 + (float(sref[0]) if len(sref) else 0)
  ctx.equal(s.shape, (keep,), where + ': number of singular values kept')
  ctx.close(s, sref[:keep], where + ': kept singular values', tol=tol, scale=sc)
  ctx.close(rest, sref[keep:], where + ': discarded singular values', tol=tol, scale=sc)
  ctx.check(np.all(np.real(s) >= -tol * sc), '{}: negative singular values', where)
  if u is not None:
    ctx.close(u.conj().T @ u, np.eye(keep), where + ': left factor not isometric', tol=tol)
    ctx.close(vh @ vh.conj().T, np.eye(keep), where + ': right factor not isometric', tol=tol)
    approx = (u * s) @ vh
    best = float(np.sqrt(np.sum(sref[keep:] ** 2)))
    err = float(np.linalg.norm(mat - approx))
    ctx.check(abs(err - best) <= tol * sc * 3, '{}: approximation error {} but {} is optimal', where, err, best)


def make(case):
  shape = case['shape']
  n = len(shape)
  p = 1 + case['pivot'] % (n - 1)
  m, r = int(np.prod(shape[:p])), int(np.prod(shape[p:]))
  if m * r > 4000:
    raise Skip('large')
  mat = matrix_of(case, m, r)
  if case['single']:
    mat = mat.astype(np.complex64 if case['complex'] else np.float32)
  return shape, p, m, r, mat


def run_tensor(case, ctx):
  shape, p, m, r, mat = make(case)
  ctx.nontrivial(min(m, r) >= 2)
  be = backend_factory.get_backend(case['backend'])
  a = mat.reshape(shape)
  given = a.copy()
  op = case['op']
  ctx.label(op, case['kind'])
  pivot = p if case['neg'] % 3 else p - len(shape)
  use_tensor = case['neg'] % 2
  t = be.convert_to_tensor(given) if not use_tensor else tn.Tensor(given, backend=case['backend'])
  tol = eps(case)
  default = case['neg'] % 5 == 0 and p == len(shape) - 1
  args = () if default else (pivot,)
  mod = tn.linalg.linalg if use_tensor else be

  def out(x):
    if use_tensor:
      ctx.check(isinstance(x, tn.Tensor) and x.backend.name == case['backend'],
                'result is not a Tensor of the same backend')
      x = x.array
    return np.asarray(x)
  k = min(m, r)
  sc = 1 + float(np.max(np.abs(mat), initial=0))
  if op == 'svd':
    sref = np.linalg.svd(mat.astype(complex), compute_uv=False)
    mx, err, rel, keep = truncation(case, sref)
    kw = {}
    if mx is not None:
      kw['max_singular_values'] = mx
    if err is not None:
      kw['max_truncation_error'] = err
      kw['relative'] = rel
    if keep < k:
      ctx.label('truncated')
    u, s, vh, rest = [out(x) for x in mod.svd(t, *args, **kw)]
    ctx.equal(u.shape, tuple(shape[:p]) + (keep,), 'svd: shape of u')
    ctx.equal(vh.shape, (keep,) + tuple(shape[p:]), 'svd: shape of vh')
    ctx.equal((u.dtype, vh.dtype, s.dtype), (mat.dtype,) * 3, 'svd: dtypes')
    check_svd(ctx, case, mat, u.reshape(m, keep), s, vh.reshape(keep, r), rest, keep, sref, 'svd')
  else:
    nn = case['nonneg']
    kw = dict(non_negative_diagonal=nn) if nn or case['neg'] % 2 else {}
    x, y = [out(z) for z in getattr(mod, op)(t, *args, **kw)]
    ctx.equal(x.shape, tuple(shape[:p]) + (k,), op + ': shape of the left factor')
    ctx.equal(y.shape, (k,) + tuple(shape[p:]), op + ': shape of the right factor')
    ctx.equal((x.dtype, y.dtype), (mat.dtype,) * 2, op + ': dtypes')
    x, y = x.reshape(m, k), y.reshape(k, r)
    ctx.close(x @ y, mat, op + ': product of the factors', tol=tol)
    q, rr = (x, y) if op == 'qr' else (y, x)
    if op == 'qr':
      ctx.close(q.conj().T @ q, np.eye(k), 'qr: Q not isometric', tol=tol)
      ctx.close(np.tril(rr, -1), np.zeros_like(rr), 'qr: R not upper triangular', tol=tol, scale=sc)
    else:
      ctx.close(q @ q.conj().T, np.eye(k), 'rq: Q not isometric', tol=tol)
      ctx.close(np.triu(rr, 1), np.zeros_like(rr), 'rq: R not lower triangular', tol=tol, scale=sc)
    if nn:
      d = np.diagonal(rr)
      ctx.check(np.all(np.real(d) >= -tol * sc) and np.all(np.abs(np.imag(d)) <= tol * sc),
                '{}: diagonal {} not non-negative', op, d)
  ctx.check(np.array_equal(given, a), 'the input array was modified')


def run_split(case, ctx):
  """split_node and friends on a node that may be attached to neighbours."""
  shape, p, m, r, mat = make(case)
  n = len(shape)
  ctx.nontrivial(min(m, r) >= 2)
  # the matrix rows/columns are the chosen ordered edge lists
  order = perm_of(range(n), case['perm'])      # axis of node for each position of `shape`
  a = mat.reshape(shape)
  tensor = a.transpose(np.argsort(order))      # node axis order[i] carries shape[i]
  names = ['A%d' % i for i in range(n)]
  explicit = case['neg'] % 2
  node = tn.Node(tensor.copy(), name='big', axis_names=names if explicit else None, backend=case['backend'])
  edges = [None] * n
  others = []
  for ax in range(n):
    e = node[ax]
    e.set_name('E%d' % ax)
    if case['att'] >> ax & 1:
      o = tn.Node(arr((tensor.shape[ax], 2), ax, 'real'), backend=case['backend'])
      e = (node[ax] ^ o[0]) if case['att'] >> (ax + 3) & 1 else (o[0] ^ node[ax])
      e.set_name('E%d' % ax)
      others.append((ax, o))
    edges[ax] = e
  left = [edges[order[i]] for i in range(p)]
  right = [edges[order[i]] for i in range(p, n)]
  keepl, keepr = list(left), list(right)
  lname, rname = ('L', 'R') if case['names'] & 1 else (None, None)
  ename = 'bond' if case['names'] & 2 else None
  tol = eps(case)
  op = case['op']
  ctx.label(op)
  k = min(m, r)
  kw = {}
  if lname:
    kw.update(left_name=lname, right_name=rname)
  sref = np.linalg.svd(mat.astype(complex), compute_uv=False)
  keep = k
  mid = None
  if op in ('svd', 'full'):
    mx, err, rel, keep = truncation(case, sref)
    if mx is not None:
      kw['max_singular_values'] = mx
    if err is not None:
      kw['max_truncation_err'] = err
      kw['relative'] = rel
    if keep < k:
      ctx.label('truncated')
  if keep == 0 and (op == 'full'):
    keep0 = True
  bond2 = None
  if op == 'svd':
    if ename:
      kw['edge_name'] = ename
    l, rt, rest = tn.split_node(node, left, right, **kw)
  elif op == 'full':
    if ename:
      kw['left_edge_name'], kw['right_edge_name'] = ename, 'bond2'
      bond2 = 'bond2'
    if lname:
      kw['middle_name'] = 'M'
    l, mid, rt, rest = tn.split_node_full_svd(node, left, right, **kw)
  else:
    if ename:
      kw['edge_name'] = ename
    f = tn.split_node_qr if op == 'qr' else tn.split_node_rq
    l, rt = f(node, left, right, **kw)
  ctx.check(left == keepl and right == keepr, 'edge lists were modified')
  # structure
  for where, nd, es, off in (('left', l, left, 0), ('right', rt, right, 1)):
    ctx.equal(len(nd.edges), len(es) + 1, where + ' node rank')
    for i, e in enumerate(es):
      ctx.check(nd.edges[i + off] is e, '{} node: edge {} not at axis {}', where, i, i + off)
      ctx.check((e.node1 is nd and e.axis1 == i + off) or (e.node2 is nd and e.axis2 == i + off),
                '{} node: edge end not updated', where)
      ctx.check(node not in (e.node1, e.node2), '{} node: edge still attached to the split node', where)
  for ax, e in enumerate(edges):
    ctx.equal(e.name, 'E%d' % ax, 'edge names must survive')
  for ax, o in others:
    ctx.check(o.edges[0] is edges[ax], 'neighbour lost its edge')
    ctx.check(o in (edges[ax].node1, edges[ax].node2), 'edge lost its neighbour')
  for e in node.edges:
    ctx.check(e.is_dangling() and e.node1 is node and e not in edges, 'split node still attached')
  lb, rb = l.edges[-1], rt.edges[0]
  if mid is None:
    ctx.check(lb is rb and lb.node1 is l and lb.node2 is rt, 'the new edge does not join the parts')
  else:
    ctx.check(mid.edges[0] is lb and mid.edges[1] is rb, 'middle node edges')
    ctx.check(lb.node1 is l and lb.node2 is mid and rb.node1 is mid and rb.node2 is rt, 'bond ends')
  if lname:
    ctx.equal((l.name, rt.name), (lname, rname), 'names of the parts')
    if mid is not None:
      ctx.equal(mid.name, 'M', 'name of the middle node')
  if ename:
    ctx.equal(lb.name, ename, 'name of the new edge')
    ctx.check(l[ename] is lb, 'new axis is not named after the edge')
    if mid is not None:
      ctx.equal(rb.name, bond2, 'name of the right edge')
      ctx.check(mid[ename] is lb and mid[bond2] is rb and rt[bond2] is rb, 'axis names of the bonds')
    else:
      ctx.check(rt[ename] is rb, 'new axis is not named after the edge')
    if explicit:
      for i, e in enumerate(left):
        ctx.check(l[names[order[i]]] is e, 'axis name lost on the left node')
      for i, e in enumerate(right):
        ctx.check(rt[names[order[p + i]]] is e, 'axis name lost on the right node')
  tn.check_correct([x for x in (l, mid, rt) if x is not None] + [o for _, o in others], False)
  lt = np.asarray(l.tensor)
  rr = np.asarray(rt.tensor)
  ctx.equal(lt.shape, tuple(shape[:p]) + (keep,), 'left shape')
  ctx.equal(rr.shape, (keep,) + tuple(shape[p:]), 'right shape')
  lt, rr = lt.reshape(m, keep), rr.reshape(keep, r)
  ctx.close(np.asarray(node.tensor), tensor, 'tensor of the split node changed')
  sc = 1 + float(sref[0])
  if op == 'svd':
    rest = np.asarray(rest)
    ctx.close(rest, sref[keep:], 'discarded singular values', tol=tol, scale=sc)
    d = np.diag(sref[:keep])
    ctx.close(lt.conj().T @ lt, d, 'left part is not U sqrt(S)', tol=tol * 3, scale=sc)
    ctx.close(rr @ rr.conj().T, d, 'right part is not sqrt(S) V', tol=tol * 3, scale=sc)
    best = float(np.sqrt(np.sum(sref[keep:] ** 2)))
    e = float(np.linalg.norm(mat - lt @ rr))
    ctx.check(abs(e - best) <= 5 * tol * sc, 'split_node: error {} but {} is optimal', e, best)
  elif op == 'full':
    mt = np.asarray(mid.tensor)
    ctx.equal(mt.shape, (keep, keep), 'middle shape')
    s = np.diagonal(mt)
    ctx.close(mt, np.diag(s), 'middle node is not diagonal', tol=1e-12)
    check_svd(ctx, case, mat, lt, s, rr, np.asarray(rest), keep, sref, 'split_node_full_svd')
  else:
    ctx.close(lt @ rr, mat, 'product of the parts', tol=tol)
    if op == 'qr':
      ctx.close(lt.conj().T @ lt, np.eye(k), 'left part not isometric', tol=tol)
      ctx.close(np.tril(rr, -1), np.zeros_like(rr), 'R not upper triangular', tol=tol, scale=sc)
    else:
      ctx.close(rr @ rr.conj().T, np.eye(k), 'right part not isometric', tol=tol)
      ctx.close(np.triu(lt, 1), np.zeros_like(lt), 'R not lower triangular', tol=tol, scale=sc)
  for x in (l, rt, mid):
    if x is not None:
      ctx.equal(np.asarray(x.tensor).dtype, mat.dtype, 'dtype of a part')


def strat(backend, ops, maxdim=4):
  return st.fixed_dictionaries(dict(
      shape=st.lists(st.integers(1, maxdim), min_size=2, max_size=5), pivot=st.integers(0, 9),
      kind=st.sampled_from(['random', 'int', 'spectrum', 'spectrum', 'decay', 'zero']),
      spectrum=st.lists(st.sampled_from([0.0, 0.5, 1.0, 1.0, 2.0, 3.0, 1e-3]), min_size=1,
                        max_size=5).map(lambda l: sorted(l, reverse=True)),
      complex=st.booleans(), single=st.sampled_from([False, False, False, True]), seed=seeds,
      cap=st.one_of(st.none(), st.integers(0, 30)), err=st.one_of(st.none(), st.integers(0, 60)),
      relative=st.booleans(), neg=st.integers(0, 29), nonneg=st.booleans(),
      op=st.sampled_from(ops), backend=st.just(backend), perm=st.integers(0, 719),
      att=st.integers(0, 255), names=st.integers(0, 3)))


T = ['svd', 'svd', 'qr', 'rq']
S = ['svd', 'svd', 'full', 'full', 'qr', 'rq']


TIES = [([8, 4, 3, 0], [(0, 3), (3, 2), (5, 1), (2, 3), (4, 2)]), ([8, 2, 2, 1], [(1, 3), (3, 1), (0, 4)]),
        ([16, 8, 4, 3], [(5, 2), (3, 3)]), ([4, 4, 4, 4], [(4, 3), (8, 0), (2, 4)]), ([2, 0, 0, 0], [(0, 1), (1, 1), (2, 0)])]


def run_ties(case, ctx):
  """The bound is attained exactly: a discarded norm equal to it is allowed."""
  vals, choices = TIES[case['vals'] % len(TIES)]
  err, keep = choices[case['err'] % len(choices)]
  rng = np.random.default_rng(case['seed'])
  m, r = [(4, 4), (4, 6), (6, 4)][case['shape'] % 3]
  mat = np.zeros((m, r))
  for v, i, j in zip(vals, rng.permutation(m), rng.permutation(r)):
    mat[i, j] = v * rng.choice([-1, 1])
  mat = mat.astype(['f8', 'c16', 'f4', 'c8'][case['dtype'] % 4])
  be = backend_factory.get_backend(case['backend'])
  shape = {4: (2, 2), 6: (3, 2)}
  t = be.convert_to_tensor(mat.reshape(shape[m] + shape[r]))
  exact = np.asarray(be.svd(t, 2)[1])
  if not np.array_equal(exact, np.array(vals, dtype=exact.dtype)):
    raise Skip('singular values are not exact')
  ctx.nontrivial(True)
  cap = [None, 3, 4, 9][case['cap'] % 4]
  keep = keep if cap is None else min(keep, cap)
  rel = bool(case['rel'] % 2)
  e = err / vals[0] if rel else float(err)
  if case['node']:
    n = tn.Node(t, backend=case['backend'])
    left, s, right, rest = tn.split_node_full_svd(n, n.edges[:2], n.edges[2:], max_singular_values=cap, max_truncation_err=e, relative=rel)
    u, s, vh = left.tensor, s.tensor, right.tensor
    got = np.diagonal(np.asarray(s))
    ctx.equal((np.asarray(u).shape[-1], np.asarray(vh).shape[0]), (keep, keep), 'bond dimension')
  else:
    u, s, vh, rest = be.svd(t, 2, max_singular_values=cap, max_truncation_error=e, relative=rel)
    got = np.asarray(s)
  ctx.equal(len(got), keep, 'singular values kept of {} with error bound {} (relative {}, cap {})'.format(vals, e, rel, cap))
  ctx.close(got, np.array(vals[:keep], dtype=float), 'kept singular values', tol=1e-5)
  ctx.close(np.asarray(rest), np.array(vals[keep:], dtype=float), 'discarded singular values', tol=1e-5)


def ties(backend):
  u = st.integers(0, 59)
  return lambda: st.fixed_dictionaries(dict(backend=st.just(backend), seed=seeds, vals=u, err=u, shape=u, dtype=u, cap=u, rel=u, node=st.booleans()))


PARTS = [
    Part('ties', ties('numpy'), run_ties, quick=1200, thorough=6000),
    Part('ties-tf', ties('tensorflow'), run_ties, quick=150, thorough=1500, shards=2),
    Part('ties-jax', ties('jax'), run_ties, quick=120, thorough=1000, shards=2),
    Part('tensor', lambda: strat('numpy', T), run_tensor, quick=6000, thorough=80000),
    Part('split', lambda: strat('numpy', S), run_split, quick=5000, thorough=80000),
    Part('tensor-tf', lambda: strat('tensorflow', T, 3), run_tensor, quick=500, thorough=6000, shards=4),
    Part('split-tf', lambda: strat('tensorflow', S, 3), run_split, quick=300, thorough=4000, shards=4),
    Part('tensor-jax', lambda: strat('jax', T, 3), run_tensor, quick=150, thorough=2000, shards=4),
    Part('split-jax', lambda: strat('jax', S, 3), run_split, quick=100, thorough=1000, shards=4),
]
