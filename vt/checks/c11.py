"""C11: symmetry charges and indices against plain lists of charge values."""
import math
import numpy as np
from hypothesis import strategies as st
from tensornetwork.block_sparse import charge as ch
from tensornetwork.block_sparse import blocksparse_utils as bu
from tensornetwork.block_sparse import utils as ut
from tensornetwork.block_sparse import index as ix
from vt.core import Part, Skip
from vt.gens import pick, seeds
from vt import symgen as sg

ID = 'C11'
RULE = ('Programs over a pool of charges of one product symmetry (U1, Z2, ZN and products of up to five), built '
        'through every equivalent construction route, each mirrored by a plain list of tuples; index programs; '
        'the charge-fusing utilities on up to four legs. Non-trivial: at least two operations on charges with at '
        'least two elements.')
ASSUMPTIONS = ['U1 charges stay within int16', 'explicit labels use every unique charge']


def lst(v):
  return [tuple(int(x) for x in r) for r in np.asarray(v).reshape(-1, v.shape[1])]


def same(ctx, c, vals, what):
  """c is a charge holding exactly vals."""
  ctx.equal((len(c), int(c.dim)), (len(vals), len(vals)), what + ': length')
  ctx.equal(sorted(set(lst(np.asarray(c.unique_charges)))), sorted(set(lst(vals))), what + ': unique_charges')
  ctx.equal(c.num_unique, len(set(lst(vals))), what + ': num_unique')
  ctx.equal(np.asarray(c.charge_labels).shape, (len(vals),), what + ': charge_labels')
  ctx.equal(lst(np.asarray(c.charges).reshape(-1, vals.shape[1])), lst(vals), what)
  ctx.equal(lst(np.asarray(c.unique_charges)[np.asarray(c.charge_labels)]), lst(vals), what + ': unique[labels]')
  ctx.equal(c.num_symmetries, vals.shape[1], what + ': num_symmetries')


def run_charges(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  T = sg.types(sym)
  pool = []
  for dim, route, spread in case['pool']:
    v = sg.values(sym, dim, rng, [1, 3, 40, 9000][spread])
    pool.append((sg.make_charge(sym, v, route, rng), v))
  ctx.nontrivial(len(case['ops']) >= 2 and any(len(v) >= 2 for _, v in pool))
  for c, v in pool:
    if case['check0']:
      same(ctx, c, v, 'constructed charge')
  for op, i, j, k in case['ops']:
    c, v = pool[i % len(pool)]
    d, w = pool[j % len(pool)]
    before = [(p.dtype, np.array(u)) for p, u in pool]
    ctx.label(op)
    new = None
    if op == 'add':
      if len(v) * len(w) > 3000 or max(np.abs(v).max(initial=0), 1) + max(np.abs(w).max(initial=0), 1) > 32000:
        continue
      new = (c + d, sg.fuse(sym, v, w))
    elif op == 'dual':
      new = (c.dual(bool(k % 2)), sg.dual(sym, v) if k % 2 else v)
    elif op == 'mul':
      flag = [True, False, np.bool_(True), np.bool_(False)][k % 4]
      new = (c * flag, sg.dual(sym, v) if flag else v)
      ctx.raises(ValueError, lambda: c * 2, 'product with a number')
    elif op == 'copy':
      new = (c.copy(), v.copy())
    elif op == 'identity':
      new = (c.identity_charges(dim=1 + k % 3), np.zeros((1 + k % 3, len(sym)), dtype=np.int64))
      same(ctx, c + c.identity_charges(dim=1), v, 'fusing with the identity')
      same(ctx, c.identity_charges() + c, v, 'fusing with the identity')
      if 0 < len(v) < 40:
        z = sg.charge_values(c + c.dual(True)).reshape(len(v), len(v), -1)
        ctx.check(not np.any(z[np.arange(len(v)), np.arange(len(v))]), 'charge plus dual is not the identity')
    elif op == 'getitem':
      if not len(v):
        continue
      if k % 3 == 0:
        n = k % len(v)
        new = (c[n if k % 2 else np.int64(n)], v[[n]])
      else:
        idx = np.random.default_rng(k).integers(0, len(v), 1 + k % 5)
        new = (c[idx.tolist() if k % 3 == 1 else idx], v[idx])
    elif op == 'unique':
      check_unique(ctx, c, v, k)
    elif op == 'reduce':
      check_reduce(ctx, sym, c, v, w, k)
    elif op == 'intersect':
      check_intersect(ctx, c, v, d, w, k)
    elif op == 'eq':
      if len(w):
        want = np.array([[x == y for y in lst(w)] for x in lst(v)]).reshape(len(v), len(w))
        got = c == (d if k % 2 else np.asarray(d.charges))
        ctx.check(np.asarray(got).shape == want.shape and np.array_equal(got, want), '== differs')
      if len(sym) == 1 and len(w) and k % 3 == 0:
        ctx.check(np.array_equal(c == w[:1, 0].astype(np.int16), want[:, :1]), '== with a 1d array differs')
      ctx.equal(bool(ch.charge_equal(c, d)), lst(v) == lst(w), 'charge_equal')
      e = sg.make_charge(sym, v, k % 7, rng)
      ctx.check(bool(ch.charge_equal(c, e)) and bool(ch.charge_equal(e, c)), 'charge_equal of equal charges')
    elif op == 'matmul':
      r = sg.make_charge(sym, v[::-1], k % 7, rng)
      same(ctx, c @ r, np.concatenate([v, v[::-1]], 1), 'product charge')
      ctx.check((c @ r).charge_types == T + T, 'charge types of a product')
      if len(v) and len(v) * len(v) < 900 and np.abs(v).max() < 15000:
        vv = np.concatenate([v, v[::-1]], 1)
        same(ctx, (c @ r) + (c @ r), sg.fuse(sym + sym, vv, vv), 'fused product charges')
      ctx.raises(ValueError, lambda: c @ (c + c), 'product of different lengths') if len(v) > 1 else None
    elif op == 'iter':
      ctx.equal([tuple(int(y) for y in np.ravel(x)) for x in c], lst(v), 'iteration')
      ctx.check(isinstance(repr(c), str) and all(t.__name__ in c.names for t in T), 'names')
    elif op == 'fuse':
      sel = [pool[(i + q) % len(pool)] for q in range(1 + k % 3)]
      if math.prod(len(x[1]) for x in sel) > 3000 or sum(np.abs(x[1]).max(initial=1) for x in sel) > 32000:
        continue
      flows = [bool((k >> q) & 1) for q in range(len(sel))]
      new = (ch.fuse_charges([x[0] for x in sel], flows), sg.fuse_all(sym, [x[1] for x in sel], flows))
      ctx.raises(ValueError, lambda: ch.fuse_charges([x[0] for x in sel], flows + [True]), 'flows of another length')
    if new is not None:
      if case['eager'] or k % 2:
        same(ctx, new[0], new[1], op)
      else:
        ctx.equal(lst(np.asarray(new[0].charges)), lst(new[1]), op)
      ctx.check(new[0].charge_types == c.charge_types == T, '{}: charge types', op)
      if len(pool) < 7 and len(new[1]) < 200:
        pool.append(new)
    for (p, _), (dt, u) in zip(pool, before):
      ctx.check(p.dtype == dt and np.array_equal(sg.charge_values(p), u), '{} changed an operand', op)


def check_unique(ctx, c, v, k):
  ri, rv, rc = bool(k & 1), bool(k & 2), bool(k & 4)
  out = c.unique(return_index=ri, return_inverse=rv, return_counts=rc)
  out = list(out) if ri or rv or rc else [out]
  u = out.pop(0)
  uv = lst(np.asarray(u.charges))
  ctx.equal(sorted(uv), sorted(set(lst(v))), 'unique')
  ctx.equal(len(u), len(uv), 'unique: length')
  if ri:
    idx = np.asarray(out.pop(0))
    ctx.equal([lst(v).index(x) for x in uv], [int(x) for x in idx.ravel()], 'unique: indices of first occurrences')
  if rv:
    inv = np.asarray(out.pop(0))
    ctx.equal(inv.shape, (len(v),), 'unique: shape of the inverse')
    ctx.equal([uv[x] for x in inv], lst(v), 'unique: inverse')
  if rc:
    ctx.equal([int(x) for x in np.asarray(out.pop(0)).ravel()], [lst(v).count(x) for x in uv], 'unique: counts')


def check_reduce(ctx, sym, c, v, w, k):
  targets = np.unique(w, axis=0) if len(w) else w
  if k % 4 == 0 and len(v):
    targets = np.unique(v, axis=0)[k % 3:][:3]
  if not len(targets):
    return
  stride = [1, 3, 7][k % 3]
  tset = set(lst(targets))
  keep = [n for n, x in enumerate(lst(v)) if x in tset]
  t = targets
  if len(sym) == 1 and k % 5 == 0:
    t = int(targets[0, 0]) if k % 2 else targets[:, 0]
    if k % 2:
      keep = [n for n, x in enumerate(lst(v)) if x == tuple(targets[0])]
  out = c.reduce(t, return_locations=bool(k & 2), strides=stride)
  if k & 2:
    out, locs = out
    ctx.equal([int(x) for x in locs], [stride * n for n in keep], 'reduce: locations')
  ctx.equal(lst(np.asarray(out.charges)), [lst(v)[n] for n in keep], 'reduce')
  ctx.equal(len(out), len(keep), 'reduce: length')


def check_intersect(ctx, c, v, d, w, k):
  a, b = lst(v), lst(w)
  assume = bool(k & 1) and len(set(a)) == len(a) and len(set(b)) == len(b)
  other = d if k & 2 else np.asarray(d.charges)
  if not len(a) or not len(b):
    return
  out = c.intersect(other, assume_unique=assume, return_indices=bool(k & 4))
  if k & 4:
    out, ia, ib = out
    r = lst(np.asarray(out.charges))
    ctx.equal([int(x) for x in ia], [a.index(x) for x in r], 'intersect: indices in self')
    ctx.equal([int(x) for x in ib], [b.index(x) for x in r], 'intersect: indices in other')
  ctx.equal(sorted(lst(np.asarray(out.charges))), sorted(set(a) & set(b)), 'intersect')


# -- indices ----------------------------------------------------------------
def run_index(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  pool = []

  def fresh(dims, route):
    vs = [sg.values(sym, d, rng, 2) for d in dims]
    flows = [bool(rng.integers(0, 2)) for _ in dims]
    cs = [sg.make_charge(sym, v, (route + n) % 7, rng) for n, v in enumerate(vs)]
    if len(dims) == 1 and route % 2:
      return (ix.Index(cs[0], flows[0]), vs, flows)
    return (ix.Index(cs, flows), vs, flows)

  for dims, route in case['pool']:
    pool.append(fresh(dims, route))
  ctx.nontrivial(len(case['ops']) >= 2 and any(math.prod(len(x) for x in p[1]) >= 2 for p in pool))

  def verify(p, what):
    i, vs, flows = p
    dim = math.prod(len(x) for x in vs)
    ctx.equal((int(i.dim), len(i)), (dim, dim), what + ': dimension')
    ctx.equal([lst(sg.charge_values(c)) for c in i.flat_charges], [lst(x) for x in vs], what + ': flat charges')
    ctx.equal([bool(f) for f in i.flat_flows], flows, what + ': flat flows')
    if dim < 2000:
      ctx.equal(lst(sg.charge_values(i.charges)), lst(sg.fuse_all(sym, vs, flows)), what + ': fused charges')

  for op, a, b, k in case['ops']:
    p, q = pool[a % len(pool)], pool[b % len(pool)]
    ctx.label(op)
    if op == 'copy':
      new = (p[0].copy(), p[1], p[2])
      ctx.check(all(x is not y for x, y in zip(new[0].flat_charges, p[0].flat_charges)), 'copy shares charges')
      ctx.check(new[0] == p[0], 'a copy is not equal')
    elif op == 'flip':
      new = (p[0].flip_flow(), p[1], [not f for f in p[2]])
    elif op == 'mul':
      new = (p[0] * q[0], p[1] + q[1], p[2] + q[2])
    elif op == 'fuse':
      r = pool[(a + b + k) % len(pool)]
      new = (ix.fuse_indices([p[0], q[0], r[0]]), p[1] + q[1] + r[1], p[2] + q[2] + r[2])
    elif op == 'eq':
      want = p[2] == q[2] and [lst(x) for x in p[1]] == [lst(x) for x in q[1]]
      ctx.equal(bool(p[0] == q[0]), want, 'index equality')
      r = ix.Index([sg.make_charge(sym, v, (k + n) % 7, rng) for n, v in enumerate(p[1])], list(p[2]))
      ctx.check(bool(p[0] == r) and bool(r == p[0]), 'equal indices compare unequal')
      ctx.equal(bool(p[0] != r), False, 'equal indices !=')
      ctx.raises(TypeError, lambda: ix.Index(p[0].flat_charges, [1] * len(p[1])), 'integer flows')
      continue
    else:
      ctx.check(isinstance(repr(p[0]), str), 'repr')
      continue
    verify(new, op)
    if len(pool) < 6 and len(new[1]) <= 4:
      pool.append(new)
    for r in pool:
      verify(r, 'operand after ' + op)


# -- utilities --------------------------------------------------------------
def run_utils(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  big = case['big']
  dims = [max(1, d) * (9 if big else 1) for d in case['dims']]
  if math.prod(dims) > (60000 if big else 3000):
    raise Skip('too large')
  ctx.label('large' if math.prod(dims) >= 20000 else 'small')
  vs = [sg.values(sym, d, rng, 2) for d in dims]
  cs = [sg.make_charge(sym, v, (case['route'] + n) % 7, rng) for n, v in enumerate(vs)]
  flows = [bool(x) for x in rng.integers(0, 2, len(dims))]
  fl = np.array(flows) if case['route'] % 2 else list(flows)
  ctx.nontrivial(math.prod(dims) >= 4 and len(dims) >= 2)
  fused = sg.fuse_all(sym, vs, flows)
  U, counts = np.unique(fused, axis=0, return_counts=True)
  want = dict(zip(lst(U), [int(x) for x in counts]))
  c, deg = bu.compute_fused_charge_degeneracies(cs, fl)
  got = lst(np.asarray(c.charges))
  ctx.equal(len(got), len(set(got)), 'degeneracies: repeated charge')
  ctx.equal(dict(zip(got, [int(x) for x in np.asarray(deg).ravel()])), want, 'compute_fused_charge_degeneracies')
  u = bu.compute_unique_fused_charges(cs, fl)
  ctx.equal(sorted(lst(np.asarray(u.charges))), sorted(want), 'compute_unique_fused_charges')
  zero = (0,) * len(sym)
  ctx.equal(int(bu.compute_num_nonzero(cs, fl)), want.get(zero, 0), 'compute_num_nonzero')
  # reduce_charges
  targets = U[rng.permutation(len(U))[:1 + case['k'] % 4]]
  if case['k'] % 3 == 0:
    targets = np.concatenate([targets, sg.values(sym, 2, rng, 30)])
    targets = np.unique(targets, axis=0)
  tset = set(lst(targets))
  fl0 = lst(fused)
  keep = [n for n, x in enumerate(fl0) if x in tset]
  strides = None
  pos = np.arange(len(fused))
  if case['k'] % 2:
    perm = rng.permutation(len(dims))
    strides = np.zeros(len(dims), dtype=np.int64)
    s = 1
    for p in perm:
      strides[p] = s
      s *= dims[p]
    pos = sum(np.asarray(g) * strides[n] for n, g in enumerate(np.unravel_index(np.arange(len(fused)), dims)))
  r, locs = bu.reduce_charges(cs, fl, targets.astype(np.int16), return_locations=True, strides=strides)
  ctx.equal(lst(sg.charge_values(r)), [fl0[n] for n in keep], 'reduce_charges')
  ctx.check(np.array_equal(np.asarray(locs).astype(np.int64), np.asarray(pos)[keep]), 'reduce_charges: locations')
  r2 = bu.reduce_charges(cs, fl, targets.astype(np.int16))
  ctx.equal(lst(sg.charge_values(r2)), lst(sg.charge_values(r)), 'reduce_charges without locations')
  if not big:
    tc = sg.make_charge(sym, targets, 0)
    lookup, uq, labels = bu.compute_sparse_lookup(cs, fl, tc)
    uql = lst(sg.charge_values(uq))
    ctx.equal([uql[x] for x in lookup], [fl0[n] for n in keep], 'compute_sparse_lookup')
    ctx.equal(sorted(uql), sorted(want), 'compute_sparse_lookup: unique charges')
    ctx.equal([int(x) for x in labels], [n for n, x in enumerate(uql) if x in tset], 'compute_sparse_lookup: labels')
  # array utilities
  A = np.concatenate([vs[0], vs[-1]]).astype(pick([np.int16, np.int8, np.int32, np.int64], case['k']))
  B = np.unique(fused, axis=0).astype(A.dtype)
  for arr2 in (A, A[:, 0]):
    flags = [bool((case['seed'] >> s) & 1) for s in range(3)]
    out = ut.unique(arr2, return_index=flags[0], return_inverse=flags[1], return_counts=flags[2])
    out = list(out) if any(flags) else [out]
    rows = lst(arr2.reshape(len(arr2), -1))
    uu = np.asarray(out.pop(0))
    ctx.equal((uu.ndim, uu.dtype), (arr2.ndim, arr2.dtype), 'unique: rank and dtype')
    ul = lst(uu.reshape(len(uu), -1))
    ctx.equal(sorted(ul), sorted(set(rows)), 'utils.unique')
    if flags[0]:
      ctx.equal([int(x) for x in np.asarray(out.pop(0)).ravel()], [rows.index(x) for x in ul], 'utils.unique index')
    if flags[1]:
      ctx.equal([ul[int(x)] for x in np.asarray(out.pop(0)).ravel()], rows, 'utils.unique inverse')
    if flags[2]:
      ctx.equal([int(x) for x in out.pop(0)], [rows.count(x) for x in ul], 'utils.unique counts')
  for X, Y in ((A, B), (A[:, 0], B[:, 0])):
    C, ia, ib = ut.intersect(X, Y, axis=0, return_indices=True)
    xr, yr = lst(X.reshape(len(X), -1)), lst(Y.reshape(len(Y), -1))
    C = np.asarray(C)
    cl = lst(C.reshape(-1, len(xr[0])))
    ctx.equal(sorted(cl), sorted(set(xr) & set(yr)), 'utils.intersect')
    ctx.equal(([int(x) for x in ia], [int(x) for x in ib]), ([xr.index(x) for x in cl], [yr.index(x) for x in cl]),
              'utils.intersect: indices')
  if A.shape[1] == B.shape[1]:
    C = ut.intersect(A.T.copy(), B.T.copy(), axis=1)
    ctx.equal(sorted(lst(np.asarray(C).T)), sorted(set(lst(A)) & set(lst(B))), 'utils.intersect along columns')
  d1, d2 = rng.integers(0, 9, 4), rng.integers(0, 9, 3)
  ctx.equal(ut.fuse_degeneracies(d1, d2).tolist(), [int(x * y) for x in d1 for y in d2], 'fuse_degeneracies')
  ctx.equal(np.asarray(ut.fuse_ndarrays([d1, d2, d1])).tolist(), [int(x + y + z) for x in d1 for y in d2 for z in d1],
            'fuse_ndarrays')


OPS = ['add', 'dual', 'mul', 'copy', 'identity', 'getitem', 'unique', 'reduce', 'intersect', 'eq', 'matmul', 'iter', 'fuse']
u = st.integers(0, 63)
g_charges = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), check0=st.booleans(), eager=st.booleans(),
    pool=st.lists(st.tuples(st.sampled_from([1, 1, 2, 3, 5, 8, 0, 30]), st.integers(0, 6), st.integers(0, 3)), min_size=1, max_size=3),
    ops=st.lists(st.tuples(st.sampled_from(OPS), u, u, u), min_size=1, max_size=6)))
g_index = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14),
    pool=st.lists(st.tuples(st.lists(st.integers(1, 4), min_size=1, max_size=3), st.integers(0, 6)), min_size=1, max_size=3),
    ops=st.lists(st.tuples(st.sampled_from(['copy', 'flip', 'mul', 'fuse', 'eq', 'eq', 'repr']), u, u, u), min_size=1, max_size=6)))
g_utils = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dims=st.lists(st.integers(1, 7), min_size=1, max_size=4),
    route=st.integers(0, 6), k=u, big=st.sampled_from([False] * 4 + [True])))

PARTS = [
    Part('charges', lambda: g_charges, run_charges, 4000, 60000),
    Part('index', lambda: g_index, run_index, 2000, 30000),
    Part('utils', lambda: g_utils, run_utils, 2500, 30000),
]
