"""C13: block-sparse matrix functions and decompositions against dense linear algebra."""
import math
import warnings
import numpy as np
from hypothesis import strategies as st
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import BlockSparseTensor, ChargeArray
from tensornetwork.backends.symmetric.symmetric_backend import SymmetricBackend
from vt.core import Part, Skip
from vt.gens import pick, seeds
from vt import symgen as sg
from vt.checks import c12

ID = 'C13'
RULE = ('Block-sparse matrices with fused and lazily permuted legs, missing, empty, single and rectangular sectors, '
        'rank-deficient, degenerate and hermitian blocks; SVD, QR, eigh, eig, inv and pinv against the dense ones; '
        'SVD, QR and RQ of the symmetric backend for every pivot and truncation option against a global model of the '
        'truncation; the same for matrices with 129 to 320 sectors; trace, '
        'square root, modulus, sign, norm, identity and diagonals against the dense ones. Non-trivial: at least two sectors and four allowed elements.')
ASSUMPTIONS = ['matrices up to 400 rows', 'pinv cut-offs lie in a clear gap of the spectrum',
               'limits that coincide with a boundary of the spectrum within rounding are skipped']


def sectors(sym, row, col):
  """(charge, row positions, column positions) of every allowed block."""
  r, c = sg.leg_charges(sym, row), sg.leg_charges(sym, sg.conj_leg(col))
  out = []
  for q in sorted(set(map(tuple, r.tolist())) & set(map(tuple, c.tolist()))):
    out.append((q, np.nonzero(np.all(r == q, axis=1))[0], np.nonzero(np.all(c == q, axis=1))[0]))
  return out


def fill(sym, row, col, rng, dtype, kind):
  """A dense matrix supported on the blocks."""
  out = np.zeros((sg.leg_dim(row), sg.leg_dim(col)), dtype)
  for n, (_, r, c) in enumerate(sectors(sym, row, col)):
    sh = (len(r), len(c))
    if kind == 'zero' or kind == 'somezero' and n % 2:
      b = np.zeros(sh)
    elif kind == 'rank1' or kind == 'somezero':
      b = np.outer(sg.rand_values(rng, sh[0], dtype), sg.rand_values(rng, sh[1], dtype))
    elif kind == 'degenerate':
      b = np.eye(*sh) * 2.0
      b = b[rng.permutation(sh[0])][:, rng.permutation(sh[1])]
    elif kind == 'herm' and sh[0] == sh[1]:
      b = sg.rand_values(rng, sh, dtype)
      b = b + b.conj().T
    elif kind == 'well' and sh[0] == sh[1]:
      b = np.linalg.qr(sg.rand_values(rng, sh, dtype))[0] @ np.diag(rng.uniform(0.5, 3, sh[0])) @ np.linalg.qr(
          sg.rand_values(rng, sh, dtype))[0]
    elif kind == 'int':
      b = sg.rand_values(rng, sh, dtype, 'int')
    else:
      b = sg.rand_values(rng, sh, dtype)
    out[np.ix_(r, c)] = np.asarray(b, dtype)
  return out


KINDS = ['normal', 'normal', 'rank1', 'degenerate', 'somezero', 'zero', 'int', 'well', 'herm']


def tol_of(dtype):
  return 1e-3 if np.dtype(dtype) in (np.dtype(np.float32), np.dtype(np.complex64)) else 1e-8


def one_charge(ctx, t, axis, flow, what):
  leg = sg.read_legs(t)[axis]
  ctx.check(len(leg) == 1 and leg[0][1] == flow, '{}: new leg is {}', what, sg.show(leg))
  return leg


def check_legs(ctx, t, want, what):
  got = sg.read_legs(t)
  ctx.equal(len(got), len(want), what + ': number of legs')
  for a, b in zip(got, want):
    ctx.check(sg.same_leg(a, b), '{}: leg {}, expected {}', what, sg.show(a), sg.show(b))


def dense(ctx, t, sym, what):
  """Dense form of a result, after checking it is a consistent charge-conserving tensor."""
  legs = sg.read_legs(t)
  d = np.asarray(t.todense())
  if isinstance(t, BlockSparseTensor):
    sg.same_tensor(ctx, t, d, legs, sym, what)
  else:
    ctx.equal(d.shape, tuple(sg.leg_dim(l) for l in legs), what + ': shape')
    ctx.equal(len(t.data), d.size, what + ': number of elements')
  ctx.check(np.all(np.isfinite(d)), '{}: not finite', what)
  return d


def isometry(ctx, a, what, tol):
  ctx.close(a.conj().T @ a, np.eye(a.shape[1]), what + ' is not isometric', tol)


def sorted_close(ctx, got, want, what, tol, scale):
  ctx.close(np.sort(np.asarray(got).ravel()), np.sort(np.asarray(want).ravel()), what, tol, scale)


def by_sector(ctx, s, sym, what, ref, tol, scale):
  """Values of a 1d charge array, per charge, against {charge: values}."""
  q = sg.leg_charges(sym, sg.read_legs(s)[0])
  got = {}
  for c, x in zip(map(tuple, q.tolist()), np.asarray(s.data)):
    got.setdefault(c, []).append(x)
  ctx.equal(sorted(got), sorted(c for c in ref if len(ref[c])), what + ': charges')
  for c in got:
    ctx.close(np.array(got[c]), np.asarray(ref[c]), '%s: values of sector %s' % (what, c), tol, scale)


def many_leg(sym, rng, n, order):
  """A leg with n different charges, some of them repeated."""
  v = sg.values(sym, n, rng, 2)
  v[:, sym.index('U')] = np.arange(n) - n // 2 + order
  v = np.concatenate([v, v[rng.integers(0, n, int(rng.integers(0, 9)))]])
  return v[rng.permutation(len(v))] if order % 3 else v


def many_legs(case, rng, sym):
  """Row and column with more sectors than a byte can count."""
  n = 129 + case['many']
  row = [(many_leg(sym, rng, n, case['k']), bool(case['k'] & 1))]
  v = row[0][0]
  w = v[rng.permutation(len(v))]
  if case['k'] % 5 == 0:
    w = np.concatenate([w[3:], w[:40]])
  elif case['k'] % 5 == 1:
    w = v
  col = [(np.array(w), not row[0][1])]
  if case['k'] % 4 == 0:
    one = sg.rand_leg(sym, rng, (1,))[0]
    row = row + [(one[0] * 0, one[1])]
  return row, col


def make(case, rng, sym, square=False):
  dtype = sg.DTYPES[case['dtype'] % 4]
  if 'many' in case:
    row, col = many_legs(case, rng, sym)
    return row, sg.conj_leg(row) if square else col, dtype
  legs = sg.rand_legs(sym, rng, case['dims'][:2] if len(case['dims']) > 1 else case['dims'] + [[3]], 1 + case['k'] % 2)
  row, col = legs[0], legs[1]
  if square:
    col = sg.conj_leg(row)
  if max(sg.leg_dim(row), sg.leg_dim(col)) > 400 or sg.leg_dim(row) * sg.leg_dim(col) > 20000:
    raise Skip('too large')
  return row, col, dtype


def run_matrix(case, ctx):
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  op = case['op']
  k = case['k']
  square = op in ('eigh', 'eig', 'inv')
  row, col, dtype = make(case, rng, sym, square)
  kind = KINDS[case['kind'] % len(KINDS)]
  if op == 'eigh':
    kind = 'herm'
  if op == 'inv':
    kind = 'well'
    if k % 3 == 0 and len(row) == 1:       # a column leg with the charges in another order
      v, f = col[0]
      col = [(v[rng.permutation(len(v))], f)]
  if op == 'pinv' and kind in ('normal', 'int', 'herm'):
    kind = 'rank1'
  M = fill(sym, row, col, rng, dtype, kind)
  sec = sectors(sym, row, col)
  s = sg.build(sym, [row, col], M, rng)
  ctx.nontrivial(len(sec) >= 2 and sum(len(r) * len(c) for _, r, c in sec) >= 4)
  ctx.label(op, kind, 'sectors:%s' % min(len(sec), 3))
  tol = tol_of(dtype)
  scale = 1 + np.abs(M).max(initial=0) * math.sqrt(max(M.shape) or 1)
  keep = np.array(s.t.todense())
  blocks = {q: M[np.ix_(r, c)] for q, r, c in sec}
  if op == 'svd':
    full, uv, herm = bool(k & 1), bool(k & 2) or not k & 4, False
    sref = {q: np.linalg.svd(b, compute_uv=False) for q, b in blocks.items()}
    if uv:
      U, S, V = bs.svd(s.t, full_matrices=full, compute_uv=True, hermitian=herm)
      u, v = dense(ctx, U, sym, 'svd: U'), dense(ctx, V, sym, 'svd: V')
      check_legs(ctx, U, [row, one_charge(ctx, U, 1, True, 'svd: U')], 'svd: U')
      check_legs(ctx, V, [one_charge(ctx, V, 0, False, 'svd: V'), col], 'svd: V')
      isometry(ctx, u, 'svd: U', tol)
      isometry(ctx, v.conj().T, 'svd: V', tol)
      ctx.equal((np.dtype(U.dtype), np.dtype(V.dtype)), (M.dtype, M.dtype), 'svd: dtypes of the vectors')
      nu = sum(len(r) if full else min(len(r), len(c)) for _, r, c in sec)
      nv = sum(len(c) if full else min(len(r), len(c)) for _, r, c in sec)
      ctx.equal((u.shape[1], v.shape[0]), (nu, nv), 'svd: dimensions of the new legs')
      if not full:
        rec = bs.tensordot(bs.tensordot(U, bs.diag(S), ([1], [0])), V, ([1], [0]))
        sg.same_tensor(ctx, rec, M, [row, col], sym, 'svd: U S V', tol * scale)
        check_legs(ctx, S, [[(sg.read_legs(U)[1][0][0], False)]], 'svd: S')
      else:
        rec = np.zeros(M.shape, np.result_type(u, v))
        cu, cv = sg.read_legs(U)[1][0][0], sg.read_legs(V)[0][0][0]
        cs = sg.read_legs(S)[0][0][0]
        for q in set(map(tuple, cs.tolist())):
          vals = np.asarray(S.data)[np.all(cs == q, axis=1)]
          iu, iv = np.nonzero(np.all(cu == q, axis=1))[0], np.nonzero(np.all(cv == q, axis=1))[0]
          rec = rec + (u[:, iu[:len(vals)]] * vals) @ v[iv[:len(vals)]]
        ctx.close(rec, M, 'svd: U S V (full matrices)', tol, scale)
    else:
      S = bs.svd(s.t, full_matrices=full, compute_uv=False)
    ctx.check(type(S) is ChargeArray and not np.iscomplexobj(S.data), 'svd: S is {}', type(S))
    by_sector(ctx, S, sym, 'svd: singular values', sref, tol, scale)
    ctx.equal(np.dtype(S.dtype), np.zeros(0, dtype).real.dtype, 'svd: dtype of S')
  elif op == 'qr':
    mode = ['reduced', 'complete', 'r', 'reduced'][k % 4]
    out = bs.qr(s.t, mode=mode) if k % 5 else bs.qr(s.t)
    if mode == 'r' and k % 5:
      R = out
      r = dense(ctx, R, sym, 'qr: R')
      ctx.close(r.conj().T @ r, M.conj().T @ M, 'qr: R^H R', tol, scale**2)
    else:
      Q, R = out
      q, r = dense(ctx, Q, sym, 'qr: Q'), dense(ctx, R, sym, 'qr: R')
      check_legs(ctx, Q, [row, one_charge(ctx, Q, 1, True, 'qr: Q')], 'qr: Q')
      isometry(ctx, q, 'qr: Q', tol)
      ctx.equal((np.dtype(Q.dtype), np.dtype(R.dtype)), (M.dtype, M.dtype), 'qr: dtypes')
      full = mode == 'complete' and k % 5
      ctx.equal(q.shape[1], sum(len(a) if full else min(len(a), len(b)) for _, a, b in sec), 'qr: dimension')
      sg.same_tensor(ctx, Q @ R, M, [row, col], sym, 'qr: Q R', tol * scale)
    check_legs(ctx, R, [one_charge(ctx, R, 0, False, 'qr: R'), col], 'qr: R')
    for a, b in [(rr, cc) for _, rr, cc in sectors(sym, sg.conj_leg(sg.conj_leg(sg.read_legs(R)[0])), col)]:
      ctx.close(np.tril(r[np.ix_(a, b)], -1), np.zeros((len(a), len(b))), 'qr: R is not upper triangular', tol)
  elif op in ('eigh', 'eig'):
    if op == 'eigh':
      uplo = ['L', 'U'][k % 2]
      X = s
      if k % 3 == 0:     # only the named triangle counts
        D = np.zeros_like(M)
        for _, r, c in sec:
          b = M[np.ix_(r, c)]
          junk = sg.rand_values(rng, b.shape, dtype)
          D[np.ix_(r, c)] = np.tril(b) + np.triu(junk, 1) if uplo == 'L' else np.triu(b) + np.tril(junk, -1)
        X = sg.build(sym, [row, col], D, rng)
      E, V = bs.eigh(X.t, uplo) if k % 2 or k % 3 == 0 else bs.eigh(X.t)
      by_sector(ctx, E, sym, 'eigh: eigenvalues', {q: np.linalg.eigvalsh(b) for q, b in blocks.items()}, tol, scale)
      ctx.check(not np.iscomplexobj(E.data), 'eigh: complex eigenvalues')
    else:
      E, V = bs.eig(s.t)
    v, e = dense(ctx, V, sym, op + ': V'), np.asarray(E.data)
    check_legs(ctx, V, [row, [(sg.read_legs(E)[0][0][0], True)]], op + ': V')
    ctx.check(not sg.read_legs(E)[0][0][1], op + ': flow of the eigenvalues')
    ctx.equal(v.shape[1], len(M), op + ': number of eigenvectors')
    ctx.close(M @ v, v * e[None, :], op + ': A V = V E', tol * 10, scale)
    ctx.close(np.linalg.norm(v, axis=0), np.ones(v.shape[1]), op + ': norm of the eigenvectors', tol)
    if op == 'eigh':
      isometry(ctx, v, 'eigh: V', tol)
      want = np.linalg.eigvalsh(M) if len(M) else np.zeros(0)
      sorted_close(ctx, e, want, 'eigh: spectrum', tol, scale)
    elif kind in ('normal', 'well', 'herm') and len(M):
      ctx.close(np.array([np.trace(M), (e**2).sum()]), np.array([e.sum(), np.trace(M @ M)]), 'eig: traces',
                tol * 10, scale**2 * len(M))
      q = sg.read_legs(E)[0][0][0]
      for c, b in blocks.items():
        ctx.close(e[np.all(q == c, axis=1)].sum(), np.trace(b), 'eig: trace of a sector', tol * 10, scale * len(b))
  elif op == 'inv':
    if sum(len(r) for _, r, _ in sec) != len(M):
      raise Skip('singular')
    I = bs.inv(s.t)
    sg.same_tensor(ctx, I, np.linalg.inv(M.astype(np.complex128)), [sg.conj_leg(col), sg.conj_leg(row)], sym, 'inv', tol * 10)
  elif op == 'pinv':
    rc = [1e-6, 1e-4][k % 2] if tol < 1e-6 else 1e-3
    herm = False
    svs = [np.linalg.svd(b, compute_uv=False) for b in blocks.values()]
    top = max([x[0] for x in svs] + [0])
    if any(0.01 * rc * x[0] < y < 30 * rc * top for x in svs for y in x):
      raise Skip('no clear gap at the cut-off')
    P = bs.pinv(s.t, rcond=rc, hermitian=herm)
    want = np.linalg.pinv(M, rcond=rc) if M.size else np.zeros((M.shape[1], M.shape[0]))
    sg.same_tensor(ctx, P, want, [sg.conj_leg(col), sg.conj_leg(row)], sym, 'pinv', tol * 10 * (1 + np.abs(want).max(initial=0)))
    if k % 3 == 0 and kind in ('well', 'degenerate'):
      sg.same_tensor(ctx, bs.pinv(s.t), want, [sg.conj_leg(col), sg.conj_leg(row)], sym, 'pinv', tol * 10)
  ctx.check(np.array_equal(s.t.todense(), keep), '{} changed its argument', op)
  if k % 8 == 0 and len(row) + len(col) <= 4 and 'many' not in case:
    t3 = sg.random_tensor(sym, [row, col, row], rng)
    f = {'svd': bs.svd, 'qr': bs.qr, 'eigh': bs.eigh, 'eig': bs.eig, 'inv': bs.inv, 'pinv': bs.pinv}[op]
    ctx.raises((NotImplementedError, ValueError), lambda: f(t3.t), op + ' of a tensor of rank 3')


def run_split(case, ctx):
  """Decompositions of the symmetric backend."""
  sym = sg.SYMS[case['sym'] % len(sg.SYMS)]
  rng = np.random.default_rng(case['seed'])
  be = SymmetricBackend()
  dtype = sg.DTYPES[case['dtype'] % 4]
  k = case['k']
  dims = case['dims'] if len(case['dims']) > 1 else case['dims'] + [[2]]
  if 'many' in case:
    legs = list(many_legs(case, rng, sym))
  else:
    legs = sg.rand_legs(sym, rng, dims, 1 + k % 2)
  n = len(legs)
  if 'many' not in case and math.prod(sg.leg_dim(l) for l in legs) > 20000:
    raise Skip('too large')
  pivot = 1 + case['pivot'] % (n - 1)
  row, col = sum(legs[:pivot], []), sum(legs[pivot:], [])
  kind = KINDS[case['kind'] % 7]
  M = fill(sym, row, col, rng, dtype, kind)
  D = M.reshape([sg.leg_dim(l) for l in legs])
  s = sg.build(sym, legs, D, rng)
  sec = sectors(sym, row, col)
  ctx.nontrivial(len(sec) >= 2 and sum(len(r) * len(c) for _, r, c in sec) >= 4)
  tol = tol_of(dtype)
  scale = 1 + np.abs(M).max(initial=0) * math.sqrt(max(M.shape) or 1)
  keep = np.array(s.t.todense())
  op = case['op']
  ctx.label(op, kind)
  arg = pivot if case['k'] % 3 else pivot - n
  if pivot == n - 1 and k % 4 == 0:
    args = ()
  else:
    args = (arg,)
  if op != 'svd':
    A, B = (be.qr if op == 'qr' else be.rq)(s.t, *args)
    a, b = dense(ctx, A, sym, op + ': first factor'), dense(ctx, B, sym, op + ': second factor')
    D1 = a.shape[-1]
    ctx.equal(D1, sum(min(len(r), len(c)) for _, r, c in sec), op + ': dimension of the new leg')
    ctx.equal((np.dtype(A.dtype), np.dtype(B.dtype)), (D.dtype, D.dtype), op + ': dtypes')
    la, lb = sg.read_legs(A)[-1], sg.read_legs(B)[0]
    ctx.check(len(la) == 1 and sg.same_leg(la, sg.conj_leg(lb)), op + ': new legs do not match')
    check_legs(ctx, A, legs[:pivot] + [la], op + ': first factor')
    check_legs(ctx, B, [lb] + legs[pivot:], op + ': second factor')
    am, bm = a.reshape(len(M), D1), b.reshape(D1, M.shape[1])
    isometry(ctx, am if op == 'qr' else bm.conj().T, op, tol)
    sg.same_tensor(ctx, be.tensordot(A, B, ([A.ndim - 1], [0])), D, legs, sym, op + ': product', tol * scale)
  else:
    run_svd(ctx, be, sym, s, args, pivot, legs, M, D, sec, case, tol, scale, rng)
  ctx.check(np.array_equal(s.t.todense(), keep), '{} changed its argument', op)


def run_svd(ctx, be, sym, s, args, pivot, legs, M, D, sec, case, tol, scale, rng):
  k = case['k']
  blocks = {q: M[np.ix_(r, c)] for q, r, c in sec}
  full = {q: np.linalg.svd(b, compute_uv=False).astype(np.float64) for q, b in blocks.items()}
  allv = np.sort(np.concatenate(list(full.values()) + [np.zeros(0)]))
  N = len(allv)
  kw = {}
  need = N
  if case['maxerr'] is not None and N:
    rel = bool(k & 1)
    smax = allv[-1]
    cs = np.sqrt(np.cumsum(allv**2))
    # an error between two attainable ones
    j = case['maxerr'] % (N + 1)
    lo = cs[j - 1] if j else 0.
    hi = cs[j] if j < N else cs[-1] * 1.5 + 1
    err = (lo + hi) / 2
    if hi - lo < 1e-4 * scale:
      raise Skip('truncation error within rounding of the spectrum')
    if rel and smax < 1e-6:
      raise Skip('relative error of a zero tensor')
    kw['max_truncation_error'] = err / smax if rel else err
    kw['relative'] = rel
    need = N - j
    ctx.label('max_truncation_error')
  elif k & 1 and N and case['maxs'] is None:
    kw['max_truncation_error'] = 0.0 if k & 2 else None
    # exact zeros may be dropped
    need = None if k & 2 else N
  if case['maxs'] is not None:
    kw['max_singular_values'] = case['maxs'] % (N + 2)
    if need is not None:
      need = min(need, kw['max_singular_values'])
    ctx.label('max_singular_values')
  with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    U, S, V, T = be.svd(s.t, *args, **kw)
  kept, disc = np.asarray(S.data).astype(np.float64), np.asarray(T.data).astype(np.float64)
  u, v = dense(ctx, U, sym, 'svd: U'), dense(ctx, V, sym, 'svd: V')
  d = u.shape[-1]
  ctx.equal((len(kept), v.shape[0], S.shape, T.shape), (d, d, (d,), (len(disc),)), 'svd: dimension of the new leg')
  leg = sg.read_legs(U)[-1]
  ctx.check(len(leg) == 1 and leg[0][1], 'svd: flow of the new leg of U')
  check_legs(ctx, U, legs[:pivot] + [leg], 'svd: U')
  check_legs(ctx, V, [sg.conj_leg(leg)] + legs[pivot:], 'svd: V')
  check_legs(ctx, S, [sg.conj_leg(leg)], 'svd: S')
  um, vm = u.reshape(len(M), d), v.reshape(d, M.shape[1])
  real = np.zeros(0, M.dtype).real.dtype
  ctx.equal([np.dtype(x.dtype) for x in (U, S, V, T)], [M.dtype, real, M.dtype, real], 'svd: dtypes')
  isometry(ctx, um, 'svd: U', tol)
  isometry(ctx, vm.conj().T, 'svd: V', tol)
  if need is None:
    need = d
    ctx.check(d >= np.sum(allv > tol * scale), 'svd: discarded values that are not zero')
  ctx.equal(d, need, 'svd: number of kept singular values (of %d) with %r' % (N, kw))
  sorted_close(ctx, kept, allv[N - d:], 'svd: kept singular values are the largest', tol, scale)
  if len(disc) != N - d:
    # values that are zero need not be listed
    ctx.check(len(disc) <= N - d, 'svd: too many discarded values')
    sorted_close(ctx, np.append(disc, np.zeros(N - d - len(disc))), allv[:N - d], 'svd: discarded values', tol, scale)
  else:
    sorted_close(ctx, disc, allv[:N - d], 'svd: discarded values', tol, scale)
  cq = sg.read_legs(S)[0][0][0]
  for q in full:
    vals = kept[np.all(cq == q, axis=1)]
    ctx.close(vals, full[q][:len(vals)], 'svd: kept values of a sector', tol, scale)
  ctx.equal(set(map(tuple, cq.tolist())) - set(full), set(), 'svd: unknown charge')
  rec = (um * kept) @ vm
  loss = np.linalg.norm(rec - M)
  want = math.sqrt((allv[:N - d]**2).sum())
  ctx.close(np.array(loss), np.array(want), 'svd: truncation loss', tol * 10, scale)
  ctx.close(um.conj().T @ M @ vm.conj().T, np.diag(kept), 'svd: U^H A V^H', tol * 10, scale)
  if d:
    sd = be.tensordot(be.tensordot(U, be.diagflat(S), ([U.ndim - 1], [0])), V, ([U.ndim - 1], [0]))
    sg.same_tensor(ctx, sd, rec.reshape(D.shape), legs, sym, 'svd: contracted factors', tol * scale)


u = st.integers(0, 63)
edim = st.sampled_from([3, 4, 2, 5, 1, 6, 7, 3, 4])
leg1 = st.one_of(st.lists(edim, min_size=1, max_size=1), st.lists(edim, min_size=1, max_size=3),
                 st.lists(st.sampled_from([12, 20, 0, 16]), min_size=1, max_size=1))
g_matrix = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3), kind=u, k=u,
    op=st.sampled_from(['svd', 'svd', 'qr', 'qr', 'eigh', 'eig', 'inv', 'pinv']),
    dims=st.lists(leg1, min_size=2, max_size=2)))
leg2 = st.one_of(st.lists(edim, min_size=1, max_size=1), st.lists(edim, min_size=1, max_size=2))
g_split = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3), kind=u, k=u, pivot=st.integers(0, 11),
    op=st.sampled_from(['svd', 'svd', 'svd', 'svd', 'qr', 'rq']),
    maxerr=st.one_of(st.none(), u), maxs=st.one_of(st.none(), u),
    dims=st.lists(leg2, min_size=2, max_size=5)))

WIDE = [k for k, x in enumerate(sg.SYMS) if 'U' in x]
g_many = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.sampled_from(WIDE), dtype=st.integers(0, 3), kind=u, k=u, pivot=st.just(0), many=st.integers(0, 190),
    op=st.sampled_from(['svd', 'svd', 'qr', 'eigh', 'eig', 'inv', 'pinv', 'rq']),
    maxerr=st.one_of(st.none(), st.integers(0, 400)), maxs=st.one_of(st.none(), st.integers(0, 400)), dims=st.just([[1], [1]])))


def run_many(case, ctx):
  if case['op'] == 'rq' or case['op'] in ('svd', 'qr') and case['seed'] % 2:
    run_split(case, ctx)
  else:
    run_matrix(case, ctx)


g_func = st.fixed_dictionaries(dict(
    seed=seeds, sym=st.integers(0, 14), dtype=st.integers(0, 3),
    pool=st.lists(st.lists(c12.leg_l, min_size=1, max_size=4), min_size=1, max_size=2),
    ops=st.lists(st.tuples(st.sampled_from(['trace', 'trace', 'trace', 'elementwise', 'matmul']), u, u, u), min_size=1, max_size=4)))

PARTS = [
    Part('matrix', lambda: g_matrix, run_matrix, 4000, 60000),
    Part('split', lambda: g_split, run_split, 4000, 60000),
    Part('func', lambda: g_func, c12.run_prog, 2500, 30000),
    Part('arrays', lambda: c12.g_arrays, c12.run_arrays, 1500, 20000),
    Part('many', lambda: g_many, run_many, 240, 3000),
]
