"""C04: ncon equals the Einstein summation its labels denote, or rejects them."""
import copy
import string
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from tensornetwork import ncon_interface
from vt.core import Part, Skip
from vt.gens import arr, seeds

ID = 'C04'
RULE = ('Random label structures (closed pairs, traces, singly occurring closed labels, closed and '
        'open batch labels on distinct tensors, open labels; integers and strings) with random '
        'sizes 1..3, contraction orders, output orders, backends and input forms, compared with '
        'numpy.einsum on integer-valued arrays; plus single-fault mutations of valid calls that '
        'must be rejected. Non-trivial: at least two tensors and at least two distinct labels '
        '(value part), or a rejected mutation of a call with at least two labels (rejection part).')
ASSUMPTIONS = ['string labels are alphanumeric; integer labels non-zero; float64 data',
               'numpy.einsum is the reference']


@st.composite
def network(draw, max_tensors=5, max_labels=7, same_tensor=True, min_tensors=1, min_labels=0):
  nt = draw(st.integers(min_tensors, max_tensors))
  nl = draw(st.integers(min_labels, max_labels))
  axes = [[] for _ in range(nt)]
  dims = {}
  ints = draw(st.lists(st.sampled_from([1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 20, 33, 100]),
                       min_size=nl, max_size=nl, unique=True))
  strs = draw(st.lists(st.sampled_from(['a', 'b', 'A', 'B', 'z', '1', '2', '10', '303', 'ab', 'a1',
                                        'rick', 'Z9']),
                       min_size=nl, max_size=nl, unique=True))
  for k in range(nl):
    use_str = draw(st.integers(0, 2)) == 0
    kind = draw(st.sampled_from(['pair'] * 6 + ['open'] * 5 + ['trace', 'single', 'batch', 'obatch',
                                                               'batch', 'obatch', 'diag']))
    dim = draw(st.integers(1, 3))
    neg = kind in ('open', 'obatch')
    locs = []
    if kind == 'pair':
      if nt < 2:
        kind = 'trace'
      else:
        a = draw(st.integers(0, nt - 1))
        b = draw(st.integers(0, nt - 2))
        locs = [a, b if b < a else b + 1]
    if kind == 'trace':
      a = draw(st.integers(0, nt - 1))
      locs = [a, a]
    if kind in ('single', 'open'):
      locs = [draw(st.integers(0, nt - 1))]
    if kind in ('batch', 'obatch'):
      m = draw(st.integers(2, max(2, min(4, nt))))
      locs = draw(st.permutations(range(nt)))[:m]
    if kind == 'diag':   # repeated within one tensor, possibly also elsewhere, or open
      if not same_tensor:
        locs = [draw(st.integers(0, nt - 1))]
      else:
        a = draw(st.integers(0, nt - 1))
        locs = [a] * draw(st.integers(2, 3))
        neg = draw(st.booleans())
        locs += draw(st.lists(st.integers(0, nt - 1), max_size=2))
    lab = strs[k] if use_str else ints[k]
    if neg:
      lab = ('-' + lab) if use_str else -lab
    dims[str(k)] = dim
    for t in locs:
      axes[t].append((lab, dim))
  tens = []
  for t in range(nt):
    ax = axes[t]
    if len(ax) > 1:
      ax = draw(st.permutations(ax))
    ax = list(ax)[:7]
    tens.append(ax)
  # truncating a tensor to 7 legs may change how often labels occur; harmless
  labels = [[l for l, _ in ax] for ax in tens]
  shapes = [[d for _, d in ax] for ax in tens]
  return labels, shapes


def flat(labels):
  return [l for ls in labels for l in ls]


def is_open(l):
  return (isinstance(l, str) and l[0] == '-') or (not isinstance(l, str) and l < 0)


def cont_labels(labels):
  f = set(flat(labels))
  return sorted([l for l in f if not isinstance(l, str) and l > 0]) + sorted(
      [l for l in f if isinstance(l, str) and l[0] != '-'])


def out_labels(labels):
  f = set(flat(labels))
  return sorted([l for l in f if not isinstance(l, str) and l < 0], reverse=True) + sorted(
      [l for l in f if isinstance(l, str) and l[0] == '-'])


@st.composite
def value_case(draw, backends=('numpy',), **kw):
  labels, shapes = draw(network(**kw))
  c = cont_labels(labels)
  o = out_labels(labels)
  con = draw(st.permutations(c)) if c and draw(st.integers(0, 2)) else None
  out = draw(st.permutations(o)) if o and draw(st.integers(0, 2)) else None
  return dict(labels=labels, shapes=shapes, con=None if con is None else list(con),
              out=None if out is None else list(out), seed=draw(seeds),
              kind=draw(st.sampled_from(['int', 'int', 'cint'])),
              backend=draw(st.sampled_from(backends)),
              form=draw(st.sampled_from(['array', 'array', 'tensor', 'mixed', 'builder'])),
              check=draw(st.sampled_from([True, True, False])),
              bobj=draw(st.booleans()),
              empty=draw(st.booleans()))


def einsum_ref(arrays, labels, out):
  names = {}
  for l in flat(labels):
    if l not in names:
      names[l] = string.ascii_letters[len(names)]
  spec = ','.join(''.join(names[l] for l in ls) for ls in labels)
  return np.einsum(spec + '->' + ''.join(names[l] for l in out), *arrays)


def make_arrays(case):
  return [arr(s, case['seed'] + 17 * i, case['kind']) for i, s in enumerate(case['shapes'])]


def run_value(case, ctx):
  labels = case['labels']
  arrays = make_arrays(case)
  if len(set(flat(labels))) > 12:
    raise Skip('too large')
  want = einsum_ref(arrays, labels, case['out'] if case['out'] is not None else out_labels(labels))
  back = case['backend']
  bobj = tn.backends.backend_factory.get_backend(back)
  originals = [a.copy() for a in arrays]
  form = case['form']
  if form == 'array':
    inp = list(arrays)
  else:
    inp = [tn.Tensor(a, backend=back) for a in arrays]
    if form == 'mixed' and len(inp) > 1:
      inp[case['seed'] % len(inp)] = arrays[case['seed'] % len(inp)]
  ns = copy.deepcopy(labels)
  con = copy.copy(case['con'])
  out = copy.copy(case['out'])
  if con is None and case['empty']:
    con = []
  if out is None and case['empty']:
    out = []
  if form == 'builder':
    b = inp[0](*ns[0])
    for t, l in zip(inp[1:], ns[1:]):
      b = b @ t(*l)
    want = einsum_ref(arrays, labels, out_labels(labels))
    res = ncon_interface.finalize(b)
  else:
    res = tn.ncon(inp, ns, con_order=con, out_order=out, check_network=case['check'],
                  backend=bobj if case['bobj'] else back)
  if form in ('tensor', 'builder') or (form == 'mixed' and len(inp) == 1 and
                                       isinstance(inp[0], tn.Tensor)):
    ctx.check(isinstance(res, tn.Tensor), 'Tensor inputs must give a Tensor, got %s' % type(res))
    ctx.equal(res.backend.name, back, 'result backend')
    res = res.array
  else:
    ctx.check(not isinstance(res, tn.Tensor), 'array inputs must give an array')
  ctx.close(np.asarray(res), want, 'ncon(%s, con=%s, out=%s)' % (labels, case['con'], case['out']))
  ctx.equal(ns, labels, 'network_structure argument changed')
  ctx.equal(con, case['con'] if case['con'] is not None else ([] if case['empty'] else None),
            'con_order argument changed')
  ctx.equal(out, case['out'] if case['out'] is not None else ([] if case['empty'] else None),
            'out_order argument changed')
  ctx.equal(len(inp), len(arrays), 'tensor list changed')
  for a, o in zip(arrays, originals):
    ctx.check(np.array_equal(a, o), 'input tensor modified')
  f = flat(labels)
  ctx.nontrivial(len(labels) >= 2 and len(set(f)) >= 2)
  ctx.label('con' if case['con'] else 'nocon', 'out' if case['out'] else 'noout', form)
  if any(f.count(l) > 2 or (is_open(l) and f.count(l) > 1) for l in f):
    ctx.label('batch')
  if any(ls.count(l) > 1 for ls in labels for l in ls):
    ctx.label('trace-or-diag')
  if any(isinstance(l, str) for l in f):
    ctx.label('string')


MUTS = ['ntensors', 'rank', 'zero', 'dim', 'con_dup', 'con_missing', 'con_unknown', 'con_neg',
        'out_dup', 'out_missing', 'out_unknown', 'out_pos', 'badstr', 'backend', 'extra_label',
        'con_open', 'out_closed']


@st.composite
def bad_case(draw):
  labels, shapes = draw(network(max_tensors=4, max_labels=6, same_tensor=False))
  return dict(labels=labels, shapes=shapes, mut=draw(st.sampled_from(MUTS)),
              i=draw(st.integers(0, 20)), j=draw(st.integers(0, 20)), seed=draw(seeds), kind='int',
              tensor=draw(st.booleans()))


def run_bad(case, ctx):
  labels = copy.deepcopy(case['labels'])
  shapes = copy.deepcopy(case['shapes'])
  con = list(cont_labels(labels))
  out = list(out_labels(labels))
  i, j, mut = case['i'], case['j'], case['mut']
  kw = {}
  if mut == 'ntensors':
    labels = labels + [[]] if i % 2 else labels[:-1]
  elif mut in ('rank', 'extra_label'):
    t = i % len(labels)
    if mut == 'rank':
      if not labels[t]:
        raise Skip()
      labels[t].pop(j % len(labels[t]))
    else:
      labels[t].insert(j % (len(labels[t]) + 1), -500)
  elif mut == 'zero':
    t = i % len(labels)
    if not labels[t]:
      raise Skip()
    labels[t][j % len(labels[t])] = 0
  elif mut == 'dim':
    f = [l for l in set(flat(labels)) if flat(labels).count(l) > 1]
    f.sort(key=str)
    if not f:
      raise Skip()
    l = f[i % len(f)]
    locs = [(t, a) for t, ls in enumerate(labels) for a, x in enumerate(ls) if x == l]
    t, a = locs[j % len(locs)]
    shapes[t][a] += 1 + (case['seed'] % 2)
  elif mut == 'con_dup':
    if len(con) < 2:
      raise Skip()
    con[i % len(con)] = con[(i + 1) % len(con)]
    kw['con_order'] = con
  elif mut == 'con_missing':
    if len(con) < 2:
      raise Skip()
    con.pop(i % len(con))
    kw['con_order'] = con
  elif mut == 'con_unknown':
    if not con:
      raise Skip()
    con[i % len(con)] = [999, 'unknown'][j % 2]
    kw['con_order'] = con
  elif mut == 'con_neg':
    if not con:
      raise Skip()
    l = con[i % len(con)]
    con[i % len(con)] = '-' + l if isinstance(l, str) else -l
    kw['con_order'] = con
  elif mut == 'con_open':
    if not out or not con:
      raise Skip()
    con.append(out[0])
    kw['con_order'] = con
  elif mut == 'out_closed':
    if not out or not con:
      raise Skip()
    out.append(con[0])
    kw['out_order'] = out
  elif mut == 'out_dup':
    if len(out) < 2:
      raise Skip()
    out[i % len(out)] = out[(i + 1) % len(out)]
    kw['out_order'] = out
  elif mut == 'out_missing':
    if len(out) < 2:
      raise Skip()
    out.pop(i % len(out))
    kw['out_order'] = out
  elif mut == 'out_unknown':
    if not out:
      raise Skip()
    out[i % len(out)] = [-999, '-unknown'][j % 2]
    kw['out_order'] = out
  elif mut == 'out_pos':
    if not out:
      raise Skip()
    l = out[i % len(out)]
    out[i % len(out)] = l[1:] if isinstance(l, str) else -l
    kw['out_order'] = out
  elif mut == 'badstr':
    t = i % len(labels)
    if not labels[t]:
      raise Skip()
    l = labels[t][j % len(labels[t])]
    bad = ('-' if is_open(l) else '') + ['a_b', 'a b', 'x-y', 'a.'][i % 4]
    labels = [[bad if x == l else x for x in ls] for ls in labels]
  arrays = [arr(s, case['seed'] + k, 'int') for k, s in enumerate(shapes)]
  tensors = arrays
  if case['tensor'] or mut == 'backend':
    tensors = [tn.Tensor(a, backend='numpy') for a in arrays]
  if mut == 'backend':
    kw['backend'] = 'jax'
  else:
    kw['backend'] = 'numpy'
  ctx.raises(ValueError, lambda: tn.ncon(tensors, labels, **kw), 'mutation %s, labels %s, shapes %s, %s' % (
      mut, labels, shapes, kw))
  ctx.nontrivial(len(set(flat(labels))) >= 2)
  ctx.label(mut)


PARTS = [
    Part('value', lambda: value_case(), run_value, quick=6000, thorough=80000),
    Part('value-tf', lambda: value_case(backends=('tensorflow',), min_tensors=2, min_labels=3, max_tensors=4, max_labels=6),
         run_value, quick=400, thorough=6000, shards=2),
    Part('value-jax', lambda: value_case(backends=('jax',), min_tensors=2, min_labels=3, max_tensors=3, max_labels=5), run_value,
         quick=200, thorough=2500, shards=4),
    Part('reject', lambda: bad_case(), run_bad, quick=2000, thorough=20000),
]
