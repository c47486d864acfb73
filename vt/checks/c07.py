"""C07: saving and loading a network is the identity."""
import io
import json
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from vt.core import Part, Skip
from vt.gens import pick, arr
from vt.graphmodel import meinsum
from vt.netgen import net_case, build, perm_of
from vt.checks.c06 import snap, same_snap

ID = 'C07'
RULE = ('Random networks of 1-14 plain and copy nodes (parallel, trace and dangling edges, scalars, '
        'disconnected parts, up to 20 edges) with arbitrary unicode, duplicate and empty names, several '
        'dtypes and memory layouts; saved to a file or buffer, or converted to JSON text for any subset '
        'of the nodes with edge bindings, and loaded back. Non-trivial: at least two nodes and two edges.')

text = st.one_of(st.sampled_from(['', 'a', 'node0', 'node1', 'edge0', 'edge10', '__unnamed_edge__', 'é∂ 字',
                                  'a/b', '0']),
                 st.text(st.characters(blacklist_characters='\x00', blacklist_categories=('Cs',)), max_size=6))


def strategy(backends=('numpy',), max_nodes=14, copy=True):
  @st.composite
  def s(draw):
    big = draw(st.booleans())
    case = draw(net_case(1, max_nodes if big else 4, 20 if big else 7, (1, 2, 2, 3),
                         kinds=('int', 'cint', 'i64', 'f32', 'c64'), backends=backends))
    case['copy'] = draw(st.lists(st.integers(0, 13), max_size=3)) if copy else []
    case['names'] = draw(st.lists(text, min_size=1, max_size=8))
    case['mask'] = draw(st.integers(0, 2 ** 14 - 1))
    case['form'] = draw(st.integers(0, 3))
    case['layout'] = draw(st.integers(0, 3))
    case['scalar'] = draw(st.booleans())
    case['default'] = draw(st.booleans())
    case['perm'] = draw(st.integers(0, 10 ** 6))
    case['bind'] = draw(st.lists(st.tuples(text, st.integers(0, 40), st.integers(0, 5)), max_size=4))
    return case
  return s


def make(case):
  r = build(case)
  nodes = list(r.nodes)
  names = case['names']
  if not case['default']:
    for i, n in enumerate(nodes):
      n.set_name(pick(names, i))
      for j, e in enumerate(n.edges):
        e.set_name(pick(names, i + 3 * j))
      base = pick(names, i + 1)
      n.add_axis_names([base + str(j) for j in range(len(n.edges))])
  for i, n in enumerate(nodes):
    if isinstance(n, tn.Node) and case['backend'] == 'numpy':
      if case['layout'] == 1 and n.tensor.ndim:
        n.tensor = np.asfortranarray(n.tensor)
      elif case['layout'] == 2 and n.tensor.ndim:
        big = np.repeat(n.tensor, 2, axis=0)
        n.tensor = big[::2]
      elif case['layout'] == 3:
        n.tensor = np.asarray(n.tensor, dtype=n.tensor.dtype.newbyteorder('>'))
  if case['scalar']:
    nodes.insert(len(nodes) // 2, tn.Node(arr((), case['seed'], case['kind']), backend=case['backend']))
  return r, perm_of(nodes, case['perm'])


def np_dtype(n):
  d = n.dtype
  return np.dtype(getattr(d, 'name', d))


def compare(ctx, nodes, loaded, inside, what):
  """loaded[i] must be nodes[i]; edges leaving `inside` (ids) dangle."""
  ctx.check(isinstance(loaded, list), what + ': a list is returned')
  ctx.equal(len(loaded), len(nodes), what + ': number of nodes')
  idx = {id(n): i for i, n in enumerate(nodes)}
  lidx = {id(n): i for i, n in enumerate(loaded)}
  ctx.equal(len(lidx), len(nodes), what + ': distinct nodes')
  emap = {}
  for i, (n, c) in enumerate(zip(nodes, loaded)):
    ctx.equal((type(c), c.name, list(c.axis_names), tuple(c.shape), c.backend.name),
              (type(n), n.name, list(n.axis_names), tuple(n.shape), n.backend.name),
              what + ': node %d' % i)
    ctx.close(np.asarray(c.tensor), np.asarray(n.tensor), what + ': tensor of node %d' % i, tol=0)
    ctx.equal(np_dtype(c).newbyteorder('='), np_dtype(n).newbyteorder('='), what + ': dtype')
    ctx.equal(type(c.tensor), type(n.tensor), what + ': tensor type')
    ctx.equal(len(c.edges), len(n.edges), what + ': rank')
    for ax, (e, f) in enumerate(zip(n.edges, c.edges)):
      if id(e) in emap:
        ctx.check(emap[id(e)] is f, what + ': the ends of an edge are different edges')
      emap[id(e)] = f
      ctx.equal(f.name, e.name, what + ': edge name')
      want = {(idx[id(m)], a) for m, a in ((e.node1, e.axis1), (e.node2, e.axis2))
              if m is not None and id(m) in inside}
      got = {(lidx.get(id(m), 'foreign'), a) for m, a in ((f.node1, f.axis1), (f.node2, f.axis2))
             if m is not None}
      ctx.equal(got, want, what + ': ends of the edge on axis %d of node %d' % (ax, i))
      ctx.equal(f.is_dangling(), len(want) == 1, what + ': is_dangling')
      ctx.equal(f.is_trace(), len(want) == 2 and len({a for a, _ in want}) == 1, what + ': is_trace')
      ctx.equal(f.dimension, e.dimension, what + ': dimension')
      ctx.check(not f.is_dangling() or f.node1 is not None, what + ': a dangling edge hangs on its node1')
  tn.check_correct(loaded, check_connections=False)
  return emap


def run_file(case, ctx):
  r, nodes = make(case)
  ctx.nontrivial(case['n'] >= 2 and len(case['edges']) >= 2)
  before = snap(nodes)
  form = case['form']
  given = [list, tuple, list, lambda s: (x for x in s)][form](nodes)
  d = tempfile.mkdtemp(prefix='vt_c07_')
  try:
    path = os.path.join(d, 'net.h5')
    # a save that fails leaves the network alone
    if case['perm'] % 5 == 0:
      ctx.raises(OSError, lambda: tn.save_nodes(nodes, os.path.join(d, 'none', 'net.h5')), 'unwritable path')
      same_snap(ctx, before, snap(nodes), 'network after a failed save')
    outside = [n for n in nodes if not set(tn.get_neighbors(n)) <= {n}]
    if outside and case['perm'] % 3 == 0:
      part = [n for n in nodes if n is not outside[0]]
      if any(outside[0] in tn.get_neighbors(n) for n in part):
        ctx.raises(ValueError, lambda: tn.save_nodes(part, path), 'saving a part of a component')
        ctx.raises(ValueError, lambda: tn.save_nodes(nodes + [nodes[0]], path), 'saving a node twice')
        same_snap(ctx, before, snap(nodes), 'network after a rejected save')
    if form == 2:
      path = io.BytesIO()
      ctx.label('buffer')
    tn.save_nodes(given, path)
    same_snap(ctx, before, snap(nodes), 'network after saving')
    if form == 2:
      path.seek(0)
    loaded = tn.load_nodes(path)
    if case['perm'] % 2:
      tn.load_nodes(path)
  finally:
    shutil.rmtree(d)
  same_snap(ctx, before, snap(nodes), 'network after loading')
  compare(ctx, nodes, loaded, {id(n) for n in nodes}, 'loaded')
  if len(nodes) > 10:
    ctx.label('more than ten nodes')
  if any(isinstance(n, tn.CopyNode) for n in nodes):
    ctx.label('copy node')
  if len(nodes) <= 5 and len(r.dangling) <= 6 and case['backend'] == 'numpy':
    comp = tn.contractors.greedy(loaded, ignore_edge_order=True) if not r.dangling else None
    if comp is not None:
      ins = [(np.asarray(n.tensor), [id(e) for e in n.edges]) for n in nodes]
      ctx.close(np.asarray(comp.tensor), meinsum(ins, []), 'contraction of the loaded network', tol=1e-4)


def run_json(case, ctx):
  r, nodes = make(case)
  ctx.nontrivial(case['n'] >= 2 and len(case['edges']) >= 2)
  sub = [n for i, n in enumerate(nodes) if case['mask'] >> (i % 14) & 1]
  if case['form'] == 0 or not sub:
    sub = nodes
  before = snap(nodes)
  alle = []
  for n in nodes:
    for e in n.edges:
      if not any(e is x for x in alle):
        alle.append(e)
  binding = {}
  want = {}
  inside = {id(n) for n in sub}
  for key, k, form in case['bind']:
    if not alle:
      continue
    es = [pick(alle, k + j) for j in range(1 + form % 3)]
    if form == 0:
      binding[key] = es[0]
      es = es[:1]
    elif form in (1, 4):
      binding[key] = tuple(es)
    else:
      binding[key] = list(es)
    want[key] = [e for e in es if any(id(m) in inside for m in e.get_nodes() if m is not None)]
  kw = {'edge_binding': binding} if binding or case['perm'] % 2 else {}
  s = tn.nodes_to_json(sub, **kw)
  same_snap(ctx, before, snap(nodes), 'network after nodes_to_json')
  ctx.check(isinstance(s, str), 'a string is returned')
  json.loads(s)
  loaded, back = tn.nodes_from_json(s)
  emap = compare(ctx, sub, loaded, inside, 'from JSON')
  ctx.equal(set(back), {k for k in want if want[k]}, 'keys of the edge binding')
  for k in back:
    ctx.check(isinstance(back[k], tuple), 'binding values are tuples')
    ctx.equal([id(x) for x in back[k]], [id(emap[id(e)]) for e in want[k]], 'edge binding %r' % k)
  s2 = tn.nodes_to_json(loaded)
  l2, _ = tn.nodes_from_json(s2)
  compare(ctx, loaded, l2, {id(n) for n in loaded}, 'second round trip')
  # node level
  n = pick(sub, case['perm'])
  d = n.to_serial_dict()
  keep = dict(d)
  m = tn.Node.from_serial_dict(d)
  ctx.check(d == keep, 'from_serial_dict changed its argument')
  ctx.equal((m.name, list(m.axis_names)), (n.name, list(n.axis_names)), 'from_serial_dict')
  ctx.close(m.tensor, n.tensor, 'from_serial_dict tensor', tol=0)
  if len(sub) < len(nodes):
    ctx.label('proper subset')
  if want:
    ctx.label('binding')
  if sub:
    ctx.raises(TypeError, lambda: tn.nodes_to_json(sub, {1: sub[0].edges}) if sub[0].edges else
               (_ for _ in ()).throw(TypeError()), 'binding key must be a string')


def setup():
  import jax
  jax.config.update('jax_enable_x64', True)


PARTS = [
    Part('file', strategy(), run_file, 1500, 20000),
    Part('json', strategy(copy=False), run_json, 3000, 40000),
    Part('file-backends', strategy(backends=('tensorflow', 'jax'), max_nodes=4), run_file, 80, 1000,
         setup=setup),
]
