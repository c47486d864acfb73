"""C24: the drawn graph is isomorphic to the network."""
import collections
import re
import sys
import graphviz
import numpy as np
from hypothesis import strategies as st
import tensornetwork as tn
from vt.core import Part, Violation
from vt.gens import pick
from vt.netgen import build, net_case

ID = 'C24'
RULE = ('Random networks (up to 9 nodes; plain and copy nodes; self loops, parallel and dangling edges, scalars, several components) '
        'with default, private, repeated, empty and odd names, before and after contractions, flattenings and splits, handed over as '
        'list, tuple, set or generator, into a new or a given graph. The DOT text is parsed and compared, vertex by vertex and edge by '
        'edge, with the network; the network is compared with itself before. Non-trivial: at least two nodes and one inner edge.')
ASSUMPTIONS = ['all nodes of the network are passed']

NAMES = ['a', 'b', 'node0', '', '__private', '_x', '__unnamed_node__', 'two words', 'a"b', 'a:b', 'graph', 'é', '12', '-1.5', 'a--b',
         '[x]', 'a=b;', '{r|s}', '<psi|', '|psi>', '<psi>', '<b>x</b>', 'a\\b', '\\N', 'x\\l', '__', "it's", 'edge', 'strict', '#c',
         '// c', 'a\\', '"', '%s', '{}', 'node', '&amp;', '_', '"q"', '<>']

TOKEN = re.compile(r'\s*(?:(?P<q>"(?:[^"\\]|\\.)*")|(?P<html><)|(?P<sym>--|->|[\[\]{}=;,:])|(?P<id>[^\s"<\[\]{}=;,:]+))', re.S)


def tokens(src):
  i = 0
  out = []
  while i < len(src):
    if not src[i:].strip():
      break
    m = TOKEN.match(src, i)
    if not m:
      raise Violation('the DOT text cannot be read at %r' % src[i:i + 60])
    i = m.end()
    if m.group('q') is not None:
      out.append(('str', m.group('q')[1:-1]))
    elif m.group('html'):
      depth, j = 1, i
      while depth:
        if j >= len(src):
          raise Violation('unbalanced HTML text in %r' % src)
        depth += {'<': 1, '>': -1}.get(src[j], 0)
        j += 1
      out.append(('html', src[i:j - 1]))
      i = j
    elif m.group('sym'):
      out.append(('sym', m.group('sym')))
    else:
      out.append(('id', m.group('id')))
  return out


def shown(tok):
  """The text that Graphviz draws for a label."""
  if tok is None:
    return None
  kind, t = tok
  if kind == 'html':
    raise Violation('a label is markup, not text: <%s>' % t)
  if kind == 'id':
    return t
  out = []
  i = 0
  while i < len(t):
    if t[i] == '\\' and i + 1 < len(t):
      c = t[i + 1]
      out.append({'"': '"', '\\': '\\'}.get(c, '<escape %s>' % c))
      i += 2
    else:
      out.append(t[i])
      i += 1
  return ''.join(out)


def parse(src):
  """(vertices {id: attributes}, edges [(id, id, attributes)]) in order of appearance."""
  t = tokens(src)
  if [x[1] for x in t[:1]] != ['graph']:
    raise Violation('not an undirected graph: %r' % src[:40])
  i = 1
  while t[i] != ('sym', '{'):
    i += 1
  i += 1
  vertices, edges = {}, []
  attr0 = {}

  def attributes(i):
    attrs = {}
    if t[i] == ('sym', '['):
      i += 1
      while t[i] != ('sym', ']'):
        if t[i][1] in (',', ';') and t[i][0] == 'sym':
          i += 1
          continue
        key = t[i][1]
        if t[i + 1] != ('sym', '='):
          raise Violation('attribute without value')
        attrs[key] = t[i + 2]
        i += 3
      i += 1
    return attrs, i

  while t[i] != ('sym', '}'):
    if t[i] == ('sym', ';'):
      i += 1
      continue
    if t[i][0] == 'id' and t[i][1] in ('node', 'edge', 'graph'):
      a, i = attributes(i + 1)
      attr0[t[i][1]] = a
      continue
    chain = [t[i][1]]
    i += 1
    while t[i] == ('sym', '--'):
      chain.append(t[i + 1][1])
      i += 2
    a, i = attributes(i)
    if len(chain) == 1:
      vertices.setdefault(chain[0], {}).update(a)
    for p, q in zip(chain, chain[1:]):
      edges.append((p, q, a))
  if i != len(t) - 1:
    raise Violation('text after the graph')
  return vertices, edges


def picture(nodes):
  """What of the network must not change."""
  out = []
  for n in nodes:
    out.append((id(n), n.name, tuple(n.axis_names), n.shape, tuple(id(e) for e in n.edges), np.array(n.tensor).tobytes()))
    for e in n.edges:
      out.append((e.name, id(e.node1), e.axis1, id(e.node2) if e.node2 is not None else None, e.axis2, e.is_dangling()))
  return out


def run(case, ctx):
  net = build(case['net'])
  nodes = list(net.nodes)
  rng = np.random.default_rng(case['net']['seed'])
  for k in case['ops']:
    if k % 4 == 0:
      inner = [e for n in nodes for e in n.edges if not e.is_dangling() and e.node1 is not e.node2]
      if inner:
        e = pick(inner, k // 4)
        a, b = e.node1, e.node2
        if a.get_rank() + b.get_rank() > 12:
          continue
        new = tn.contract_between(a, b)
        nodes = [n for n in nodes if n is not a and n is not b] + [new]
    elif k % 4 == 1:
      pairs = [e for n in nodes for e in n.edges if not e.is_dangling() and e.node1 is not e.node2]
      if pairs:
        e = pick(pairs, k // 4)
        tn.flatten_edges_between(e.node1, e.node2)
    elif k % 4 == 2:
      n = pick(nodes, k // 4)
      if n.get_rank() >= 2 and np.prod(n.shape) < 500:
        if isinstance(n, tn.CopyNode) or any(e.is_trace() for e in n.edges):
          continue
        c = 1 + k // 4 % (n.get_rank() - 1)
        l, r = tn.split_node_qr(n, n.edges[:c], n.edges[c:])
        nodes = [m for m in nodes if m is not n] + [l, r]
    else:
      n = pick(nodes, k // 4)
      free = [e for e in n.edges if e.is_dangling()]
      if len(free) >= 2 and free[0].dimension == free[1].dimension:
        tn.connect(free[0], free[1])
  alledges = []
  for n in nodes:
    for e in n.edges:
      if not any(e is x for x in alledges):
        alledges.append(e)
  names = case['names']
  for i, n in enumerate(nodes):
    j = names[i % len(names)]
    if j:
      n.set_name(pick(NAMES, j))
  for i, e in enumerate(alledges):
    j = names[(7 * i + 3) % len(names)]
    if j % 4:
      e.set_name(pick(NAMES, j))
  nodes = [nodes[i] for i in rng.permutation(len(nodes))]
  before = picture(nodes)
  every = bool(case['all'] % 2)
  given = case['all'] // 2 % 3 == 0
  arg = [list, tuple, set, iter, lambda x: (n for n in x), lambda x: list(x) + list(x)][case['as'] % 6](nodes)
  ctx.label(['list', 'tuple', 'set', 'iterator', 'generator', 'twice'][case['as'] % 6])
  kw = {}
  if every or case['all'] // 6 % 2:
    kw['include_all_names'] = every
  old_v, old_e = {}, []
  if given:
    g = graphviz.Graph('mine', engine='dot', node_attr={'shape': 'box'})
    if case['all'] % 5:
      g.node('own', label='own vertex')
      g.node('other')
      g.edge('own', 'other', label='own edge')
      g.edge('own', 'own')
    old_v, old_e = parse(g.source)
    ctx.check(tn.to_graphviz(arg, g, **kw) is g, 'the given graph is not returned')
    ctx.equal(g.engine, 'dot', 'engine of the given graph')
    ctx.label('given graph')
  else:
    if case['all'] // 12 % 2:
      kw['engine'] = pick(['dot', 'fdp', 'circo'], case['as'])
    g = tn.to_graphviz(arg, **kw)
    ctx.check(isinstance(g, graphviz.Graph), 'not a graph')
    ctx.equal(g.engine, kw.get('engine', 'neato'), 'engine')
  ctx.check(picture(nodes) == before, 'drawing changed the network')
  vertices, edges = parse(g.source)
  for k, v in old_v.items():
    ctx.equal(vertices.pop(k, None), v, 'earlier vertex')
  ctx.equal(edges[:len(old_e)], old_e, 'earlier edges')
  edges = edges[len(old_e):]
  text = lambda name: '' if name.startswith('__') and not every else name
  # one vertex for every node
  visible = {v: a for v, a in vertices.items() if shown(a.get('style')) != 'invis'}
  hidden = {v for v in vertices if v not in visible}
  for v, a in visible.items():
    ctx.check('label' in a, 'vertex {} without label', v)
  by_id = {str(id(n)): n for n in nodes}
  dangling = [e for e in alledges if e.is_dangling()]
  inner = [e for e in alledges if not e.is_dangling()]
  ctx.equal(len(visible), len(nodes), 'number of vertices')
  ctx.equal(collections.Counter(shown(a['label']) for a in visible.values()), collections.Counter(text(n.name) for n in nodes),
            'labels of the vertices')
  ctx.equal(len(hidden), len(dangling), 'number of invisible ends')
  for v in hidden:
    ctx.equal(shown(vertices[v].get('label', ('str', ''))), '', 'label of an invisible end')
  ctx.equal(len(edges), len(alledges), 'number of drawn edges')
  for p, q, _ in edges:
    for v in (p, q):
      ctx.check(v in vertices, 'an edge ends at the undeclared vertex {}', v)
  label = lambda a: shown(a.get('label', ('str', '')))
  free = [x for x in edges if x[0] in hidden or x[1] in hidden]
  ctx.equal(sorted(v for x in free for v in x[:2] if v in hidden), sorted(hidden), 'ends of the dangling edges')
  if set(visible) == set(by_id):
    # vertices are named by the identity of the node: compare edge by edge
    who = {v: by_id[v] for v in visible}
    for v, n in who.items():
      ctx.equal(shown(visible[v]['label']), text(n.name), 'label of a vertex')
    got = collections.Counter((frozenset((p, q)) - hidden, (p in hidden) + (q in hidden), label(a)) for p, q, a in edges)
    want = collections.Counter(
        (frozenset(str(id(n)) for n in (e.node1, e.node2) if n is not None), int(e.is_dangling()), text(e.name)) for e in alledges)
    ctx.equal(got, want, 'drawn edges')
  else:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import networkx as nx

    def graph(vs, es):
      h = nx.MultiGraph()
      for v, l in vs:
        h.add_node(v, label=l)
      for k, (p, q, l) in enumerate(es):
        h.add_node(('e', k), label=(0, l))
        h.add_edge(p, ('e', k))
        h.add_edge(q, ('e', k))
      return h

    one = graph([(v, (1, label(a)) if v not in hidden else (2, '')) for v, a in vertices.items()],
                [(p, q, label(a)) for p, q, a in edges])
    two = graph([(id(n), (1, text(n.name))) for n in nodes] + [(('d', id(e)), (2, '')) for e in dangling],
                [(id(e.node1), id(e.node2) if not e.is_dangling() else ('d', id(e)), text(e.name)) for e in alledges])
    ctx.check(nx.is_isomorphic(one, two, node_match=lambda a, b: a['label'] == b['label']), 'the drawing is not the network')
  if any(e.is_trace() for e in inner):
    ctx.label('self loop')
  pairs = collections.Counter(frozenset((id(e.node1), id(e.node2))) for e in inner)
  if pairs and max(pairs.values()) > 1:
    ctx.label('parallel edges')
  if dangling:
    ctx.label('dangling')
  ctx.nontrivial(len(nodes) >= 2 and len(inner) >= 1)


@st.composite
def strategy(draw):
  net = draw(net_case(1, 9, 14))
  net['copy'] = draw(st.lists(st.integers(0, 8), max_size=3))
  u = st.integers(0, 255)
  return dict(net=net, ops=draw(st.lists(u, max_size=4)), names=draw(st.lists(u, min_size=1, max_size=12)), all=draw(u),
              **{'as': draw(u)})


PARTS = [Part('draw', strategy, run, 9000, 80000)]
