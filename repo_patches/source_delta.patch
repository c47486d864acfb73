From 171b9b0522aad1e8efa665b8eefb18bdbf9094f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 01/90] fix: ncon rejects mismatching dimensions of open batch
 labels

---
 tensornetwork/ncon_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..de1e67f 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -221,9 +221,9 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
       raise ValueError(f"labels {labels} in `out_order` do not "
                        f"appear in `network_structure`.")
 
-  # check if contracted dimensions are matching
+  # check if contracted and batched dimensions are matching
   mismatched_labels = []
-  for l in cont_labels:
+  for l in cont_labels + out_labels:
     dims = {
         tensor_dimensions[m][n]
         for m, labels in enumerate(network_structure)
-- 
2.43.0


From 7a67a152abfb7ff634efa7502d90fc38df6ab700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 02/90] fix: ncon takes the diagonal of batch labels repeated
 on one tensor

---
 tensornetwork/ncon_interface.py | 35 +++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index de1e67f..da1f4d2 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,35 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _partial_diagonal(
+    tensor: Tensor, labels: List, all_labels: List,
+    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Collapse repeated batch labels of `tensor` to a single axis by taking
+  the corresponding diagonals. Closed labels appearing exactly twice 
+  in the whole network are left untouched (they are traced over).
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    all_labels: The labels of all tensors of the network.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The tensor with collapsed axes.
+    List: The updated labels.
+  """
+  labels = list(labels)
+  for label in sorted(set(labels)):
+    if label > 0 and all_labels.count(label) <= 2:
+      continue
+    while labels.count(label) > 1:
+      pos = [n for n, l in enumerate(labels) if l == label][:2]
+      free = [n for n in range(len(labels)) if n not in pos]
+      tensor = backend_obj.diagonal(
+          backend_obj.transpose(tensor, tuple(free + pos)))
+      labels = [labels[n] for n in free] + [label]
+  return tensor, labels
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +420,12 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # collapse batch labels that appear more than once on the same tensor
+  all_labels = list(flat_labels)
+  for n, tensor in enumerate(tensors):
+    tensors[n], network_structure[n] = _partial_diagonal(
+        tensor, network_structure[n], all_labels, backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From a0aad067432496c6a248c7b2440282e338f79eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 03/90] fix: ncon sums single closed labels sitting on
 different tensors

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index da1f4d2..b52503e 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -449,7 +449,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 6ec82c10f0c325c71121323c59186f18957956eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 04/90] fix: ncon contracts networks in which only closed batch
 labels are left

---
 tensornetwork/ncon_interface.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index b52503e..c92f54f 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -473,13 +473,19 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
       con_order.append(con_order.pop(0))
       skip_counter += 1
       # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
+      if skip_counter <= len(con_order):
+        continue
+      # only closed batch labels are left to be contracted: contract them
+      # pairwise, unless `con_order` misses some of the closed labels
+      if {l for labels in network_structure for l in labels if l > 0
+         } - set(con_order):
         raise ValueError(f"ncon seems stuck in an infinite loop. \n"
                          f"Please check if `con_order` = {init_con_order} is "
                          f"a valid contraction order for \n"
                          f"`network_structure` = {init_network_structure}")
-      continue
+      cont_ind = con_order[0]
 
+    skip_counter = 0
     # find locations of `cont_ind` in `network_structure`
     locs = [
         n for n, labels in enumerate(network_structure) if cont_ind in labels
-- 
2.43.0


From 4474fdc5569ee1851d817da52138f6c581de6c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:01 +0000
Subject: [PATCH 05/90] fix: reorder_edges rejects repeated edges before
 changing the node

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..73808b5 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -234,6 +234,9 @@ class AbstractNode(ABC):
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order does not match expected edges. "
+                       "Repeated edges found: {}".format(edge_order))
 
     permutation = []
     for i, edge in enumerate(edge_order):
-- 
2.43.0


From 7432c17356d7bc68d9ec15f014a059a93597deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:59 +0000
Subject: [PATCH 06/90] fix: slice_edge resolves negative start indices before
 validating them

---
 tensornetwork/network_components.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 73808b5..98ed0ba 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1660,7 +1660,9 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  # Negative indices count from the end of the edge.
+  begin = start_index + edge.dimension if start_index < 0 else start_index
+  if begin < 0 or begin + length > edge.dimension:
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
 
@@ -1674,7 +1676,7 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
     if node is not None:
       tensor = node.get_tensor()
       start_indices = [0] * node.get_rank()
-      start_indices[axis] = start_index
+      start_indices[axis] = begin
       start_indices = tuple(start_indices)
       slice_sizes = list(node.shape)
       slice_sizes[axis] = length
-- 
2.43.0


From a51da0950b8ebb30083fb780d2a7ef035c8ae311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 07/90] fix: flattening and splitting edges keeps one unique
 axis name per axis

---
 tensornetwork/network_components.py | 30 ++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 98ed0ba..f24961e 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1361,6 +1361,7 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  node.axis_names = node.axis_names[:len(node.edges)]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1495,6 +1496,18 @@ def flatten_all_edges(nodes: Iterable[AbstractNode]) -> List[Edge]:
   return flattened_edges
 
 
+def _split_axis_names(names: List[Text], rank: int) -> List[Text]:
+  """Extend the axis names of the axes kept by a split to `rank` axes.
+
+  Missing names are replaced by the axis number; if the result is not unique,
+  all axes are named by their number.
+  """
+  names = list(names) + [str(n) for n in range(len(names), rank)]
+  if len(set(names)) != rank:
+    names = [str(n) for n in range(rank)]
+  return names
+
+
 def _split_trace_edge(
     edge: Edge,
     shape: Tuple[int, ...],
@@ -1524,6 +1537,8 @@ def _split_trace_edge(
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = _split_axis_names(node.axis_names[:len(perm_front)],
+                                      len(node.edges))
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
@@ -1588,7 +1603,6 @@ def split_edge(edge: Edge,
     # Required for dangling case.
     if node is None:
       continue
-    axis_names = node.axis_names
     # Permute until edge axes to be split are at the back and reshape.
     perm_back = [node.edges.index(edge)]
     perm_front = set(range(len(node.edges))) - set(perm_back)
@@ -1608,16 +1622,10 @@ def split_edge(edge: Edge,
       node.edges += [new_dangling_edge]
       new_dangling_edges.append(new_dangling_edge)
     # TODO: Allow renaming of new axes (possibly distinct from new_edge_names).
-    if axis_names:
-      new_axis_names = [axis_names[n] for n in range(len(unaffected_shape))]
-      if new_edge_names:
-        new_axis_names.extend(new_edge_names)
-      else:
-        new_axis_names.extend(
-            [str(n) for n in range(len(unaffected_shape), len(node.edges))])
-      node.axis_names = new_axis_names
-    else:
-      node.axis_names = [str(n) for n in range(len(node.edges))]
+    axis_names = node.axis_names[:len(perm_front)]
+    if new_edge_names:
+      axis_names = axis_names + list(new_edge_names)
+    node.axis_names = _split_axis_names(axis_names, len(node.edges))
 
   node1, node2 = tuple(expected_nodes)
   # pylint: disable=expression-not-assigned
-- 
2.43.0


From dd9ebd6041c1a4eacc353eac8ca74861b9a5cccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 08/90] fix: copies of trace edges are the edges of the copied
 node

---
 tensornetwork/network_components.py |  4 ++--
 tensornetwork/network_operations.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index f24961e..e3d3557 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -815,11 +815,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..16351ab 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -72,12 +72,15 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict[edge] = new_edge
       continue
 
+    # the copied node already carries its trace edges
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1].edges[axis1]
+      continue
+
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
-
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
     edge_dict[edge] = new_edge
 
   return node_dict, edge_dict
-- 
2.43.0


From 5a2df3d05eee484bf8a87da7b4a38678a9df197a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 09/90] fix: contract_path replaces nodes whose trace edges it
 contracts and leaves the caller's list alone

---
 .../contractors/opt_einsum_paths/path_contractors.py        | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..6f16076 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -365,11 +365,7 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
-  edges = get_all_edges(nodes)
-  for edge in edges:
-    if not edge.is_disabled:  #if its disabled we already contracted it
-      if edge.is_trace():
-        contract_parallel(edge)
+  nodes = [contract_trace_edges(node) for node in nodes]
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From 52635542b2c38ea1d4794958bc7ee39851f99b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:06 +0000
Subject: [PATCH 10/90] fix: contractors.auto honours ignore_edge_order for a
 single node

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 6f16076..d383ab2 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -236,7 +236,6 @@ def auto(nodes: Iterable[AbstractNode],
       final_node = contract_parallel(edges.pop())
     else:
       final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
     if not ignore_edge_order:
       final_node.reorder_edges(output_edge_order)
     return final_node
-- 
2.43.0


From fdb20d566980ecb0073668be875e7ec264308f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:14 +0000
Subject: [PATCH 11/90] fix: ncon_cost_check runs on NumPy versions without
 np.float

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From 67102df2da4444c613932124eb241188aa0a08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 12/90] fix: path solver accepts a network of a single tensor

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..8b1cabc 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -160,6 +160,9 @@ def full_solve_complete(log_adj: np.ndarray,
     bool: specifies if contraction order is guaranteed optimal.
   """
   tol = 1e-6  # tolerance for float comparison
+  if log_adj.shape[0] == 1:
+    # a single tensor, there is nothing to contract
+    return np.zeros([2, 0], dtype=int), float('-inf'), True
   # start by trying both greedy algorithms
   order0, cost0 = greedy_size_solve(log_adj)
   order1, cost1 = greedy_cost_solve(log_adj)
-- 
2.43.0


From 6f1ba01d8cdfb13ab8e78a9eb914cf5d2d325b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:33 +0000
Subject: [PATCH 13/90] fix: greedy path solver never contracts a tensor with
 itself

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 8b1cabc..713479b 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,8 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    trimmed_costs = trimmed_costs + (1 + np.max(
+        trimmed_costs.flatten())) * np.eye(N)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From f44f82a06df4f2116f7d1a463372664c24e28958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 14/90] fix: QR and RQ with non-negative diagonal keep
 vanishing and complex diagonal elements

---
 tensornetwork/backends/numpy/decompositions.py     |  8 ++++++--
 .../backends/tensorflow/decompositions.py          | 14 ++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..281242d 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -89,7 +89,9 @@ def qr(
   tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
-    phases = np.sign(np.diagonal(r))
+    diagonal = np.diagonal(r)
+    # a vanishing diagonal element has no phase to remove
+    phases = np.where(diagonal == 0, np.ones_like(diagonal), np.sign(diagonal))
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -113,7 +115,9 @@ def rq(
   tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
-    phases = np.sign(np.diagonal(r))
+    diagonal = np.diagonal(r)
+    # a vanishing diagonal element has no phase to remove
+    phases = np.where(diagonal == 0, np.ones_like(diagonal), np.sign(diagonal))
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..688a4b2 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -167,9 +167,12 @@ def qr(
                        tf.reduce_prod(right_dims)])
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
-    phases = tf.math.sign(tf.linalg.diag_part(r))
+    diagonal = tf.linalg.diag_part(r)
+    # a vanishing diagonal element has no phase to remove
+    phases = tf.where(diagonal == 0, tf.ones_like(diagonal),
+                      tf.math.sign(diagonal))
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   center_dim = tf.shape(q)[1]
   q = tf.reshape(q, tf.concat([left_dims, [center_dim]], axis=-1))
   r = tf.reshape(r, tf.concat([[center_dim], right_dims], axis=-1))
@@ -217,9 +220,12 @@ def rq(
                        tf.reduce_prod(right_dims)])
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
-    phases = tf.math.sign(tf.linalg.diag_part(r))
+    diagonal = tf.linalg.diag_part(r)
+    # a vanishing diagonal element has no phase to remove
+    phases = tf.where(diagonal == 0, tf.ones_like(diagonal),
+                      tf.math.sign(diagonal))
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
       tf.transpose(q))  #M=r*q at this point
   center_dim = tf.shape(r)[1]
-- 
2.43.0


From c4965264547567c493c835738d0e0badf868871c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 15/90] fix: network queries and copies accept one-shot
 iterables of nodes and edges

---
 tensornetwork/network_operations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 16351ab..8aa8780 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -102,6 +103,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -657,6 +659,7 @@ def check_correct(nodes: Iterable[AbstractNode],
     ValueError: If the network defined by `nodes` is not
       correctly structured.
   """
+  nodes = list(nodes)
   for node in nodes:
     for i, edge in enumerate(node.edges):
       if edge.node1 is not node and edge.node2 is not node:
@@ -730,9 +733,10 @@ def get_subgraph_dangling(nodes: Iterable[AbstractNode]) -> Set[Edge]:
   Returns:
     The set of "relatively dangling" edges.
   """
+  nodes = set(nodes)
   output = set()
   for edge in get_all_edges(nodes):
-    if edge.is_dangling() or not set(edge.get_nodes()) <= set(nodes):
+    if edge.is_dangling() or not set(edge.get_nodes()) <= nodes:
       output.add(edge)
   return output
 
@@ -779,6 +783,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
-- 
2.43.0


From ac816603c48b50e94ecdbd3bd56cb07ef12f4f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:16 +0000
Subject: [PATCH 16/90] fix: copy nodes report the shape of their tensor

---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index e3d3557..e28e9a0 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -827,6 +827,9 @@ class CopyNode(AbstractNode):
 
   @property
   def shape(self) -> Tuple[Optional[int], ...]:
+    # Flattening edges replaces the tensor by one of a different shape.
+    if self._tensor is not None:
+      return self.backend.shape_tuple(self._tensor)
     return (self.dimension,) * self.rank
 
   @property
-- 
2.43.0


From b6d7cb36186f45f5c2eee6f5d6f2fe03d51c2bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 17/90] fix: saving and loading networks keeps names, node
 order and scalar nodes

---
 tensornetwork/network_components.py |  7 ++-
 tensornetwork/utils.py              | 75 ++++++++++++++---------------
 2 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index e28e9a0..77746a9 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -465,7 +465,9 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    axis_names = []
+    if len(shape) > 0:
+      axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
     return name, shape, axis_names, backend
 
   @abstractmethod
@@ -682,6 +684,7 @@ class Node(AbstractNode):
     Returns:
       A node.
     """
+    serial_dict = dict(serial_dict)
     serial_dict['tensor'] = backend_factory.get_backend(
         serial_dict['backend']).deserialize_tensor(serial_dict['tensor'])
     return cls(**serial_dict)
@@ -939,7 +942,7 @@ class CopyNode(AbstractNode):
         node_data['copy_node_dtype'].asstr(STRING_ENCODING)[()])
     # pylint: disable=unnecessary-comprehension
     node = CopyNode(rank=len(shape),
-                    dimension=shape[0],
+                    dimension=shape[0] if len(shape) > 0 else 1,
                     name=name,
                     axis_names=[ax for ax in axis_names],
                     backend=backend,
diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..c5d56b6 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -33,6 +33,7 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       `nodes`.
     path: path to file where network is saved.
   """
+  nodes = list(nodes)
   if reachable(nodes) > set(nodes):
     raise ValueError(
         "Some nodes in `nodes` are connected to nodes not contained in `nodes`."
@@ -42,49 +43,47 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
         'Some nodes in `nodes` appear more than once. This is not supported')
   #we need to iterate twice and order matters
   edges = list(get_all_edges(nodes))
-  nodes = list(nodes)
 
   old_edge_names = {n: edge.name for n, edge in enumerate(edges)}
   old_node_names = {n: node.name for n, node in enumerate(nodes)}
 
-  #generate unique names for nodes and edges
-  #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  try:
+    #generate unique names for nodes and edges
+    #for saving them
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      for node in nodes:
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+      for edge in edges:
+        edge_group = edges_group.create_group(edge.name)
+        edge._save_edge(edge_group)
+  finally:
+    #name edges and nodes back  to their original names
+    for n, node in enumerate(nodes):
+      node.set_name(old_node_names[n])
 
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+    for n, edge in enumerate(edges):
+      edge.set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
@@ -98,7 +97,7 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
+    nodes = ['node{}'.format(n) for n in range(len(net_file["nodes"]))]
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
-- 
2.43.0


From 4cb1899adcf7d16e1a85d7f91413913cf2110ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 18/90] fix: nodes_from_json restores edges whose first node
 was not serialized

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 8aa8780..9ab099b 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -975,6 +975,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the first node was not serialized: the edge dangles at the second one
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From 9046fa1bf6516a3a02cb315c2d78072c724a3a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 19/90] fix: numpy tensordot handles every full contraction of
 two tensors

---
 tensornetwork/backends/numpy/numpy_backend.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..a2c0aac 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -22,8 +22,6 @@ import scipy as sp
 import scipy.sparse.linalg
 Tensor = Any
 
-int_to_string = np.array(list(map(chr, list(range(65, 91)))))
-
 
 class NumPyBackend(abstract_backend.AbstractBackend):
   """See base_backend.BaseBackend for documentation."""
@@ -39,17 +37,12 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
-        u, pos1, _ = np.intersect1d(axes[0],
-                                    axes[1],
-                                    return_indices=True,
-                                    assume_unique=True)
-        labels = int_to_string[0:len(u)]
-        labels_1 = labels[pos1]
-        labels_2 = np.array([''] * len(labels_1))
-
-        labels_2[np.array(axes[1])] = labels
-        einsum_label = ','.join([''.join(labels_1), ''.join(labels_2)])
-        return np.array(np.einsum(einsum_label, a, b, optimize=True))
+        a = np.transpose(a, axes[0])
+        b = np.transpose(b, axes[1])
+        if a.shape != b.shape:
+          raise ValueError("shape-mismatch for sum")
+        labels = list(range(a.ndim))
+        return np.array(np.einsum(a, labels, b, labels, [], optimize=True))
       return np.tensordot(a, b, axes)
     return np.tensordot(a, b, axes)
 
-- 
2.43.0


From 1031854fbc85b6e6d1143c9137d2025127103a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:16 +0000
Subject: [PATCH 20/90] fix: numpy sum accepts the default axis=None

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index a2c0aac..375a4aa 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -597,7 +597,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    axis = None if axis is None else tuple(axis)
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From b8ef4d94efda634290788b869917f2abb43465ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 21/90] fix: tensorflow diagflat flattens its input

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..446aa89 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -312,7 +312,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From f9fccefd4377f0bc10a86f25ebe0aaa46d95983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 22/90] fix: tensorflow item returns a scalar for every
 one-element tensor

---
 .../backends/tensorflow/tensorflow_backend.py     | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 446aa89..e09f930 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -386,16 +386,11 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     return tf.math.sign(tensor)
 
   def item(self, tensor):
-    numel = 0
-    if len(tensor.shape) > 0:
-      numel = fct.reduce(op.mul, tensor.shape)
-      if numel != 1:
-        raise ValueError(f"expected tensor with one element, "
-                         f"got {tensor.shape}")
-
-    if numel == 1:
-      return tensor[0]
-    return tensor
+    numel = fct.reduce(op.mul, tensor.shape, 1)
+    if numel != 1:
+      raise ValueError(f"expected tensor with one element, "
+                       f"got {tensor.shape}")
+    return tf.reshape(tensor, [])
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
     """
-- 
2.43.0


From 6510374980d30b62840caffdd9842e57ace7ebe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:35 +0000
Subject: [PATCH 23/90] fix: jax index_update works without the removed jax.ops
 module

---
 tensornetwork/backends/jax/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..f54283a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -725,7 +725,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.asarray(tensor).at[mask].set(assignee)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
-- 
2.43.0


From 592d884d2c910e64216b0799f833c7a94e043aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 24/90] fix: jitted jax routines run without the removed
 jax.ops and jax.ShapedArray

---
 .../backends/jax/jitted_functions.py          | 164 +++++++++---------
 1 file changed, 81 insertions(+), 83 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 63adb84..af2bf10 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -24,11 +24,11 @@ def _iterative_classical_gram_schmidt(jax: types.ModuleType) -> Callable:
 
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def iterative_classical_gram_schmidt(
-      vector: jax.ShapedArray,
-      krylov_vectors: jax.ShapedArray,
+      vector: jax.Array,
+      krylov_vectors: jax.Array,
       precision: JaxPrecisionType,
       iterations: int = 2,
-      ) -> jax.ShapedArray:
+      ) -> jax.Array:
     """
     Orthogonalize `vector`  to all rows of `krylov_vectors`.
 
@@ -39,7 +39,7 @@ def _iterative_classical_gram_schmidt(jax: types.ModuleType) -> Callable:
       iterations: Number of iterations.
 
     Returns:
-      jax.ShapedArray: The orthogonalized vector.
+      jax.Array: The orthogonalized vector.
     """
     i1 = list(range(1, len(krylov_vectors.shape)))
     i2 = list(range(len(vector.shape)))
@@ -92,9 +92,9 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7))
-  def jax_lanczos(matvec: Callable, arguments: List, init: jax.ShapedArray,
+  def jax_lanczos(matvec: Callable, arguments: List, init: jax.Array,
                   ncv: int, neig: int, landelta: float, reortho: bool,
-                  precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, List]:
+                  precision: JaxPrecisionType) -> Tuple[jax.Array, List]:
     """
     Lanczos iteration for symmeric eigenvalue problems. If reortho = False,
     the Krylov basis is constructed without explicit re-orthogonalization. 
@@ -117,7 +117,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision type used in jax.numpy.vdot
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.Array: Eigenvalues
       List: Eigenvectors
       int: Number of iterations
     """
@@ -219,8 +219,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
       krv, unitary, vectors = vals
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      vectors = jax.ops.index_add(vectors, jax.ops.index[n, :],
-                                  krv[m + 1] * unitary[m, n])
+      vectors = vectors.at[n, :].add(krv[m + 1] * unitary[m, n])
       return [krv, unitary, vectors]
 
     _vectors = jax.numpy.zeros((neig,) + shape, dtype=dtype)
@@ -247,8 +246,8 @@ def _generate_lanczos_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(6, 7, 8, 9))
   def _lanczos_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, alphas: jax.ShapedArray, betas: jax.ShapedArray,
+      matvec: Callable, args: List, v0: jax.Array,
+      Vm: jax.Array, alphas: jax.Array, betas: jax.Array,
       start: int, num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
   ):
     """
@@ -288,13 +287,13 @@ def _generate_lanczos_factorization(jax: types.ModuleType) -> Callable:
         krylov-vector falls below `tol`.
 
     Returns:
-      jax.ShapedArray: An array of shape 
+      jax.Array: An array of shape 
         `(num_krylov_vecs, np.prod(initial_state.shape))` of krylov vectors.
-      jax.ShapedArray: The diagonal elements of the tridiagonal reduced
+      jax.Array: The diagonal elements of the tridiagonal reduced
         operator ("alphas")
-      jax.ShapedArray: The lower-diagonal elements of the tridiagonal reduced
+      jax.Array: The lower-diagonal elements of the tridiagonal reduced
         operator ("betas")
-      jax.ShapedArray: The unnormalized residual of the Lanczos process.
+      jax.Array: The unnormalized residual of the Lanczos process.
       float: The norm of the residual.
       int: The number of performed iterations.
       bool: if `True`: iteration hit an invariant subspace.
@@ -402,10 +401,10 @@ def _generate_arnoldi_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(5, 6, 7, 8))
   def _arnoldi_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, H: jax.ShapedArray, start: int,
+      matvec: Callable, args: List, v0: jax.Array,
+      Vm: jax.Array, H: jax.Array, start: int,
       num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray, float, int,
+  ) -> Tuple[jax.Array, jax.Array, jax.Array, float, int,
              bool]:
     """
     Compute an m-step arnoldi factorization of `matvec`, with
@@ -441,11 +440,11 @@ def _generate_arnoldi_factorization(jax: types.ModuleType) -> Callable:
       tol: Convergence parameter. Iteration is terminated if the norm of a
         krylov-vector falls below `tol`.
     Returns:
-      jax.ShapedArray: An array of shape 
+      jax.Array: An array of shape 
         `(num_krylov_vecs, np.prod(initial_state.shape))` of krylov vectors.
-      jax.ShapedArray: Upper Hessenberg matrix of shape 
+      jax.Array: Upper Hessenberg matrix of shape 
         `(num_krylov_vecs, num_krylov_vecs`) of the Arnoldi processs.
-      jax.ShapedArray: The unnormalized residual of the Arnoldi process.
+      jax.Array: The unnormalized residual of the Arnoldi process.
       int: The norm of the residual.
       int: The number of performed iterations.
       bool: if `True`: iteration hit an invariant subspace.
@@ -541,8 +540,8 @@ def _LR_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
-    inds = jax.numpy.argsort(jax.numpy.real(evals), kind='stable')[::-1]
+      evals: jax.Array) -> Tuple[jax.Array, jax.Array]:
+    inds = jax.numpy.argsort(jax.numpy.real(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -551,8 +550,8 @@ def _SA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
-    inds = jax.numpy.argsort(evals, kind='stable')
+      evals: jax.Array) -> Tuple[jax.Array, jax.Array]:
+    inds = jax.numpy.argsort(evals)
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -561,8 +560,8 @@ def _LA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
-    inds = jax.numpy.argsort(evals, kind='stable')[::-1]
+      evals: jax.Array) -> Tuple[jax.Array, jax.Array]:
+    inds = jax.numpy.argsort(evals)[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -571,8 +570,8 @@ def _LM_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
-    inds = jax.numpy.argsort(jax.numpy.abs(evals), kind='stable')[::-1]
+      evals: jax.Array) -> Tuple[jax.Array, jax.Array]:
+    inds = jax.numpy.argsort(jax.numpy.abs(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -583,9 +582,9 @@ def _LM_sort(jax):
 def _shifted_QR(jax):
   @functools.partial(jax.jit, static_argnums=(4,))
   def shifted_QR(
-      Vm: jax.ShapedArray, Hm: jax.ShapedArray, fm: jax.ShapedArray,
-      shifts: jax.ShapedArray,
-      numeig: int) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+      Vm: jax.Array, Hm: jax.Array, fm: jax.Array,
+      shifts: jax.Array,
+      numeig: int) -> Tuple[jax.Array, jax.Array, jax.Array]:
     # compress arnoldi factorization
     q = jax.numpy.zeros(Hm.shape[0], dtype=Hm.dtype)
     q = q.at[-1].set(1.0)
@@ -607,14 +606,13 @@ def _shifted_QR(jax):
 
 def _get_vectors(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def get_vectors(Vm: jax.ShapedArray, unitary: jax.ShapedArray,
-                  inds: jax.ShapedArray, numeig: int) -> jax.ShapedArray:
+  def get_vectors(Vm: jax.Array, unitary: jax.Array,
+                  inds: jax.Array, numeig: int) -> jax.Array:
 
     def body_vector(i, states):
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      states = jax.ops.index_add(states, jax.ops.index[n, :],
-                                 Vm[m, :] * unitary[m, inds[n]])
+      states = states.at[n, :].add(Vm[m, :] * unitary[m, inds[n]])
       return states
 
     state_vectors = jax.numpy.zeros([numeig, Vm.shape[1]], dtype=Vm.dtype)
@@ -628,7 +626,7 @@ def _get_vectors(jax):
 
 def _check_eigvals_convergence_eigh(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: jax.Array,
                                 Hm_norm: float,
                                 tol: float) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eigh(Hm)
@@ -643,7 +641,7 @@ def _check_eigvals_convergence_eigh(jax):
 
 def _check_eigvals_convergence_eig(jax):
   @functools.partial(jax.jit, static_argnums=(2, 3))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: jax.Array,
                                 tol: float, numeig: int) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eig(Hm)
     # TODO (mganahl) confirm that this is a valid matrix norm)
@@ -698,10 +696,10 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_arnoldi_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: jax.Array,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[jax.Array, List[jax.Array], int]:
     """
     Implicitly restarted arnoldi factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -733,7 +731,7 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision used within lax operations.
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.Array: Eigenvalues
       List: Eigenvectors
       int: Number of inner krylov iterations of the last arnoldi
         factorization.
@@ -916,10 +914,10 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_lanczos_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: jax.Array,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[jax.Array, List[jax.Array], int]:
     """
     Implicitly restarted lanczos factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -955,7 +953,7 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
       precision: jax.lax.Precision used within lax operations.
 
     Returns:
-      jax.ShapedArray: Eigenvalues
+      jax.Array: Eigenvalues
       List: Eigenvectors
       int: Number of inner krylov iterations of the last lanczos
         factorization.
@@ -1110,9 +1108,9 @@ def gmres_wrapper(jax: types.ModuleType):
   jnp = jax.numpy
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def gmres_m(
-      A_mv: Callable, A_args: Sequence, b: jax.ShapedArray, x0: jax.ShapedArray,
+      A_mv: Callable, A_args: Sequence, b: jax.Array, x0: jax.Array,
       tol: float, atol: float, num_krylov_vectors: int, maxiter: int,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, float, int, bool]:
+      precision: JaxPrecisionType) -> Tuple[jax.Array, float, int, bool]:
     """
     Solve A x = b for x using the m-restarted GMRES method. This is
     intended to be called via jax_backend.gmres.
@@ -1152,10 +1150,10 @@ def gmres_wrapper(jax: types.ModuleType):
         break
     return x, beta, n_iter, done
 
-  def gmres(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-            x: jax.ShapedArray, num_krylov_vectors: int, x0: jax.ShapedArray,
+  def gmres(A_mv: Callable, A_args: Sequence, b: jax.Array,
+            x: jax.Array, num_krylov_vectors: int, x0: jax.Array,
             tol: float, b_norm: float,
-            precision: JaxPrecisionType) -> Tuple[bool, float, jax.ShapedArray]:
+            precision: JaxPrecisionType) -> Tuple[bool, float, jax.Array]:
     """
     A single restart of GMRES.
 
@@ -1180,8 +1178,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return done, beta, x
 
   @jax.jit
-  def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-                     x: jax.ShapedArray) -> Tuple[jax.ShapedArray, float]:
+  def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.Array,
+                     x: jax.Array) -> Tuple[jax.Array, float]:
     """
     Computes the residual vector r and its norm, beta, which is minimized by
     GMRES.
@@ -1200,9 +1198,9 @@ def gmres_wrapper(jax: types.ModuleType):
     beta = jnp.linalg.norm(r)
     return r, beta
 
-  def gmres_update(k: int, V: jax.ShapedArray, R: jax.ShapedArray,
-                   beta_vec: jax.ShapedArray,
-                   x0: jax.ShapedArray) -> jax.ShapedArray:
+  def gmres_update(k: int, V: jax.Array, R: jax.Array,
+                   beta_vec: jax.Array,
+                   x0: jax.Array) -> jax.Array:
     """
     Updates the solution in response to the information computed by the
     main GMRES loop.
@@ -1223,10 +1221,10 @@ def gmres_wrapper(jax: types.ModuleType):
 
   @functools.partial(jax.jit, static_argnums=(2, 8))
   def gmres_krylov(
-      A_mv: Callable, A_args: Sequence, n_kry: int, x0: jax.ShapedArray,
-      r: jax.ShapedArray, beta: float, tol: float, b_norm: float,
+      A_mv: Callable, A_args: Sequence, n_kry: int, x0: jax.Array,
+      r: jax.Array, beta: float, tol: float, b_norm: float,
       precision: JaxPrecisionType
-  ) -> Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+  ) -> Tuple[int, jax.Array, jax.Array, jax.Array]:
     """
     Builds the Arnoldi decomposition of (A, v), where v is the normalized
     residual of the current solution estimate. The decomposition is
@@ -1261,9 +1259,9 @@ def gmres_wrapper(jax: types.ModuleType):
     # sine: givens[1, :]
     givens = jnp.zeros((2, n_kry), dtype=x0.dtype)
     beta_vec = jnp.zeros((n_kry + 1), dtype=x0.dtype)
-    beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[0], beta)
+    beta_vec = beta_vec.at[0].set(beta)
     V = jnp.zeros((n, n_kry + 1), dtype=x0.dtype)
-    V = jax.ops.index_update(V, jax.ops.index[:, 0], v)
+    V = V.at[:, 0].set(v)
     R = jnp.zeros((n_kry + 1, n_kry), dtype=x0.dtype)
 
     # The variable data for the carry call. Each iteration modifies these
@@ -1293,12 +1291,12 @@ def gmres_wrapper(jax: types.ModuleType):
 
       V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
-      R = jax.ops.index_update(R, jax.ops.index[:, k], R_col[:])
+      R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
       cs, sn = givens[:, k] * beta_vec[k]
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k], cs)
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k + 1], sn)
+      beta_vec = beta_vec.at[k].set(cs)
+      beta_vec = beta_vec.at[k + 1].set(sn)
       err = jnp.abs(sn) / b_norm
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
@@ -1342,17 +1340,17 @@ def gmres_wrapper(jax: types.ModuleType):
     k, V, R, beta_vec, err, givens = gmres_variables
     return (k, V, R, beta_vec)
 
-  VarType = Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray,
-                  float, jax.ShapedArray]
-  ConstType = Tuple[float, Callable, Sequence, jax.ShapedArray, int]
+  VarType = Tuple[int, jax.Array, jax.Array, jax.Array,
+                  float, jax.Array]
+  ConstType = Tuple[float, Callable, Sequence, jax.Array, int]
   GmresCarryType = Tuple[VarType, ConstType]
 
 
   @functools.partial(jax.jit, static_argnums=(6,))
   def kth_arnoldi_step(
-      k: int, A_mv: Callable, A_args: Sequence, V: jax.ShapedArray,
-      H: jax.ShapedArray, tol: float,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      k: int, A_mv: Callable, A_args: Sequence, V: jax.Array,
+      H: jax.Array, tol: float,
+      precision: JaxPrecisionType) -> Tuple[jax.Array, jax.Array]:
     """
     Performs the kth iteration of the Arnoldi reduction procedure.
     Args:
@@ -1368,8 +1366,8 @@ def gmres_wrapper(jax: types.ModuleType):
     """
 
     def _gs_step(
-        r: jax.ShapedArray,
-        v_i: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+        r: jax.Array,
+        v_i: jax.Array) -> Tuple[jax.Array, jax.Array]:
       """
       Performs one iteration of the stabilized Gram-Schmidt procedure, with
       r to be orthonormalized against {v} = {v_0, v_1, ...}.
@@ -1395,17 +1393,17 @@ def gmres_wrapper(jax: types.ModuleType):
                          lambda x: 0.*x[0],
                          (v_new, v_norm)
                          )
-    H = jax.ops.index_update(H, jax.ops.index[:, k], H_k)
-    H = jax.ops.index_update(H, jax.ops.index[k+1, k], v_norm)
-    V = jax.ops.index_update(V, jax.ops.index[:, k+1], r_new)
+    H = H.at[:, k].set(H_k)
+    H = H.at[k+1, k].set(v_norm)
+    V = V.at[:, k+1].set(r_new)
     return V, H
 
 ####################################################################
 # GIVENS ROTATIONS
 ####################################################################
   @jax.jit
-  def apply_rotations(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                      k: int) -> jax.ShapedArray:
+  def apply_rotations(H_col: jax.Array, givens: jax.Array,
+                      k: int) -> jax.Array:
     """
     Successively applies each of the rotations stored in givens to H_col.
 
@@ -1429,8 +1427,8 @@ def gmres_wrapper(jax: types.ModuleType):
       sn = givens[1, i]
       H_i = cs * H_col[i] - sn * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i], H_i)
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i + 1], H_ip1)
+      H_col = H_col.at[i].set(H_i)
+      H_col = H_col.at[i + 1].set(H_ip1)
       return (H_col, i + 1, k, givens)
 
     rotation_carry = jax.lax.while_loop(loop_condition,
@@ -1440,8 +1438,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return H_col
 
   @jax.jit
-  def apply_givens_rotation(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                            k: int) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+  def apply_givens_rotation(H_col: jax.Array, givens: jax.Array,
+                            k: int) -> Tuple[jax.Array, jax.Array]:
     """
     Applies the Givens rotations stored in the vectors cs and sn to the vector
     H_col. Then constructs a new Givens rotation that eliminates H_col's
@@ -1465,12 +1463,12 @@ def gmres_wrapper(jax: types.ModuleType):
     H_col = apply_rotations(H_col, givens, k)
 
     cs_k, sn_k = givens_rotation(H_col[k], H_col[k + 1])
-    givens = jax.ops.index_update(givens, jax.ops.index[0, k], cs_k)
-    givens = jax.ops.index_update(givens, jax.ops.index[1, k], sn_k)
+    givens = givens.at[0, k].set(cs_k)
+    givens = givens.at[1, k].set(sn_k)
 
     r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
-    R_col = jax.ops.index_update(H_col, jax.ops.index[k], r_k)
-    R_col = jax.ops.index_update(R_col, jax.ops.index[k + 1], 0.)
+    R_col = H_col.at[k].set(r_k)
+    R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
 
   @jax.jit
-- 
2.43.0


From 3dd09f8821f60a64c91d520beafaf7e772563af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:24 +0000
Subject: [PATCH 25/90] fix: ones_like and zeros_like work for arrays, default
 backends and a given dtype

---
 tensornetwork/linalg/initialization.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..a416310 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,11 +116,12 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None
+                                   else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -128,7 +129,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,11 +145,12 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend,
+                                   dtype=tensor.dtype if dtype is None
+                                   else dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
-- 
2.43.0


From 294190d3b6f201608a8ed1a8e31cc8e1e8ce6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 26/90] fix: node initialization works with the default backend

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 7840877146654fec3a969b24b3849f9619a8e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 27/90] fix: kron rejects tensors of different backends

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From f3c5619597f861ce0078c7acb2346ab7d04304f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:50 +0000
Subject: [PATCH 28/90] fix: jit combines backend_argnum with an integer
 static_argnums

---
 tensornetwork/backends/decorators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f5dc677..f56d31d 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -60,6 +60,8 @@ def jit(fun: Callable,
     if backend is not None:
       raise ValueError("backend must be None if backend_argnum is specified.")
     argnum_mode = True
+    if isinstance(static_argnums, int):
+      static_argnums = (static_argnums,)
     static_argnums = tuple(list(static_argnums) + [backend_argnum,])
 
   if not argnum_mode:
-- 
2.43.0


From 8ebe4847d834a7eb1c417adeb9d3c419b6f5c375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 29/90] fix: transpose of a node honours the requested axis
 names

---
 tensornetwork/linalg/node_linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 3a3527a..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -285,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From b6601e58c6dfde7b2299d5fd5eff0d5508a275e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 30/90] fix: the size of a scalar Tensor is an integer

---
 tensornetwork/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..806a173 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,7 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.size = np.prod(self.shape, dtype=int)
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From c540701426ea1761d2a32457bcf17860b8091518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 31/90] fix: jit passes static arguments to the right
 parameters

---
 tensornetwork/backends/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f56d31d..7c954f4 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -62,7 +62,7 @@ def jit(fun: Callable,
     argnum_mode = True
     if isinstance(static_argnums, int):
       static_argnums = (static_argnums,)
-    static_argnums = tuple(list(static_argnums) + [backend_argnum,])
+    static_argnums = tuple(sorted([*static_argnums, backend_argnum]))
 
   if not argnum_mode:
     if backend is None:
-- 
2.43.0


From d519fd28ef0ea7f1b92bf8da2ccc92bb791bee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:25 +0000
Subject: [PATCH 32/90] fix: jax gmres restarts from the last iterate and
 reports true convergence

---
 tensornetwork/backends/jax/jax_backend.py      |  9 ++++++---
 tensornetwork/backends/jax/jitted_functions.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index f54283a..fe745f2 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -684,18 +684,21 @@ class JaxBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError("A_kwargs is not supported by the Jax backend.")
 
 
-    if A_mv not in _CACHED_MATVECS:
+    # `matrix_matvec` depends on the shape of `b`, and differs from
+    # the functions cached by the eigensolvers.
+    key = ("gmres", A_mv, b.shape)
+    if key not in _CACHED_MATVECS:
       @libjax.tree_util.Partial
       def matrix_matvec(x, *args):
         x = x.reshape(b.shape)
         result = A_mv(x, *args)
         return result.ravel()
-      _CACHED_MATVECS[A_mv] = matrix_matvec
+      _CACHED_MATVECS[key] = matrix_matvec
 
     if "gmres" not in _CACHED_FUNCTIONS:
       _CACHED_FUNCTIONS["gmres"] = jitted_functions.gmres_wrapper(libjax)
     gmres_m = _CACHED_FUNCTIONS["gmres"].gmres_m
-    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[A_mv], A_args, b.ravel(),
+    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[key], A_args, b.ravel(),
                                       x0, tol, atol, num_krylov_vectors,
                                       maxiter, self.jax_precision)
     if converged:
diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index af2bf10..c15d263 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1143,7 +1143,7 @@ def gmres_wrapper(jax: types.ModuleType):
     x = x0
     b_norm = jnp.linalg.norm(b)
     tol = max(tol * b_norm, atol)
-    for n_iter in range(maxiter):
+    for n_iter in range(1, maxiter + 1):
       done, beta, x = gmres(A_mv, A_args, b, x, num_krylov_vectors, x0, tol,
                             b_norm, precision)
       if done:
@@ -1173,8 +1173,9 @@ def gmres_wrapper(jax: types.ModuleType):
     r, beta = gmres_residual(A_mv, A_args, b, x)
     k, V, R, beta_vec = gmres_krylov(A_mv, A_args, num_krylov_vectors,
                                      x0, r, beta, tol, b_norm, precision)
-    x = gmres_update(k, V, R, beta_vec, x0)
-    done = k < num_krylov_vectors - 1
+    x = gmres_update(k, V, R, beta_vec, x)
+    _, beta = gmres_residual(A_mv, A_args, b, x)
+    done = beta <= tol
     return done, beta, x
 
   @jax.jit
@@ -1297,7 +1298,7 @@ def gmres_wrapper(jax: types.ModuleType):
       cs, sn = givens[:, k] * beta_vec[k]
       beta_vec = beta_vec.at[k].set(cs)
       beta_vec = beta_vec.at[k + 1].set(sn)
-      err = jnp.abs(sn) / b_norm
+      err = jnp.abs(sn)
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
 
@@ -1316,7 +1317,7 @@ def gmres_wrapper(jax: types.ModuleType):
       Returns:
         (bool): Whether to continue iterating.
       """
-      gmres_constants, gmres_variables = gmres_carry
+      gmres_variables, gmres_constants = gmres_carry
       tol = gmres_constants[0]
       k = gmres_variables[0]
       err = gmres_variables[4]
-- 
2.43.0


From efe3bb348d9ac988cb37684f88ea0817503bc0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 33/90] fix: numpy eigsh_lanczos leaves the initial state and
 the operator's arrays alone

---
 tensornetwork/backends/numpy/numpy_backend.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 375a4aa..10353e2 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -474,7 +474,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
 
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -507,10 +507,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
-- 
2.43.0


From 302647e9bfe06181ebcc64a4233f5ff531207791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 34/90] fix: tn.linalg.krylov.gmres works with its default
 num_krylov_vectors

---
 tensornetwork/backends/abstract_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/abstract_backend.py b/tensornetwork/backends/abstract_backend.py
index b9f3993..8d1ba87 100644
--- a/tensornetwork/backends/abstract_backend.py
+++ b/tensornetwork/backends/abstract_backend.py
@@ -591,7 +591,7 @@ class AbstractBackend:
 
       x0 = self.reshape(x0, (N,))
 
-    if num_krylov_vectors > N:
+    if num_krylov_vectors is None or num_krylov_vectors > N:
       num_krylov_vectors = N
 
     if tol < 0:
-- 
2.43.0


From e7d3a6d411cc42cc86ed9342dcecf7959308ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 35/90] fix: jax eigs accepts real operators with maxiter=1

---
 .../backends/jax/jitted_functions.py          | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index c15d263..04d2fd5 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -775,22 +775,21 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
       raise ValueError(f"which = {which} not implemented")
 
     it = 1  # we already did one arnoldi factorization
-    if maxiter > 1:
-      # cast arrays to correct complex dtype
-      if Vm.dtype == np.float64:
-        dtype = np.complex128
-      elif Vm.dtype == np.float32:
-        dtype = np.complex64
-      elif Vm.dtype == np.complex128:
-        dtype = Vm.dtype
-      elif Vm.dtype == np.complex64:
-        dtype = Vm.dtype
-      else:
-        raise TypeError(f'dtype {Vm.dtype} not supported')
-
-      Vm = Vm.astype(dtype)
-      Hm = Hm.astype(dtype)
-      fm = fm.astype(dtype)
+    # cast arrays to correct complex dtype
+    if Vm.dtype == np.float64:
+      dtype = np.complex128
+    elif Vm.dtype == np.float32:
+      dtype = np.complex64
+    elif Vm.dtype == np.complex128:
+      dtype = Vm.dtype
+    elif Vm.dtype == np.complex64:
+      dtype = Vm.dtype
+    else:
+      raise TypeError(f'dtype {Vm.dtype} not supported')
+
+    Vm = Vm.astype(dtype)
+    Hm = Hm.astype(dtype)
+    fm = fm.astype(dtype)
 
     def outer_loop(carry):
       Hm, Vm, fm, it, numits, ar_converged, _, _, = carry
-- 
2.43.0


From 4839b98d7761255e3643e9e4a529ad809391a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 36/90] fix: numpy gmres leaves the arrays returned by the
 operator alone

---
 tensornetwork/backends/numpy/numpy_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 10353e2..de7bf9c 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -385,7 +385,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     def matvec(v):
       v_tensor = v.reshape(b.shape)
       Av = A_mv(v_tensor, *A_args, **A_kwargs)
-      Avec = Av.ravel()
+      Avec = Av.flatten()  # a copy: scipy overwrites it
       return Avec
 
     A_shape = (b.size, b.size)
-- 
2.43.0


From d0b868424a060aa29a2d5940dab04798c0122309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:03 +0000
Subject: [PATCH 37/90] fix: jax eigsh_lanczos drops the spurious Krylov vector
 of an exhausted Krylov space

---
 .../backends/jax/jitted_functions.py          | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 04d2fd5..5f0e6b8 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -198,15 +198,21 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
     initvals = [krylov_vecs, alphas, betas, 1]
     krylov_vecs, alphas, betas, numits = jax.lax.while_loop(
         cond_fun, body_lanczos, initvals)
-    # FIXME (mganahl): if the while_loop stopps early at iteration i, alphas
-    # and betas are 0.0 at positions n >= i - 1. eigh will then wrongly give
-    # degenerate eigenvalues 0.0. JAX does currently not support
-    # dynamic slicing with variable slice sizes, so these beta values
-    # can't be truncated. Thus, if numeig >= i - 1, jitted_lanczos returns
-    # a set of spurious eigen vectors and eigen values.
-    # If algebraically small EVs are desired, one can initialize `alphas` with
-    # large positive values, thus pushing the spurious eigenvalues further
-    # away from the desired ones (similar for algebraically large EVs)
+    # If the while_loop stops early, the last computed krylov vector is numerical
+    # noise, and alphas and betas are 0.0 at all later positions. JAX does
+    # currently not support dynamic slicing with variable slice sizes, so these
+    # values can't be truncated. They are decoupled from the krylov space, and
+    # their spurious eigenvalues are pushed above the valid ones.
+    # FIXME (mganahl): if neig > numits, jitted_lanczos returns a set of
+    # spurious eigen vectors and eigen values.
+    numits = numits - 1
+    numits = jax.numpy.where(betas[numits] > landelta, numits, numits - 1)
+    valid = jax.numpy.arange(ncv) < numits
+    alphas = jax.numpy.where(valid, alphas, 0.0)
+    betas = betas.at[2:].set(jax.numpy.where(valid[1:], betas[2:], 0.0))
+    bound = 1.0 + 2.0 * jax.numpy.max(jax.numpy.abs(alphas)) + 2.0 * (
+        jax.numpy.sum(jax.numpy.abs(betas[2:])))
+    alphas = jax.numpy.where(valid, alphas, bound).astype(dtype)
 
     #FIXME: replace with eigh_banded once JAX supports it
     A_tridiag = jax.numpy.diag(alphas) + jax.numpy.diag(
-- 
2.43.0


From 1a0f4ce1158978f39ebdb5af06dd024f5426a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 38/90] fix: jax gmres does not cut the Krylov space at the
 residual tolerance

---
 tensornetwork/backends/jax/jitted_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 5f0e6b8..b3388fa 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1293,9 +1293,10 @@ def gmres_wrapper(jax: types.ModuleType):
       """
       gmres_variables, gmres_constants = gmres_carry
       k, V, R, beta_vec, err, givens = gmres_variables
-      tol, A_mv, A_args, b_norm, _ = gmres_constants
+      _, A_mv, A_args, b_norm, _ = gmres_constants
 
-      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
+      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, jnp.finfo(V.dtype).eps,
+                              precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
       R = R.at[:, k].set(R_col[:])
 
-- 
2.43.0


From 97f3c814f88aab39248bca9366556a5dbc950f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 39/90] fix: jax gmres rotates complex vectors unitarily

---
 .../backends/jax/jitted_functions.py          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index b3388fa..bc8eb06 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1295,14 +1295,16 @@ def gmres_wrapper(jax: types.ModuleType):
       k, V, R, beta_vec, err, givens = gmres_variables
       _, A_mv, A_args, b_norm, _ = gmres_constants
 
-      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, jnp.finfo(V.dtype).eps,
+      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, 10*jnp.finfo(V.dtype).eps,
                               precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
       R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
-      cs, sn = givens[:, k] * beta_vec[k]
-      beta_vec = beta_vec.at[k].set(cs)
+      cs, sn = givens[:, k]
+      beta_k = beta_vec[k]
+      beta_vec = beta_vec.at[k].set(jnp.conj(cs) * beta_k)
+      sn = sn * beta_k
       beta_vec = beta_vec.at[k + 1].set(sn)
       err = jnp.abs(sn)
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
@@ -1432,7 +1434,7 @@ def gmres_wrapper(jax: types.ModuleType):
       H_col, i, k, givens = carry
       cs = givens[0, i]
       sn = givens[1, i]
-      H_i = cs * H_col[i] - sn * H_col[i + 1]
+      H_i = jnp.conj(cs) * H_col[i] - jnp.conj(sn) * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
       H_col = H_col.at[i].set(H_i)
       H_col = H_col.at[i + 1].set(H_ip1)
@@ -1473,7 +1475,7 @@ def gmres_wrapper(jax: types.ModuleType):
     givens = givens.at[0, k].set(cs_k)
     givens = givens.at[1, k].set(sn_k)
 
-    r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
+    r_k = jnp.conj(cs_k) * H_col[k] - jnp.conj(sn_k) * H_col[k + 1]
     R_col = H_col.at[k].set(r_k)
     R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
@@ -1482,14 +1484,15 @@ def gmres_wrapper(jax: types.ModuleType):
   def givens_rotation(v1: float, v2: float) -> Tuple[float, float]:
     """
     Given scalars v1 and v2, computes cs = cos(theta) and sn = sin(theta)
-    so that   [cs  -sn]  @ [v1] = [r]
-              [sn   cs]    [v2]   [0]
+    so that   [cs* -sn*] @ [v1] = [r]
+              [sn   cs ]   [v2]   [0]
+    is a unitary rotation.
     Args:
       v1, v2: The scalars.
     Returns:
       cs, sn: The rotation factors.
     """
-    t = jnp.sqrt(v1**2 + v2**2)
+    t = jnp.sqrt(jnp.abs(v1)**2 + jnp.abs(v2)**2)
     cs = v1 / t
     sn = -v2 / t
     return cs, sn
-- 
2.43.0


From 8d845980972f3e1fb0d3871fa558ce5a27860e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 40/90] fix: jax eigs and eigsh do not select the zeros of an
 exhausted Krylov space

---
 tensornetwork/backends/jax/jitted_functions.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index bc8eb06..ec6f605 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -867,6 +867,12 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
 
     Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
         numits > jax.numpy.arange(num_krylov_vecs))[None, :]
+    if which == 'LR':
+      # zeros could otherwise be selected instead of valid eigenvalues
+      spurious = -1.0 - jax.numpy.linalg.norm(Hm)
+      Hm = Hm + jax.numpy.diag(
+          jax.numpy.where(numits > jax.numpy.arange(num_krylov_vecs), 0.0,
+                          spurious)).astype(Hm.dtype)
     eigvals, U = jax.numpy.linalg.eig(Hm)
     inds = sort_fun(eigvals)[1][:numeig]
     vectors = get_vectors(Vm, U, inds, numeig)
@@ -1074,6 +1080,13 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
     # and numeig > numits, then spurious 0.0 eigenvalues will be returned
     Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
         numits > jax.numpy.arange(num_krylov_vecs))[None, :]
+    if which in ('SA', 'LA'):
+      # zeros could otherwise be selected instead of valid eigenvalues
+      spurious = 1.0 + jax.numpy.linalg.norm(Hm)
+      spurious = spurious if which == 'SA' else -spurious
+      Hm = Hm + jax.numpy.diag(
+          jax.numpy.where(numits > jax.numpy.arange(num_krylov_vecs), 0.0,
+                          spurious)).astype(Hm.dtype)
 
     eigvals, U = jax.numpy.linalg.eigh(Hm)
     inds = sort_fun(eigvals)[1][:numeig]
-- 
2.43.0


From 0d08349cef3fae6e49368a35fa839da53bb06f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 41/90] fix: unique charges of legs of dimension one keep their
 label array

---
 tensornetwork/block_sparse/utils.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..69ceb79 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -201,11 +201,10 @@ def collapse(array: np.ndarray) -> np.ndarray:
     else:
       width = 8 - array.shape[1]
 
-    tmparray = np.squeeze(
-        np.concatenate(
-            [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
-            axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+    tmparray = np.concatenate(
+        [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
+        axis=1).view(newdtype)
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +225,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return array
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From 972658a9daf5660d8a433334b6a741f221cc5352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 42/90] fix: charges and indices with equal values compare
 equal

---
 tensornetwork/block_sparse/charge.py | 10 +++-------
 tensornetwork/block_sparse/index.py  |  8 ++------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..a058e0d 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -652,13 +652,9 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
 
   res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
+    if np.array_equal(c1._unique_charges, c2._unique_charges):
+      # if the unique charges are ordered differently the labels are too
+      return np.array_equal(c1.charge_labels, c2.charge_labels)
 
   if c1._charges is not None and c2._charges is not None:
     if c1._charges.shape != c2._charges.shape:
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..8144934 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import BaseCharge, charge_equal, fuse_charges
 import copy
 from typing import List, Union
 
@@ -55,11 +55,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From b690f721462949f8f9fadf98bf38b8106d20a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:56 +0000
Subject: [PATCH 43/90] fix: block-sparse outerproduct keeps the dtype of both
 tensors

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..90f4cf6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From 40d411405705219a9f57a7e27e63c28cc96768fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 44/90] fix: block-sparse trace keeps the dtype

---
 tensornetwork/block_sparse/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..d0b79a2 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -634,7 +634,8 @@ def trace(tensor: BlockSparseTensor,
       j = a1.pop(0)
       identity = eye(
           Index([out._charges[out._order[i][0]]],
-                [not out._flows[out._order[i][0]]]))
+                [not out._flows[out._order[i][0]]]),
+          dtype=tensor.dtype)
       #pylint: disable=line-too-long
       out = tensordot(out, identity, ([i, j], [0, 1]))  # pytype: disable=wrong-arg-types
       a0ar = np.asarray(a0)
-- 
2.43.0


From 44b9edad9d79880f2db7f765d043cc1f16eb3fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 45/90] fix: block-sparse trace with fused legs

---
 tensornetwork/block_sparse/linalg.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index d0b79a2..b04dc30 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -621,13 +621,14 @@ def trace(tensor: BlockSparseTensor,
     #flatten the shape of `tensor`
     out = tensor.reshape(
         flatten([[tensor._charges[n].dim for n in o] for o in tensor._order]))
-    _, _, labels0 = np.intersect1d(
-        tensor._order[axes[0]], flatten(out._order), return_indices=True)
-    _, _, labels1 = np.intersect1d(
-        tensor._order[axes[1]], flatten(out._order), return_indices=True)
-
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    # positions of the elementary legs of the two axes within `out`
+    offsets = np.append(0, np.cumsum([len(o) for o in tensor._order]))
+    ax0, ax1 = axes[0] % tensor.ndim, axes[1] % tensor.ndim
+    a0 = list(range(offsets[ax0], offsets[ax0 + 1]))
+    a1 = list(range(offsets[ax1], offsets[ax1 + 1]))
+    free_lengths = [
+        len(o) for n, o in enumerate(tensor._order) if n not in (ax0, ax1)
+    ]
 
     while len(a0) > 0:
       i = a0.pop(0)
@@ -654,7 +655,18 @@ def trace(tensor: BlockSparseTensor,
       a1 = list(a1ar)
     if out.ndim == 0:
       return out.item()
-    return out  # pytype: disable=bad-return-type
+    # fuse the remaining legs as they were in `tensor`
+    flat_order = out.flat_order
+    offsets = np.append(0, np.cumsum(free_lengths))
+    return BlockSparseTensor(
+        data=out.data,
+        charges=out._charges,
+        flows=out._flows,
+        order=[
+            list(flat_order[offsets[n]:offsets[n + 1]])
+            for n in range(len(free_lengths))
+        ],
+        check_consistency=False)  # pytype: disable=bad-return-type
   raise ValueError("trace can only be taken for tensors with ndim > 1")
 
 
-- 
2.43.0


From aa99c33aff7a3edfecadf7b168ab1c868a2a9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:51 +0000
Subject: [PATCH 46/90] fix: outer product of two block-sparse scalars

---
 tensornetwork/block_sparse/blocksparsetensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 90f4cf6..75151e2 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -898,6 +898,15 @@ def outerproduct(tensor1: BlockSparseTensor,
     BlockSparseTensor: The result of taking the outer product.
   """
 
+  if tensor1.ndim == 0 and tensor2.ndim == 0:
+    # the product of two scalars has no charges
+    return BlockSparseTensor(
+        data=tensor1.data * tensor2.data,
+        charges=[],
+        flows=[],
+        order=[],
+        check_consistency=False)
+
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
-- 
2.43.0


From 31c128ca63e7dd10e1c312bba50d334183f2b325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 47/90] fix: trace of block-sparse tensors with empty legs

---
 tensornetwork/block_sparse/linalg.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index b04dc30..e7c49e0 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -17,7 +17,7 @@ from tensornetwork.block_sparse.index import Index
 from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
                                                           ChargeArray,
                                                           tensordot)
-from tensornetwork.block_sparse.utils import (intersect, flatten,
+from tensornetwork.block_sparse.utils import (intersect,
                                               get_real_dtype, _randn, _random)
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks, _find_diagonal_sparse_blocks,
@@ -619,8 +619,12 @@ def trace(tensor: BlockSparseTensor,
       raise ValueError(f"trace indices for axes {axes} are not matching")
 
     #flatten the shape of `tensor`
-    out = tensor.reshape(
-        flatten([[tensor._charges[n].dim for n in o] for o in tensor._order]))
+    out = BlockSparseTensor(
+        data=tensor.data,
+        charges=tensor._charges,
+        flows=tensor._flows,
+        order=[[n] for n in tensor.flat_order],
+        check_consistency=False)
     # positions of the elementary legs of the two axes within `out`
     offsets = np.append(0, np.cumsum([len(o) for o in tensor._order]))
     ax0, ax1 = axes[0] % tensor.ndim, axes[1] % tensor.ndim
-- 
2.43.0


From 773a2f0c73ea96e4c0e77702b3d9697de4791e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:08 +0000
Subject: [PATCH 48/90] fix: diag of a ChargeArray with a fused leg

---
 tensornetwork/block_sparse/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index e7c49e0..e6459bd 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -79,7 +79,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in tensor._charges + tensor._charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 173455de47d2d098e8508877ac52a84cbce1de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:57 +0000
Subject: [PATCH 49/90] fix: hermitian conjugate of a block-sparse matrix flips
 the flows

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 75151e2..2a9dd3f 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From 4f1fe36cf90b41a8bd8f60eb672be210c33fff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:36 +0000
Subject: [PATCH 50/90] fix: symmetric decompositions keep legs of dimension
 one on their side

---
 .../backends/symmetric/decompositions.py      | 65 ++++++++++++-------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..6355d89 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,7 +14,7 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import Optional, Any, List, Tuple
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
 from tensornetwork.block_sparse.utils import get_real_dtype
@@ -24,6 +24,41 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _regroup(tensor: BlockSparseTensor, group_sizes: List[int]) -> Tensor:
+  """
+  Group the elementary legs of `tensor` (in their current order) into
+  legs consisting of `group_sizes` elementary legs each. In contrast to
+  `reshape` this is unambiguous for legs of dimension one or zero.
+  """
+  flat_order = tensor.flat_order
+  offsets = np.append(0, np.cumsum(group_sizes)).astype(SIZE_T)
+  order = [
+      list(flat_order[offsets[n]:offsets[n + 1]])
+      for n in range(len(group_sizes))
+  ]
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=order,
+      check_consistency=False)
+
+
+def _matricize(tensor: BlockSparseTensor,
+               pivot_axis: int) -> Tuple[Tensor, List[int], List[int]]:
+  """
+  Fuse the legs left and right of `pivot_axis`.
+  Returns:
+    BlockSparseTensor: The matrix.
+    List[int], List[int]: The number of elementary legs of each leg
+      of `tensor` to the left and to the right of `pivot_axis`.
+  """
+  left_sizes = [len(o) for o in tensor._order[:pivot_axis]]
+  right_sizes = [len(o) for o in tensor._order[pivot_axis:]]
+  matrix = _regroup(tensor, [sum(left_sizes), sum(right_sizes)])
+  return matrix, left_sizes, right_sizes
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +71,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix, left_sizes, right_sizes = _matricize(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +243,8 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return (_regroup(U, left_sizes + [1]), S, _regroup(V, [1] + right_sizes),
+          Sdisc)
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,14 +252,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_sizes, right_sizes = _matricize(tensor, pivot_axis)
   q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
-  return q, r
+  return _regroup(q, left_sizes + [1]), _regroup(r, [1] + right_sizes)
 
 
 def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -236,13 +262,8 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_sizes, right_sizes = _matricize(tensor, pivot_axis)
   q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
-  return r, q
+  return _regroup(r, left_sizes + [1]), _regroup(q, [1] + right_sizes)
-- 
2.43.0


From 9c7714651a49236f62bd5f82479de225f146dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:58 +0000
Subject: [PATCH 51/90] fix: symmetric svd does not keep padding as singular
 values

---
 tensornetwork/backends/symmetric/decompositions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 6355d89..000f5f5 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -113,8 +113,11 @@ def svd(
       extended_singvals = np.empty((0, 0), dtype=get_real_dtype(tensor.dtype))
 
     extended_flat_singvals = np.ravel(extended_singvals)
-    #sort singular values
+    #sort singular values, leaving out the padding
+    padding = np.ravel(
+        np.arange(max_D)[:, None] >= np.array(orig_block_size)[None, :])
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    inds = inds[np.logical_not(padding[inds])]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
-- 
2.43.0


From 5c4ec8a0e32bc8c0c94882932c11557f0f3776a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 52/90] fix: cached block data of different symmetries do not
 collide

---
 tensornetwork/block_sparse/blocksparse_utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..587e93e 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -16,7 +16,7 @@ import numpy as np
 from functools import reduce
 from operator import mul
 from tensornetwork.block_sparse.index import Index
-from tensornetwork.block_sparse.charge import (fuse_charges, BaseCharge,
+from tensornetwork.block_sparse.charge import (fuse_charges, BaseCharge, U1Charge,
                                                fuse_ndarray_charges,
                                                charge_equal)
 from tensornetwork.block_sparse.utils import (fuse_stride_arrays, unique,
@@ -650,8 +650,16 @@ def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
   Returns:
     str: The string representation of the input
   """
+  # the same bytes mean something else for other symmetries
+  # (types of one family can share a name, hence the `id`)
+  symmetries = [
+      '{}:{}'.format(ct.__name__, id(ct))
+      for c in charges
+      for ct in c.charge_types
+      if len(c.charge_types) > 1 or ct is not U1Charge
+  ]
   return ''.join([str(c.charges.tostring()) for c in charges] + [
       str(np.array(flows).tostring()),
       str(tr_partition),
       str(np.array(order, dtype=np.int16).tostring())
-  ])
+  ] + symmetries)
-- 
2.43.0


From b6a6916e08bcd5b57a085793fb5e796f21ec339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:41 +0000
Subject: [PATCH 53/90] fix: symmetric svd of a tensor without blocks keeps the
 dtype of its factors

---
 tensornetwork/backends/symmetric/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 000f5f5..14b4f0e 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -197,8 +197,8 @@ def svd(
     all_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
     left_charge_labels = np.empty(0, dtype=np.int16)
     right_charge_labels = np.empty(0, dtype=np.int16)
-    all_ublocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
-    all_vblocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    all_ublocks = np.empty(0, dtype=tensor.dtype)
+    all_vblocks = np.empty(0, dtype=tensor.dtype)
 
   if len(discarded_singvals) > 0:
     tmp_labels = [
-- 
2.43.0


From 9d4a623695cd3241895c98300876c999387bc97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 54/90] fix: reshape of block-sparse tensors keeps legs of
 dimension one with their group

---
 tensornetwork/block_sparse/blocksparsetensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 2a9dd3f..c05a141 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -271,9 +271,18 @@ class ChargeArray:
       raise ValueError("reshaping empty arrays is ambiguous, and is currently "
                        "not supported.")
 
+    # legs of dimension one make the partition ambiguous; in that case
+    # keep them together with the legs they are currently grouped with
+    boundaries = np.cumsum([len(o) for o in self._order])
     partitions = [0]
     for n, ns in enumerate(new_shape):
       tmp = np.nonzero(np.cumprod(flat_dims) == ns)[0]
+      following = np.nonzero(np.append(new_shape[n + 1:], 0) != 1)[0][0]
+      kept = np.logical_and(
+          np.isin(tmp + 1 + np.sum(partitions), boundaries),
+          tmp + following <= np.max(tmp, initial=0))
+      if np.any(kept):
+        tmp = tmp[kept]
       if len(tmp) == 0:
         raise ValueError(
             "The shape {} is incompatible with the "
-- 
2.43.0


From 7457611f0c7f2fb71ad2251019d229c48c533d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 55/90] fix: flattening and tracing several trace edges of
 block-sparse tensors

---
 tensornetwork/ncon_interface.py     | 22 +++++++++++++++++-----
 tensornetwork/network_components.py | 15 ++++++++++++---
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index c92f54f..a2f881f 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -265,13 +265,25 @@ def _partial_trace(
     shape = backend_obj.shape_tuple(tensor)
     contracted_dimension = np.prod(
         [shape[d] for d in contracted_indices[:num_cont]])
-    temp_shape = tuple([shape[pos] for pos in free_indices] +
-                       [contracted_dimension, contracted_dimension])
+    # Flatten one set of indices after the other: for block-sparse tensors with
+    # indices of dimension one, doing it at once is ambiguous.
+    free = list(range(len(free_indices)))
+    free_shape = [shape[pos] for pos in free_indices]
+    result = backend_obj.reshape(
+        backend_obj.transpose(tensor,
+                              tuple(free_indices + contracted_indices)),
+        tuple(free_shape +
+              [shape[pos] for pos in contracted_indices[:num_cont]] +
+              [contracted_dimension]))
+    result = backend_obj.transpose(
+        result,
+        tuple(free + [len(free) + num_cont] +
+              list(range(len(free),
+                         len(free) + num_cont))))
     result = backend_obj.trace(
         backend_obj.reshape(
-            backend_obj.transpose(tensor,
-                                  tuple(free_indices + contracted_indices)),
-            temp_shape))
+            result,
+            tuple(free_shape + [contracted_dimension, contracted_dimension])))
     new_labels = [l for l in labels if l not in unique_trace_labels]
     return result, new_labels, unique_trace_labels
   return tensor, labels, []
diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 77746a9..0d2cd2a 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1356,14 +1356,23 @@ def _flatten_trace_edges(edges: List[Edge],
   perm_back += [max(e.axis1, e.axis2) for e in edges]
   perm_front = set(range(len(node.edges))) - set(perm_back)
   perm_front = sorted(perm_front)
-  perm = perm_front + perm_back
+  # Flatten one end after the other: for block-sparse tensors with edges of
+  # dimension one, doing it at once is ambiguous.
+  perm = perm_front + perm_back[len(edges):] + perm_back[:len(edges)]
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
   node.reorder_axes(perm)
-  unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
+  old_shape = backend.shape_tensor(node.tensor)
+  unaffected_shape = old_shape[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
                                    axis=-1)
-  node.tensor = backend.reshape(node.tensor, new_shape)
+  tensor = backend.reshape(
+      node.tensor,
+      backend.shape_concat([old_shape[:-len(edges)], [new_dim]], axis=-1))
+  front = list(range(len(perm_front)))
+  back = [len(front) + n for n in range(len(edges))]
+  tensor = backend.transpose(tensor, front + [len(front) + len(edges)] + back)
+  node.tensor = backend.reshape(tensor, new_shape)
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
-- 
2.43.0


From bd6c37d449db2cab1689ef932647acb269ab7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 56/90] fix: symmetric backend handles scalar operands and full
 traces

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..4efd5bc 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -622,6 +622,10 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor1 - tensor2
 
   def multiply(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
+    if isinstance(tensor1, BlockSparseTensor) and isinstance(
+        tensor2, BlockSparseTensor) and 0 in (tensor1.ndim, tensor2.ndim):
+      # `tensor1` or `tensor2` is a scalar
+      return self.outer_product(tensor1, tensor2)
     return tensor1 * tensor2
 
   def divide(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
@@ -671,7 +675,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError(errstr)
     if axis1 == axis2:
       raise ValueError(f"axis1 = {axis1} cannot equal axis2 = {axis2}")
-    return self.bs.trace(tensor, (axis1, axis2))
+    # a full trace is a scalar
+    return self.convert_to_tensor(self.bs.trace(tensor, (axis1, axis2)))
 
   def abs(self, tensor: Tensor) -> Tensor:
     return self.bs.abs(tensor)
-- 
2.43.0


From 7e7706f4f5a7b9711bc7a0cb180fce14ee4c6e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:23 +0000
Subject: [PATCH 57/90] fix: MPS.position does not change the caller's tensor
 in place

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..1c72f9a 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # the tensor may be owned by the caller
+        self.tensors[self.center_position] = self.tensors[
+            self.center_position] / Z
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From 8d286d0bd06e771ff006eafb19be83d831bb129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 58/90] fix: dimension of the last bond of an MPS

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 1c72f9a..6b59266 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -244,7 +244,7 @@ class BaseMPS:
                        f" an MPS of length {len(self)}")
     if bond < len(self):
       return self.tensors[bond].shape[0]
-    return self.tensors[bond].shape[2]
+    return self.tensors[bond - 1].shape[2]
 
   @property
   def bond_dimensions(self) -> List:
-- 
2.43.0


From 8fc5e65d42c24fd6777484d71b3ad290ccb6e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 59/90] fix: check_canonical of an MPS of one site

---
 tensornetwork/matrixproductstates/base_mps.py   | 3 +++
 tensornetwork/matrixproductstates/finite_mps.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 6b59266..2625414 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -670,6 +670,9 @@ class BaseMPS:
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:
+      # a single site is always canonical
+      return self.backend.norm(self.tensors[0]) * 0
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def get_tensor(self, site: int) -> Tensor:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..a3bffa0 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -163,6 +163,9 @@ class FiniteMPS(BaseMPS):
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:
+      # a single site is always canonical
+      return self.backend.norm(self.tensors[0]) * 0
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def left_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 9931b9373f2c386b0746f36dee79c239b3ed7f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 60/90] fix: MPS can be truncated by an error with the JAX
 backend

---
 tensornetwork/matrixproductstates/base_mps.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 2625414..bb3c7d8 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,7 +94,6 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
     def svd(tensor,
             pivot_axis=2,
             max_singular_values=None,
@@ -106,7 +105,17 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
-    self.svd = svd
+    jitted_svd = jit(svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def jitted_svd_if_possible(tensor,
+                               pivot_axis=2,
+                               max_singular_values=None,
+                               max_truncation_error=None):
+      # shapes depend on values if there is a truncation error
+      fun = jitted_svd if max_truncation_error is None else svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
+    self.svd = jitted_svd_if_possible
 
     @partial(jit, backend=self.backend)
     def qr(tensor):
-- 
2.43.0


From 71013625385430cde4c176ccb29f6c3ea026884a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:01 +0000
Subject: [PATCH 61/90] fix: two-site gates without truncation leave the
 orthogonality center where they report it

---
 tensornetwork/matrixproductstates/base_mps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index bb3c7d8..96a5964 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -592,14 +592,14 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From b4e289620564cc69aa16b80b0b85145a09722cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:16 +0000
Subject: [PATCH 62/90] fix: two-body correlators are returned in the order of
 the requested sites

---
 tensornetwork/matrixproductstates/base_mps.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 96a5964..ef07c07 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -374,7 +374,7 @@ class BaseMPS:
     ls = self.left_envs(
         np.append(np.mod(left_sites, N), site1).astype(np.int64))
 
-    c = []
+    c = {}
     if len(left_sites) > 0:
 
       A = Node(self.tensors[site1], backend=self.backend)
@@ -415,14 +415,12 @@ class BaseMPS:
           R[1] ^ conj_A[2]
 
           res = (((L @ A) @ O2) @ conj_A) @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
         if n > n1:
           R = Node(
               self.apply_transfer_operator(n % N, 'right', R.tensor),
               backend=self.backend)
 
-      c = list(reversed(c))
-
     # compute <op2(site1)op1(site1)>
     if site1 in sites2:
       O1 = Node(op1, backend=self.backend)
@@ -441,7 +439,7 @@ class BaseMPS:
       conj_A[1] ^ O1[0]
       O = O1 @ O2
       res = (((L @ A) @ O) @ conj_A) @ R
-      c.append(res.tensor)
+      c[site1] = res.tensor
 
     # compute <op1(site1) op2(site2)> for site1 < site2
     if len(right_sites) > 0:
@@ -481,13 +479,13 @@ class BaseMPS:
           R[0] ^ A[2]
           R[1] ^ conj_A[2]
           res = L @ A @ O2 @ conj_A @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
 
         if n < n2:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    return [self.backend.item(c[site]) for site in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From b88c30e4a45f4b10237c6a87ea707a4edc8158cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:40 +0000
Subject: [PATCH 63/90] fix: two-site gates on block-sparse MPS without
 truncation

---
 tensornetwork/matrixproductstates/base_mps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index ef07c07..c069150 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -588,7 +588,12 @@ class BaseMPS:
         set_center_position(site1)
 
     else:
-      tw = self.backend.zeros(1, dtype=self.dtype)
+      if self.backend.name == 'symmetric':
+        # a block-sparse vector needs an index
+        tw = self.backend.zeros(
+            self.backend.sparse_shape(tensor)[:1], dtype=self.dtype)
+      else:
+        tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
-- 
2.43.0


From 10b6ef8b35e26e8f6c7cd2fbc19aec8e922549c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 64/90] fix: report boundaries of another dtype in DMRG as a
 TypeError

---
 tensornetwork/matrixproductstates/dmrg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..ac6101f 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -65,11 +65,11 @@ class BaseDMRG:
     if self.left_envs[0].dtype != self.dtype:
       raise TypeError(
           'left_boundary.dtype = {} is different from BaseDMRG.dtype = {}'
-          .format(self.left_envs[0].dtype.dtype, self.dtype))
+          .format(self.left_envs[0].dtype, self.dtype))
     if self.right_envs[len(mps) - 1].dtype != self.dtype:
       raise TypeError(
           'right_boundary.dtype = {} is different from BaseDMRG.dtype = {}'
-          .format(self.right_envs[0].dtype, self.dtype))
+          .format(self.right_envs[len(mps) - 1].dtype, self.dtype))
 
     self.name = name
 
-- 
2.43.0


From 69dbe79b3a269a80b89a1d8255538da29247001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 65/90] fix: an initial state in
 InfiniteMPS.transfer_matrix_eigs is an array

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From c8d2b8ae9d0b44c5d8906ee3350fe57882d6d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 66/90] fix: the transfer matrix of a real InfiniteMPS has real
 dominant results

---
 tensornetwork/matrixproductstates/infinite_mps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 3b396da..855fa54 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -164,6 +164,10 @@ class InfiniteMPS(BaseMPS):
         dtype=self.dtype)
     result = self.backend.reshape(
         dens[0], (self.bond_dimensions[0], self.bond_dimensions[0]))
+    if not np.issubdtype(self.dtype, np.complexfloating):
+      # the eigenvector is only determined up to a phase
+      trace = self.backend.trace(result)
+      return eta[0].real, (result * (abs(trace) / trace)).real
     return eta[0], result
 
   def right_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From cff9fbb55e1305c220b6a223d5ae9410bb5023ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 67/90] fix: num_krylov_vecs of a small InfiniteMPS transfer
 matrix

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 855fa54..d959c46 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -156,7 +156,7 @@ class InfiniteMPS(BaseMPS):
     eta, dens = self.backend.eigs(
         A=mv,
         initial_state=initial_state,
-        num_krylov_vecs=num_krylov_vecs,
+        num_krylov_vecs=min(num_krylov_vecs, D * D),
         numeig=1,
         tol=precision,
         which='LR',
-- 
2.43.0


From 01e2274a31eaf87df9c7171efa97987d3d31b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 68/90] fix: default maxiter of eigs in the JAX backend

---
 tensornetwork/backends/jax/jax_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index fe745f2..42ce50a 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -309,6 +309,9 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
     if args is None:
       args = []
+    if maxiter is None:
+      maxiter = 20
+
     if which not in ('LR', 'LM'):
       raise ValueError(f'which = {which} is currently not supported.')
 
-- 
2.43.0


From 3d4c4f8eeecc91ce11fdb198d3c54bf3035ef8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 69/90] fix: transfer operators of an MPS include its connector
 matrix

---
 tensornetwork/matrixproductstates/base_mps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c069150..3e8c2e2 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -287,12 +287,14 @@ class BaseMPS:
     Returns:
       `Tensor`: The result of applying the MPS transfer-operator to `matrix`
     """
+    # the connector matrix is part of the last tensor
+    tensor = self.get_tensor(site)
     if direction in (1, 'l', 'left'):
-      return self.left_transfer_operator(self.tensors[site], matrix,
-                                         self.backend.conj(self.tensors[site]))
+      return self.left_transfer_operator(tensor, matrix,
+                                         self.backend.conj(tensor))
     if direction in (-1, 'r', 'right'):
-      return self.right_transfer_operator(self.tensors[site], matrix,
-                                          self.backend.conj(self.tensors[site]))
+      return self.right_transfer_operator(tensor, matrix,
+                                          self.backend.conj(tensor))
     raise ValueError(f'unknown value {direction} for direction')
 
   def measure_local_operator(self, ops: List[Tensor],
-- 
2.43.0


From 54c117d22761df2f295c03fda2b4b52f959d0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 70/90] fix: dangling edges of a chain of identities

---
 tensornetwork/quantum/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..c87e6d3 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,12 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # in a chain of identities an edge can be replaced more than once
+  for e, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[e] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From 48954dbdb6fd8fa80e62d4c6fa86b6ecf244ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 71/90] fix: leg dimensions of the MPO layers are rounded

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..3c5d1da 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..cbf579b 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 3964d45d0d440954bfc63da8f4a2e16a9f46a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 72/90] fix: the bias of Conv2DMPO belongs to the channels

---
 tensornetwork/tn_keras/conv2d_mpo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 3c5d1da..b2e9990 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -218,8 +218,7 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
-      result += bias
+      result = tf.nn.bias_add(result, self.bias_var, data_format=tf_df)
 
     if self.activation is not None:
       result = self.activation(result)
-- 
2.43.0


From b745064b8cf2c19f4aedfcc9b9ec2857d418e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 73/90] fix: tensor network layers accept unknown middle
 dimensions

---
 tensornetwork/tn_keras/condenser.py | 4 ++++
 tensornetwork/tn_keras/dense.py     | 4 ++++
 tensornetwork/tn_keras/entangler.py | 4 ++++
 tensornetwork/tn_keras/expander.py  | 4 ++++
 tensornetwork/tn_keras/mpo.py       | 4 ++++
 5 files changed, 20 insertions(+)

diff --git a/tensornetwork/tn_keras/condenser.py b/tensornetwork/tn_keras/condenser.py
index 16349ca..2b52ed8 100644
--- a/tensornetwork/tn_keras/condenser.py
+++ b/tensornetwork/tn_keras/condenser.py
@@ -141,6 +141,10 @@ class DenseCondenser(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    # dimensions that are only known at run time
+    for i in range(1, len(input_shape) - 1):
+      if input_shape[i] is None:
+        input_shape[i] = tf.shape(inputs)[i]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.output_dim, self.exp_base, self.
diff --git a/tensornetwork/tn_keras/dense.py b/tensornetwork/tn_keras/dense.py
index 27b5ff2..3c00fc2 100644
--- a/tensornetwork/tn_keras/dense.py
+++ b/tensornetwork/tn_keras/dense.py
@@ -130,6 +130,10 @@ class DenseDecomp(Layer):
 
       return result
     input_shape = list(inputs.shape)
+    # dimensions that are only known at run time
+    for i in range(1, len(input_shape) - 1):
+      if input_shape[i] is None:
+        input_shape[i] = tf.shape(inputs)[i]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.a_var, self.b_var, self.use_bias, self.bias_var
diff --git a/tensornetwork/tn_keras/entangler.py b/tensornetwork/tn_keras/entangler.py
index 0422ed8..b2a2eda 100644
--- a/tensornetwork/tn_keras/entangler.py
+++ b/tensornetwork/tn_keras/entangler.py
@@ -177,6 +177,10 @@ class DenseEntangler(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    # dimensions that are only known at run time
+    for i in range(1, len(input_shape) - 1):
+      if input_shape[i] is None:
+        input_shape[i] = tf.shape(inputs)[i]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.num_legs, self.
diff --git a/tensornetwork/tn_keras/expander.py b/tensornetwork/tn_keras/expander.py
index a8ed2d5..1b96511 100644
--- a/tensornetwork/tn_keras/expander.py
+++ b/tensornetwork/tn_keras/expander.py
@@ -141,6 +141,10 @@ class DenseExpander(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    # dimensions that are only known at run time
+    for i in range(1, len(input_shape) - 1):
+      if input_shape[i] is None:
+        input_shape[i] = tf.shape(inputs)[i]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.use_bias, self.
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index cbf579b..ac5a21e 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -175,6 +175,10 @@ class DenseMPO(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    # dimensions that are only known at run time
+    for i in range(1, len(input_shape) - 1):
+      if input_shape[i] is None:
+        input_shape[i] = tf.shape(inputs)[i]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.in_leg_dim, self.
-- 
2.43.0


From f0b8849d1f200a0a2b3aaf3fcf5f2dcf6696f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 74/90] fix: names are drawn literally by to_graphviz

---
 tensornetwork/visualization/graphviz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/visualization/graphviz.py b/tensornetwork/visualization/graphviz.py
index e80aba8..31deba9 100644
--- a/tensornetwork/visualization/graphviz.py
+++ b/tensornetwork/visualization/graphviz.py
@@ -45,7 +45,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
       label = node.name
     else:
       label = ""
-    graph.node(str(id(node)), label=label)
+    graph.node(str(id(node)), label=graphviz.escape(label))
   seen_edges = set()
   for node in nodes:
     for i, edge in enumerate(node.edges):
@@ -53,7 +53,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
         continue
       seen_edges.add(edge)
       if not edge.name.startswith("__") or include_all_names:
-        edge_label = edge.name
+        edge_label = graphviz.escape(edge.name)
       else:
         edge_label = ""
       if edge.is_dangling():
-- 
2.43.0


From 88d6c7901a8bcecc4790d19cfeabc379ad9f0efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:10 +0000
Subject: [PATCH 75/90] fix: to_graphviz draws the edges of nodes given as an
 iterator

---
 tensornetwork/visualization/graphviz.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/visualization/graphviz.py b/tensornetwork/visualization/graphviz.py
index 31deba9..e4b4aac 100644
--- a/tensornetwork/visualization/graphviz.py
+++ b/tensornetwork/visualization/graphviz.py
@@ -40,6 +40,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
   if graph is None:
     #pylint: disable=no-member
     graph = graphviz.Graph('G', engine=engine)
+  nodes = list(nodes)
   for node in nodes:
     if not node.name.startswith("__") or include_all_names:
       label = node.name
-- 
2.43.0


From 913ea57b3cbc9d7f723ad80ed16ba0c5aa1a5791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:53 +0000
Subject: [PATCH 76/90] fix: contract_copy_node detaches the nodes and edges
 that it consumes

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 0d2cd2a..9e1f389 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1944,7 +1944,12 @@ def contract_copy_node(copy_node: CopyNode,
       new_node.add_edge(edge, new_axis)
       new_axis += 1
   assert len(new_tensor.shape) == new_axis
+  copy_edges = set(copy_node.edges)
   copy_node.fresh_edges(copy_node.axis_names)
+  for partner in partners:
+    partner.fresh_edges(partner.axis_names)
+  for edge in copy_edges:
+    edge.disable()
   return new_node
 
 
-- 
2.43.0


From 7a3052dca0dcddf28127a987ace8fbaf561081e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:53 +0000
Subject: [PATCH 77/90] fix: contraction of a copy node whose legs are all
 connected to itself

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 9e1f389..2d47c7f 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -912,6 +912,11 @@ class CopyNode(AbstractNode):
   def compute_contracted_tensor(self) -> Tensor:
     """Compute tensor corresponding to contraction of self with neighbors."""
     partners = self.get_partners()
+    if not partners:
+      # all legs are traced (a tensor without legs has the single entry one)
+      delta = self.make_copy_tensor(min(self.rank, 1), self.dimension,
+                                    self.copy_node_dtype)
+      return self.backend.convert_to_tensor(np.array(np.sum(delta)))
     einsum_expression = self._make_einsum_expression(partners)
     tensors = [partner.get_tensor() for partner in partners]
     return self.backend.einsum(einsum_expression, *tensors)
-- 
2.43.0


From 4f3a1958f6ee93a0909c88db2bb383d92a7380a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 78/90] fix: reject dedicated contraction of a copy node with
 flattened or sliced legs

---
 tensornetwork/network_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 2d47c7f..3f90f36 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -867,6 +867,8 @@ class CopyNode(AbstractNode):
     return edge.node1, edge.axis1
 
   def get_partners(self) -> Dict[AbstractNode, Set[int]]:
+    if self.shape != (self.dimension,) * self.rank:
+      raise ValueError('The legs of the copy tensor were flattened or sliced')
     partners = {}  # type: Dict[AbstractNode, Set[int]]
     for edge in self.edges:
       if edge.is_dangling():
-- 
2.43.0


From de0680f138a6576203bfe4d41b31c3a0709f0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 79/90] fix: random initialisers honour the seed zero

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/pytorch/pytorch_backend.py       | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 42ce50a..5436b11 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index de7bf9c..f2c9bfd 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -126,7 +126,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -141,7 +141,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index e0b1dc7..c3aefd2 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -152,7 +152,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Any] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.randn(shape, dtype=dtype)
@@ -162,7 +162,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Any] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.empty(shape, dtype=dtype).uniform_(*boundaries)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 4efd5bc..9391268 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -146,7 +146,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -156,7 +156,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index e09f930..da7cc95 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
-- 
2.43.0


From d5f89571c597f7cb4694fb4b2da057bc56a6ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 80/90] fix: TensorFlow random_uniform no longer resets the
 global seed to 10

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index da7cc95..1116ac3 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From 46c0077d287928ca602b5fff66e7d2d149380566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:49 +0000
Subject: [PATCH 81/90] fix: ChargeArray.random passes its boundaries on

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index c05a141..452ac2c 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -104,7 +104,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From 3a2574c688002c071ceed24ea7821029a5506b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 82/90] fix: numpy randn creates an array for scalar shapes

---
 tensornetwork/backends/numpy/numpy_backend.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index f2c9bfd..03bcb36 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -131,9 +131,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
         (np.dtype(dtype) is np.dtype(np.complex64))):
-      return np.random.randn(
-          *shape).astype(dtype) + 1j * np.random.randn(*shape).astype(dtype)
-    return np.random.randn(*shape).astype(dtype)
+      return np.random.standard_normal(shape).astype(
+          dtype) + 1j * np.random.standard_normal(shape).astype(dtype)
+    return np.random.standard_normal(shape).astype(dtype)
 
   def random_uniform(self,
                      shape: Tuple[int, ...],
-- 
2.43.0


From 7eb60daa2e5ef51d49f8d117ae0782041a17061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 83/90] fix: TensorFlow random initialisers accept numpy
 complex dtypes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 1116ac3..62ebdf8 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -145,7 +145,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       return tf.complex(
           tf.random.normal(shape=shape, dtype=dtype.real_dtype),
@@ -160,7 +160,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       #pylint: disable=unexpected-keyword-arg
       return tf.complex(
-- 
2.43.0


From 61eed08be7a2e561b3cfc99044e6a48681dd0724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 84/90] fix: symmetric eigs and gmres keep the fused legs of
 the initial state

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 9391268..a3f5bfd 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -251,6 +251,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -279,6 +280,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
@@ -577,6 +579,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
-- 
2.43.0


From 3a326cc7b868f0bbf82519b3d1709370cc9d0f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 85/90] fix: compare_shapes compares the legs of block-sparse
 tensors in their current order

---
 tensornetwork/block_sparse/blocksparsetensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 452ac2c..40d56c4 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -463,13 +463,14 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
   """
   if tensor1.shape != tensor2.shape:
     return False
-  if len(tensor1._charges) != len(tensor2._charges):
+  # compare the legs in their current order; the storage order is irrelevant
+  if [len(o) for o in tensor1._order] != [len(o) for o in tensor2._order]:
     return False
   if not all(
       charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
+      for c1, c2 in zip(tensor1.flat_charges, tensor2.flat_charges)):
     return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
+  if not all(f1 == f2 for f1, f2 in zip(tensor1.flat_flows, tensor2.flat_flows)):
     return False
   return True
 
-- 
2.43.0


From 8c7332d1b42dd28906cbfffc07df72bbb319bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:50 +0000
Subject: [PATCH 86/90] fix: symmetric svd keeps no singular value for
 max_singular_values=0

---
 tensornetwork/backends/symmetric/decompositions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 14b4f0e..5962bb6 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -139,9 +139,9 @@ def svd(
       if max_singular_values > orig_num_singvals:
         max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        num_discarded = len(inds) - max_singular_values
+        discarded_inds = np.append(discarded_inds, inds[:num_discarded])
+        inds = inds[num_discarded:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
-- 
2.43.0


From 99a7b4bba48993f007576e7e6cb32dc8d35ab88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 87/90] fix: the size of a rank-0 block-sparse tensor is one

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 40d56c4..203b00c 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -139,7 +139,8 @@ class ChargeArray:
     Returns:
       int: The total number of elements.
     """
-    return reduce(mul, [self._charges[n].dim for s in self._order for n in s])
+    return reduce(mul, [self._charges[n].dim for s in self._order for n in s],
+                  1)
 
   @property
   def charges(self) -> List[List[BaseCharge]]:
-- 
2.43.0


From e650267f8c6064872e5508695015296a1dd2428c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 88/90] fix: todense of a rank-0 block-sparse tensor has shape
 ()

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 203b00c..0e84965 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -589,7 +589,7 @@ class BlockSparseTensor(ChargeArray):
     
     """
     if self.ndim == 0:
-      return self.data
+      return np.reshape(self.data, self.shape)
     out = np.asarray(np.zeros(self.shape, dtype=self.dtype).flat)
 
     out[np.nonzero(
-- 
2.43.0


From 10aebfbdd8b1b1ebe15102c33ba91b542eb12bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:54 +0000
Subject: [PATCH 89/90] fix: InfiniteMPO.roll accepts any number of sites

---
 tensornetwork/matrixproductstates/mpo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/matrixproductstates/mpo.py b/tensornetwork/matrixproductstates/mpo.py
index 16b79c9..68d2677 100644
--- a/tensornetwork/matrixproductstates/mpo.py
+++ b/tensornetwork/matrixproductstates/mpo.py
@@ -97,6 +97,7 @@ class InfiniteMPO(BaseMPO):
       raise ValueError('left and right MPO ancillary dimension have to match')
 
   def roll(self, num_sites) -> None:
+    num_sites = num_sites % len(self.tensors)
     tensors = [self.tensors[n] for n in range(num_sites, len(self.tensors))
               ] + [self.tensors[n] for n in range(num_sites)]
     self.tensors = tensors
-- 
2.43.0


From c598ef5fe1d80ffb2cc2bff890148497d9c5fad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:28 +0000
Subject: [PATCH 90/90] fix: labels of more than 32767 different block-sparse
 charges overflowed

The labels were always cast to int16 by `unique`, so that fused charges
with more different values than that got wrong labels, and e.g. the number
of nonzero elements of a matrix with 205 different U(1)xU(1) charges on
its legs came out as 1.
---
 tensornetwork/block_sparse/charge.py | 2 +-
 tensornetwork/block_sparse/utils.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index a058e0d..85f915c 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -58,7 +58,7 @@ class BaseCharge:
           "`len(charge_types) = {}` does not match `charges.shape[1]={}`"
           .format(len(charge_types), charges.shape[1]))
     self.num_symmetries = charges.shape[1]
-    if charges.shape[1] < 3:
+    if charges.shape[1] < 3 and charges.shape[0] <= np.iinfo(np.int16).max:
       self.label_dtype = np.int16
     else:
       self.label_dtype = np.int32
diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index 69ceb79..7c067ec 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -286,6 +286,9 @@ def unique(array: np.ndarray,
     out = list(res)
     if _return_index and not return_index:
       del out[1]
+    if return_inverse and len(out[0]) > np.iinfo(label_dtype).max:
+      # too many different elements for labels of type `label_dtype`
+      label_dtype = SIZE_T
     out[0] = expand(out[0], array.dtype, original_width, original_ndim)
     if return_inverse and not return_index:
       out[1] = out[1].astype(label_dtype)
-- 
2.43.0

