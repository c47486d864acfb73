"""Writes /verif/properties.jsonl (the source of truth is this table)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=text), why_tests_cant=why,
           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
  if observe: d['anchors']['observe_at'] = list(observe)
  if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
  assert len(title) <= 80, (id, len(title))
  P.append(d)
T = 'tensornetwork/'
p('C01', 'Graph editing keeps a network well formed and its represented tensor exact',
  'After any sequence of network operations (connect, disconnect, reorder edges or axes, flatten, split, slice, redirect, name, fuse, split a node, contract, trace, outer product, remove, conjugate, copy), every node\'s edges, axes, shapes and names stay mutually consistent and each live edge is attached exactly where its two ends say. The tensor the network denotes, indexed by its dangling edges, is exactly the one obtained by applying the documented meaning of each operation to the original arrays, with each surviving dangling edge still denoting the same index, contracted-away edges are unusable and consumed nodes are left with fresh dangling edges. A connection, reordering, flattening, splitting or slicing that is not allowed raises and leaves the network unchanged.',
  ['histories', 'inputs'], 'Every finite history of node/edge operations on networks with dangling, standard, parallel and trace edges, over all shapes incl. dimension 1 and scalars, with every optional argument.',
  'The tests apply one or two operations to one fixed small network; invariants over long histories and operation pairs (e.g. split a flattened trace edge, then reorder) are never sampled, and the network-component test files are not part of what runs.',
  [T+'network_components.py', T+'network_operations.py', T+'component_factory.py'],
  [('AbstractNode / Edge bookkeeping', T+'network_components.py'), ('_remove_edges, flatten_edges, split_edge, contract, trace', T+'network_components.py')],
  ['node.tensor', 'node.edges', 'edge.node1/axis1', 'check_correct'])
p('C02', 'Contraction gives the same tensor for every order, algorithm and call form',
  'Contracting a network, built node by node or from an einsum-like topology string, gives the tensor of the Einstein sum it denotes, whichever edges, pairs or groups are contracted in which order and whichever contractor (exact optimal, branch, greedy, automatic, custom path, bucket) is used. The axes of the result follow the requested output edge order (or the documented default), and memory limits large enough for the contraction, path choice and axis-order options never change its value. Edges that were dangling keep denoting the same index on the final node.',
  ['inputs', 'schedules', 'configurations'], 'All network topologies (multi-edges, self loops, disconnected parts, scalars, single nodes), all contraction orders, all contractors and all output orders.',
  'Tests contract a handful of fixed networks, mostly with matching matrices, with one order each.',
  [T+'contractors/opt_einsum_paths/path_contractors.py', T+'contractors/bucket_contractor.py', T+'contractors/custom_path_solvers/nconinterface.py', T+'network_components.py', T+'utils.py'],
  [('base / optimal / branch / greedy / auto / custom', T+'contractors/opt_einsum_paths/path_contractors.py'), ('contract_between, contract_parallel, outer_product_final_nodes', T+'network_components.py')])
p('C03', 'Contraction path solvers return valid paths with true, minimal cost',
  'For every network given as index labels with sizes, the path solvers return an order of pairwise contractions that contracts the whole network, together with the base-ten logarithm of the total cost (product of the dimensions involved, summed over the steps) that following this order really incurs. Exhaustive search (no pruning cap) returns a path whose cost is minimal among all orders that take outer products only when nothing else is left to contract, and heuristic search never claims a cost below that minimum. Paths computed for node networks are valid for those nodes and contract them completely.',
  ['inputs'], 'All label structures (including disconnected parts, open, repeated and size-1 indices), all dimension assignments and all solver options.',
  'The solver tests assert costs on a few hand-picked ring or random networks; minimality quantifies over all orders.',
  [T+'contractors/custom_path_solvers/pathsolvers.py', T+'contractors/custom_path_solvers/nconinterface.py', T+'contractors/opt_einsum_paths/utils.py'],
  [('full_solve_complete, greedy_cost_solve, greedy_size_solve', T+'contractors/custom_path_solvers/pathsolvers.py'), ('ncon_solver, ncon_cost_check, ncon_to_adj', T+'contractors/custom_path_solvers/nconinterface.py')])
p('C04', 'ncon equals the Einstein summation its labels denote, or rejects them',
  'For every valid list of tensors and index labels (integers, strings or a mix), ncon returns exactly the Einstein summation the labels denote, with open indices in the requested or default output order. The contraction order, the input container (arrays or tensor objects), the backend and the spelling of the labels never change the value, and the inputs are not modified. Inconsistent label lists, dimensions, orders and outputs are rejected with an error instead of yielding a wrong tensor.',
  ['inputs', 'configurations'], 'All label structures incl. traces, partial traces, outer products, disconnected parts, batch labels appearing more than twice where supported, all orders.',
  'ncon_interface_test is not among the tests that run here, and it samples a few fixed label lists.',
  [T+'ncon_interface.py'],
  [('ncon, _jittable_ncon, _canonicalize_network_structure, _check_network', T+'ncon_interface.py')])
p('C05', 'Node splits and decompositions reconstruct, are isometric and truncate optimally',
  'Splitting a node or decomposing a tensor (SVD, QR, RQ) gives factors whose contraction restores the original tensor, with factors that are isometric or triangular where promised and singular values that are non-negative and sorted. With truncation limits, exactly the documented number of leading singular values is kept, the rest is returned, and the approximation is the best of that rank. Edges, order and names requested for the left, right and middle parts are honoured on every backend.',
  ['inputs', 'configurations'], 'All shapes and pivots, real and complex dtypes, rank-deficient tensors, every combination of truncation options, every backend.',
  'Tests use a few shapes, mostly full-rank random tensors and one truncation option at a time.',
  [T+'network_operations.py', T+'backends/numpy/decompositions.py', T+'backends/tensorflow/decompositions.py', T+'backends/jax/jax_backend.py'],
  [('split_node*, ', T+'network_operations.py'), ('svd, qr, rq', T+'backends/*/decompositions.py')])
p('C06', 'Copies and derived networks are faithful and independent of their source',
  'Copying or replicating nodes yields an isomorphic network with equal (or conjugated) tensors, names and edges, dangling where the source connected to nodes outside the copied set, and the returned maps relate every source node and edge to its counterpart. Changing either network structurally never affects the other. Connectivity queries (reachable nodes, neighbours, all edges, dangling and internal edges of a subset, shared and parallel edges) describe exactly the graph that exists.',
  ['inputs', 'histories'], 'All topologies with trace and parallel edges, all subsets of nodes, all follow-up edits of either side.',
  'Tests copy two or three fixed networks without trace edges in subsets and do not edit them afterwards.',
  [T+'network_operations.py', T+'network_components.py', T+'utils.py'],
  [('copy, replicate_nodes, reachable, get_all_edges, get_subgraph_dangling, reduced_density', T+'network_operations.py')])
p('C07', 'Saving and loading a network is the identity',
  'Writing any set of nodes to a file and loading it back, or converting it to JSON text and back, gives nodes with the same types, names, axis names, tensors and shapes in the same order, connected by edges with the same names, ends and axes. The saved network is left unchanged, and edges to nodes outside the saved set come back as dangling edges.',
  ['inputs'], 'All networks: scalars, copy nodes, more than ten nodes, parallel and trace edges, unnamed and duplicate names, subsets, all dtypes.',
  'Tests round-trip two or three small fixed networks and compare only some fields.',
  [T+'utils.py', T+'network_components.py', T+'network_operations.py'],
  [('save_nodes, load_nodes, from_topology', T+'utils.py'), ('nodes_to_json, nodes_from_json', T+'network_operations.py'), ('to_serial_dict, from_serial_dict', T+'network_components.py')])
p('C08', 'Every backend primitive computes the same mathematical function',
  'For every supported backend, each tensor primitive offered by the common backend interface (contraction, reshape, transpose, slice, trace, diagonals, norms, elementwise maps, broadcasts, matrix functions, decompositions, item, index updates and so on) returns the value given by its mathematical definition for every valid input. Negative axes, default arguments, dtypes and shapes behave identically on all backends that offer the primitive. Arguments are never modified.',
  ['inputs', 'configurations'], 'All backends (NumPy, TensorFlow, JAX) x all primitives x all valid shapes, dtypes, axes and options.',
  'Each backend\'s tests check fixed small arrays against that backend\'s own library; no test compares backends or sweeps axes and defaults.',
  [T+'backends/abstract_backend.py', T+'backends/numpy/numpy_backend.py', T+'backends/tensorflow/tensorflow_backend.py', T+'backends/tensorflow/tensordot2.py', T+'backends/jax/jax_backend.py'],
  [('AbstractBackend implementations', T+'backends')])
p('C09', 'The Tensor class and linear-algebra helpers match the array mathematics',
  'Operations on tensor objects (arithmetic with tensors and scalars, transpose, hermitian conjugation, reshape, squeeze, ravel, flatten, conversion) and the functional helpers over them (products, Kronecker, norms, traces, decompositions, matrix exponential and inverse, elementwise functions, creation routines, node-level versions) return what the equivalent array formula gives on every backend. Results keep the backend and dtype of their inputs, inputs of different backends are rejected, and inputs are not modified.',
  ['inputs', 'configurations'], 'All shapes, dtypes, axis arguments, scalars, and backends.',
  'tensor_test and the linalg tests are not among the tests that run here.',
  [T+'tensor.py', T+'linalg/operations.py', T+'linalg/linalg.py', T+'linalg/initialization.py', T+'linalg/node_linalg.py'],
  [('Tensor', T+'tensor.py'), ('linalg wrappers', T+'linalg')])
p('C10', 'Iterative solvers return true eigenpairs and true solutions',
  'The iterative eigensolvers return values and vectors that satisfy the eigenvalue equation of the supplied operator, ordered and selected as requested, and with a full Krylov space they agree with dense diagonalisation. The iterative linear solver returns a solution whose residual meets the requested tolerance whenever it reports convergence. Caller-supplied starting vectors, operator arguments and callbacks\' arrays are not altered.',
  ['inputs', 'configurations'], 'All operator sizes, symmetric, non-symmetric, real and complex operators, starting vectors of any tensor shape, degenerate and early-terminating Krylov spaces, all options.',
  'Tests use one random dense operator per dtype and only look at the extreme eigenvalue.',
  [T+'linalg/krylov.py', T+'backends/numpy/numpy_backend.py', T+'backends/jax/jax_backend.py', T+'backends/jax/jitted_functions.py', T+'backends/symmetric/symmetric_backend.py', T+'backends/abstract_backend.py'],
  [('eigsh_lanczos, eigsh, eigs, gmres', T+'backends')])
p('C11', 'Symmetry charges and indices obey their group algebra',
  'Charges of every symmetry type form the documented group: fusion is associative and commutative, combining a charge with its dual gives the identity, and products of symmetries act componentwise. Unique, reduce, intersect, indexing, comparison, conjugation and dimension queries agree with the plain list of charge values. Index flattening, copying, flow flipping and fusing keep those values and their order.',
  ['inputs'], 'All charge sequences of U(1), Z2, ZN and user-combined symmetries, of all lengths incl. one, with all flows.',
  'Tests compare a few random arrays per method and never relate methods to each other or to singletons.',
  [T+'block_sparse/charge.py', T+'block_sparse/index.py', T+'block_sparse/utils.py', T+'block_sparse/blocksparse_utils.py'],
  [('BaseCharge, U1Charge, Z2Charge, ZNCharge, fuse_charges', T+'block_sparse/charge.py'), ('Index', T+'block_sparse/index.py')])
p('C12', 'Block-sparse tensor algebra equals dense algebra and keeps the symmetry',
  'Every operation on a symmetric block-sparse tensor (dense conversion, transpose, reshape, contraction, outer product, trace, addition, scaling, conjugation, diagonal, elementwise map, norm) equals the same operation on its dense form. Results only contain elements allowed by charge conservation, with indices, flows and charges that make their dense shape right. Inputs keep their value.',
  ['inputs', 'histories'], 'All charge types incl. combined, all flows, all leg groupings, ranks 0 to 5, empty and single-sector tensors, lazily transposed inputs, chains of operations.',
  'The tests cover most functions with a few random shapes but not histories: lazily transposed, reshaped and then contracted or combined tensors are hardly sampled.',
  [T+'block_sparse/blocksparsetensor.py', T+'block_sparse/blocksparse_utils.py', T+'block_sparse/initialization.py', T+'block_sparse/utils.py'],
  [('BlockSparseTensor, tensordot, outerproduct, contiguous', T+'block_sparse/blocksparsetensor.py')])
p('C13', 'Block-sparse matrix functions and decompositions equal the dense ones',
  'SVD, QR, eigen-decomposition (hermitian and general), inverse, pseudo-inverse, square root, diagonal, trace and identity of symmetric block-sparse matrices agree with the dense results: factors multiply back, isometries are isometric, spectra match as multisets, pseudo-inverses satisfy the Penrose equations, and truncation keeps the globally largest values allowed by the limits. All factors stay charge-conserving.',
  ['inputs'], 'All charge distributions (with empty, missing, single and rectangular blocks), flows, lazily transposed inputs, dtypes, and truncation options.',
  'Tests use random charges with many large blocks, so empty, rank-deficient or truncated-to-zero blocks are rarely sampled.',
  [T+'block_sparse/linalg.py', T+'backends/symmetric/decompositions.py', T+'block_sparse/initialization.py'],
  [('svd, qr, eigh, eig, inv, pinv, sqrt, diag, trace, eye', T+'block_sparse/linalg.py'), ('svd, qr, rq with truncation', T+'backends/symmetric/decompositions.py')])
p('C14', 'Caching of block structure never changes a result',
  'With block-structure caching enabled, every sequence of block-sparse operations gives results identical to running it with caching disabled, regardless of what was computed before, including by other symmetry types. Enabling, disabling, setting and clearing the cache, repeated and in any order, also after operations that raise or backend functions that enable it on their own, never alter results, and the mode is always the one that was set last.',
  ['histories', 'configurations'], 'All interleavings of operations over several symmetry types with cache on, off and clear events and failing operations.',
  'The tests check that a few contractions populate the cache; hits from a different but similar-looking structure are not sampled.',
  [T+'block_sparse/caching.py', T+'block_sparse/blocksparse_utils.py', T+'block_sparse/blocksparsetensor.py'],
  [('cache key and lookup', T+'block_sparse/blocksparse_utils.py'), ('enable_caching, disable_caching, clear_cache', T+'block_sparse/caching.py')])
p('C15', 'Symmetric networks compute exactly what the dense networks compute',
  'Building a network from symmetric block-sparse tensors and applying node operations (contraction, ncon, trace, flatten, split edge, reorder, conjugate, node splitting and truncation, outer products, contractors) gives tensors whose dense form equals the same operations on dense arrays. The symmetric backend\'s primitives agree with the dense backend\'s, and edges with incompatible charges or flows are rejected instead of giving a wrong value.',
  ['inputs', 'histories', 'configurations'], 'All symmetric networks over all charge types and flows and the operations the symmetric backend offers.',
  'Tests cover a subset of operations on matching random networks, mostly with U(1).',
  [T+'backends/symmetric/symmetric_backend.py', T+'backends/symmetric/decompositions.py', T+'network_components.py'],
  [('SymmetricBackend', T+'backends/symmetric/symmetric_backend.py')])
p('C16', 'MPS gauge moves preserve the state and deliver the promised gauge',
  'Moving the orthogonality centre, canonicalising and gauge checks on a finite matrix product state never change the physical state beyond the reported norm and reported truncation, and afterwards the tensors left and right of the centre are isometric as promised. Truncation never exceeds the allowed bond dimension and its reported error is the true loss. Tensors given by the caller are not altered, and dimensions and environments reported agree with the dense state.',
  ['histories', 'inputs'], 'All lengths (1..8), physical and bond dimensions varying by site, initial centres, dtypes, and sequences of position/canonicalise calls with all options.',
  'Tests check canonical form after one position call on uniform random states; they never compare the state itself over histories.',
  [T+'matrixproductstates/base_mps.py', T+'matrixproductstates/finite_mps.py'],
  [('position, canonicalize, check_orthonormality, check_canonical', T+'matrixproductstates'), ('left_envs, right_envs', T+'matrixproductstates/finite_mps.py')])
p('C17', 'MPS gates and measurements equal state-vector simulation',
  'Applying one- and two-site gates to a finite matrix product state equals applying them to the dense state vector, up to the truncation that is reported, and moves the orthogonality centre as documented. Local expectation values and two-point correlators equal the dense ones in the order of the requested sites, for any centre position and site order, without changing the state. Operators may be real or complex, non-hermitian, and different on every site.',
  ['histories', 'inputs'], 'All circuits of gates on random states of up to 8 sites, all site choices, all truncation options, all measurement requests.',
  'Tests measure one operator type on product or identity-like states and apply one gate.',
  [T+'matrixproductstates/base_mps.py', T+'matrixproductstates/finite_mps.py'],
  [('apply_one_site_gate, apply_two_site_gate, measure_local_operator, measure_two_body_correlator, apply_transfer_operator', T+'matrixproductstates/base_mps.py')])
p('C18', 'Infinite MPS canonicalisation preserves the state up to norm',
  'Canonicalising an infinite matrix product state keeps the density matrices of its sites up to the norm, and with them the spectrum of its transfer operator relative to the largest eigenvalue, makes the unit cell isometric in the promised direction with a diagonal positive bond spectrum, and truncates only within the limits given. Transfer operators and their dominant eigenvectors satisfy their defining equations, and moving the centre or repeated canonicalisation leaves the state unchanged.',
  ['inputs', 'histories'], 'All unit-cell lengths, bond and physical dimensions, dtypes, and option combinations.',
  'Tests check isometry for one or two random cells, not the state\'s expectation values.',
  [T+'matrixproductstates/infinite_mps.py', T+'matrixproductstates/base_mps.py'],
  [('InfiniteMPS.canonicalize, transfer_matrix_eigs', T+'matrixproductstates/infinite_mps.py')])
p('C19', 'Matrix product operators denote the documented Hamiltonians',
  'Every built-in matrix product operator, contracted to a dense matrix, equals the Hamiltonian documented for its couplings and fields with open boundaries, for all sizes and site-dependent parameters, and is hermitian for real couplings. Dimensions, dtype, length and tensors reported by a finite or infinite operator agree with the tensors it was built from, rolling an infinite operator shifts its unit cell cyclically, and tensor lists that do not fit together are rejected. Neither construction nor use modifies the arrays of the caller.',
  ['inputs'], 'All couplings and fields (site dependent, zero, negative), lattice sizes 2..6 (and N1 x N2 fermion lattices), dtypes.',
  'mpo_test is not among the tests that run here, and it only compares tensors of one or two sites.',
  [T+'matrixproductstates/mpo.py'],
  [('FiniteXXZ, FiniteTFI, FiniteFreeFermion2D, BaseMPO, InfiniteMPO', T+'matrixproductstates/mpo.py')])
p('C20', 'DMRG is variational: energies are real, bounded below and converge',
  'For every hermitian operator and starting state, each reported energy equals the expectation value of the operator in the current normalised state, is never below the exact ground-state energy, and does not increase between sweeps beyond truncation and tolerance. With the full bond dimension, enough sweeps and a starting state that overlaps with it, one- and two-site optimisation reach the exact ground-state energy of small chains. The caller\'s operator stays unchanged.',
  ['inputs', 'histories'], 'All Hamiltonian parameters, lengths 2..7, bond dimensions, starting gauges, sweep numbers, and sequences of run calls.',
  'Tests run DMRG on two fixed models with default settings.',
  [T+'matrixproductstates/dmrg.py'],
  [('BaseDMRG, FiniteDMRG run_one_site / run_two_site, left/right envs', T+'matrixproductstates/dmrg.py')])
p('C21', 'Quantum operators and vectors obey linear algebra',
  'Products, tensor products, adjoints, traces, partial traces, norms (the squared Frobenius norm), scalings, projectors, reduced densities, identity and evaluation of quantum operators, vectors and scalars give, for any composition, the result of the same expression on dense matrices and vectors. Subsystem structure is tracked exactly, incompatible compositions are rejected, and evaluating or composing never modifies its operands.',
  ['programs', 'inputs'], 'All expressions over operators, vectors, adjoint vectors and scalars with any subsystem dimensions, multi-node networks, identities in any position, reuse of operands.',
  'Tests check each method once on one or two fixed operators; nested expressions and identity chains are not sampled.',
  [T+'quantum/quantum.py'],
  [('QuOperator, QuVector, QuAdjointVector, QuScalar, identity, eliminate_identities', T+'quantum/quantum.py')])
p('C22', 'Tensor-network Keras layers compute the dense layer they factorise',
  'Each tensor-network layer computes, for every batch, the activation of its input multiplied by the dense weight that its factor tensors contract to, plus the bias, with each sample handled independently. Output shapes match the declared ones, configuration round trips rebuild a layer of the same structure, and option combinations that are advertised as valid build and run.',
  ['inputs', 'configurations'], 'All layer types, sizes, numbers of nodes, bond dimensions, activations, biases, batch shapes, strides, paddings and weight values.',
  'Tests check only output shapes and that a fit call runs; no test recomputes the layer\'s value.',
  [T+'tn_keras/dense.py', T+'tn_keras/mpo.py', T+'tn_keras/conv2d_mpo.py', T+'tn_keras/entangler.py', T+'tn_keras/expander.py', T+'tn_keras/condenser.py'],
  [('layer call()', T+'tn_keras')])
p('C23', 'Default backend and node collections follow strict scoping',
  'At every moment newly created nodes and tensors use the innermost active default backend, an explicit backend always wins, and leaving a scope, normally or by exception, restores exactly the backend that was active before it. Nodes created inside node-collection scopes are recorded in the innermost active collection only, and no scope leaks into another.',
  ['histories'], 'All nestings of scopes (last in, first out, in one thread), global default changes, explicit backends, exceptions and re-entered scopes.',
  'Tests nest at most two scopes without exceptions or mixing of the two kinds.',
  [T+'backend_contextmanager.py', T+'ops.py', T+'backends/backend_factory.py', T+'network_components.py', T+'network_operations.py'],
  [('DefaultBackend, set_default_backend', T+'backend_contextmanager.py'), ('NodeCollection', T+'ops.py')])
p('C24', 'The drawn graph is isomorphic to the network',
  'Rendering all nodes of a network yields exactly one vertex per node, one drawn edge per standard, parallel, trace or dangling edge with the right end points, and labels with the nodes\' and edges\' names. Rendering never changes the network.',
  ['inputs'], 'All complete networks with named, unnamed and duplicate-named nodes, special characters, self loops, multi-edges, dangling edges, and disconnected parts.',
  'One test compares one rendered string.',
  [T+'visualization/graphviz.py'], [('to_graphviz', T+'visualization/graphviz.py')])
p('C25', 'Copy tensors behave as hyperedges',
  'A copy node denotes the generalised Kronecker delta of its rank and dimension: contracting it by any route (direct contraction, dedicated copy contraction, bucket contraction) equals the Einstein sum that identifies all indices attached to it, and a route that does not support the situation (dangling, flattened or sliced legs, neighbouring copy nodes) rejects it. Its partner queries list exactly the attached legs, and copy nodes survive copying and serialisation as copy nodes.',
  ['inputs', 'histories'], 'All ranks and dimensions, partners sharing several legs, dangling and self-connected legs, dtypes, and contraction routes.',
  'Tests check a few fixed copy networks; self loops and multi-leg partners are sampled once.',
  [T+'network_components.py', T+'contractors/bucket_contractor.py', T+'network_operations.py'],
  [('CopyNode, contract_copy_node', T+'network_components.py'), ('bucket', T+'contractors/bucket_contractor.py')])
p('C26', 'Random and constant initialisers are reproducible, typed and in range',
  'Every tensor creation routine returns the requested shape and dtype on every backend; constant ones have exactly the defined entries. Random ones with the same seed, any integer from zero up, return identical tensors, differ for different seeds, respect the requested bounds, and fill both real and imaginary parts of complex dtypes.',
  ['inputs', 'configurations'], 'All shapes, dtypes, bounds, seeds and backends, including block-sparse and MPS initialisers.',
  'Tests fix seed 10 and compare with the same library call.',
  [T+'linalg/initialization.py', T+'backends/numpy/numpy_backend.py', T+'backends/tensorflow/tensorflow_backend.py', T+'backends/jax/jax_backend.py', T+'backends/symmetric/symmetric_backend.py', T+'block_sparse/initialization.py'],
  [('randn, random_uniform, ones, zeros, eye', T+'backends')])
p('C27', 'The PyTorch backend agrees with the other backends',
  'Networks built on PyTorch tensors give the same values, shapes and errors as the same networks on the other backends.',
  ['inputs', 'configurations'], 'All primitives and networks on PyTorch tensors.',
  'The PyTorch tests cannot run where PyTorch is not installed.',
  [T+'backends/pytorch/pytorch_backend.py', T+'backends/pytorch/decompositions.py'], [('PyTorchBackend', T+'backends/pytorch/pytorch_backend.py')])
p('C28', 'Compiled, batched, dynamic and differentiated networks equal eager ones',
  'Network code (building, copying, contracting, flattening, tracing and splitting nodes, every contractor, ncon, the backend primitives) gives inside a compiled or traced function the same values as outside: under JAX jit and vmap, the package\'s own jit, TensorFlow functions and mapped functions, for every later argument and, where no planning needs the sizes, for dimensions unknown when tracing and of any size when called. Automatic differentiation through contractions, on JAX and TensorFlow, gives the true derivative for real and complex tensors.',
  ['inputs', 'configurations'], 'All networks, programs, transformations, subsets of unknown dimensions and later arguments.',
  'Tests trace three or four tiny networks of ones, and never with mixed known and unknown dimensions, complex derivatives or repeated calls.',
  [T+'backends/tensorflow/tensordot2.py', T+'backends/tensorflow/tensorflow_backend.py', T+'backends/tensorflow/decompositions.py', T+'backends/jax/jax_backend.py', T+'backends/decorators.py', T+'network_components.py', T+'network_operations.py', T+'ncon_interface.py'],
  [('tensordot with unknown dimensions', T+'backends/tensorflow/tensordot2.py'), ('jit', T+'backends/decorators.py')])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
  for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
