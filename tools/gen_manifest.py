#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json
import os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C01': 'stateful model-based property testing against an independent graph/array model',
    'C02': 'differential property testing of contractors and contraction orders against a direct Einstein sum',
    'C03': 'property testing of path solvers against an exhaustive reference search and cost recomputation',
    'C04': 'property testing of ncon against a direct Einstein-sum reference, with metamorphic relabelling and fault (rejection) cases',
    'C05': 'property testing of splits and decompositions against reconstruction, isometry and optimal-truncation oracles',
    'C06': 'stateful property testing of copies and connectivity queries against a graph model',
    'C07': 'round-trip property testing of save/load and JSON conversion',
    'C08': 'differential property testing of backend primitives against NumPy definitions on all backends',
    'C09': 'differential property testing of Tensor methods and linalg helpers against array formulas',
    'C10': 'property testing of Krylov solvers against dense linear algebra and residual oracles',
    'C11': 'property testing of charges and indices against plain lists of labels (group laws, reference model)',
    'C12': 'differential property testing of block-sparse algebra against dense arrays and charge rules',
    'C13': 'differential property testing of block-sparse matrix functions against dense linear algebra',
    'C14': 'stateful differential property testing: cached versus uncached histories',
    'C15': 'differential property testing of symmetric networks against dense networks',
    'C16': 'stateful property testing of finite MPS gauge moves against dense state vectors',
    'C17': 'stateful property testing of MPS gates and measurements against state-vector simulation',
    'C18': 'property testing of infinite MPS canonicalisation against transfer-matrix references',
    'C19': 'property testing of matrix product operators against dense Hamiltonians',
    'C20': 'property testing of DMRG against exact diagonalisation and variational invariants',
    'C21': 'property testing of quantum operators by random expressions against dense linear algebra',
    'C22': 'differential property testing of Keras layers against their dense weights',
    'C23': 'stateful model-based testing of scopes (single and multi-threaded histories)',
    'C24': 'property testing of the drawn graph against the network by counting drawn elements',
    'C25': 'property testing of copy nodes against hyperedge Einstein sums',
    'C26': 'property testing of initialisers (metamorphic seed relations, range and dtype invariants)',
    'C28': 'differential property testing of traced, batched and differentiated networks against the Einstein sum and its exact directional derivative',
}
NOTE = ('Exploration: random structured generation with shrinking against an explicit oracle; no '
        'exhaustiveness is claimed. Trusts NumPy/SciPy arithmetic and the oracle code under /verif/vt. '
        'What was generated is counted in the evidence file.')
NA = {'C27': 'PyTorch is not installed in this sandbox and cannot be fetched, so the PyTorch backend '
             'cannot be executed; generated-input search needs a running implementation.'}
checks = []
na = []
for i in range(1, 29):
  pid = 'C%02d' % i
  if pid in NA:
    na.append(dict(property=pid, reason=NA[pid]))
  elif os.path.exists(os.path.join(H, 'vt/checks/%s.py' % pid.lower())):
    checks.append(dict(property=pid, quick_cmd='./run %s' % pid,
                       thorough_cmd='./run %s --tier thorough' % pid,
                       evidence_file='evidence/%s.json' % pid, technique=TECH[pid],
                       level='exploration', level_note=NOTE))
  else:
    na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='test -x ./run && test -d vendor/hypothesis', checks=checks, not_applicable=na)
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
