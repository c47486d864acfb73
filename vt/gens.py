"""Generators and array helpers shared by the checks."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2**31 - 1)


def arr(shape, seed, kind='real'):
  """Deterministic array. kind: int, real, complex, f32, c64, posint."""
  rng = np.random.default_rng(int(seed))
  shape = tuple(int(s) for s in shape)
  if kind == 'int':          # small non-zero integers: float sums are exact
    return (rng.integers(1, 5, shape) * rng.choice([-1, 1], shape)).astype(np.float64)
  if kind == 'cint':
    return arr(shape, seed, 'int') + 1j * arr(shape, seed + 1, 'int')
  if kind == 'posint':
    return rng.integers(1, 5, shape).astype(np.float64)
  if kind == 'i64':
    return rng.integers(-5, 6, shape)
  if kind == 'real':
    return rng.normal(size=shape) + 0.0
  if kind == 'pos':
    return rng.uniform(0.5, 2.0, size=shape) + 0.0
  if kind == 'complex':
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)
  if kind == 'f32':
    return np.asarray(rng.normal(size=shape)).astype(np.float32)
  if kind == 'c64':
    return np.asarray(rng.normal(size=shape) + 1j * rng.normal(size=shape)).astype(np.complex64)
  raise ValueError(kind)


def random_isometry(n, m, seed, complex_=False):
  a = arr((n, m), seed, 'complex' if complex_ else 'real')
  return np.linalg.qr(a)[0]


def pick(seq, i):
  """Element of seq chosen by abstract integer i (any non-negative int)."""
  return seq[i % len(seq)]


small_int = st.integers(0, 63)
