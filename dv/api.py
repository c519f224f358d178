"""What contract texts use: logic helpers and element access, same in both interpretations."""
import numpy as np
from dv import core
from dv import tens
from dv.core import (And, Or, Not, Implies, Iff, If, eq, le, ge, absz, maxz, minz, isz,  # pylint: disable=unused-import
                     Unsupported, Missing, Skip, z3, floordiv_t, mod_t, round_even_t)
from dv.tens import T, Variable, lift, zi, dprod

_NPC = {}


def _np(t):
  if isinstance(t, np.ndarray):
    return t
  k = id(t)
  if k in _NPC and _NPC[k][0] is t and not hasattr(t, 'assign'):
    return _NPC[k][1]
  a = np.asarray(t.numpy() if hasattr(t, 'numpy') else t)
  if len(_NPC) > 256:
    _NPC.clear()
  _NPC[k] = (t, a)
  return a


def _idx(i):
  if isinstance(i, T):
    return tens.iv(i)
  return i


def el(t, *idx):
  """Element of a tensor."""
  if core.is_sym():
    return lift(t).at(*[_idx(i) for i in idx])
  a = _np(t)
  return a[tuple(int(i) for i in idx)].item()


def val(x):
  """Scalar value (term / Python number)."""
  if core.is_sym():
    if isinstance(x, Variable):
      x = x.cur
    if isinstance(x, T):
      return x.term
    if isz(x):
      return x
    if hasattr(x, 'numpy'):
      return lift(x).term
    return x
  if hasattr(x, 'numpy'):
    x = x.numpy()
  if isinstance(x, np.ndarray) or isinstance(x, np.generic):
    return x.item()
  return x


def is_tensor(x):
  return (isinstance(x, T) and not x.py) if core.is_sym() else hasattr(x, 'numpy')


def dims(t):
  if core.is_sym():
    return list(lift(t).shape_)
  return list(_np(t).shape)


def same_shape(a, b):
  da, db = dims(a), dims(b)
  if len(da) != len(db):
    return False
  return And([eq(x, y) if (isz(x) or isz(y)) else x == y for x, y in zip(da, db)])


def idiv(a, b):
  if isz(a) or isz(b):
    return floordiv_t(a, b)
  return a // b


def imod(a, b):
  if isz(a) or isz(b):
    return mod_t(a, b)
  return a % b


def rnd(x):
  """round half to even."""
  return round_even_t(x) if isz(x) else round(x)


def toreal(x):
  return z3.ToReal(x) if isz(x) and z3.is_int(x) else x


def snapshot(v):
  """Value of a variable now."""
  if core.is_sym():
    return v.cur if isinstance(v, Variable) else v
  return np.array(v.numpy())


def get(obj, name):
  """Attribute that may disappear in a refactoring (private helper)."""
  if not hasattr(obj, name):
    raise Missing(name)
  return getattr(obj, name)


def lst(*xs):
  """A list literal kept as is."""
  return list(xs)


CONTRACTS = []


class Contract:

  def __init__(self, prop, name, fn, targets, cases, deep, mode, note, opts, min_nontrivial):
    self.prop, self.name, self.fn = prop, name, fn
    self.targets = targets
    self.cases, self.deep = cases, deep
    self.mode = mode
    self.note = note
    self.opts = opts
    self.min_nontrivial = min_nontrivial


def contract(prop, targets, cases=40, deep=400, mode='proof', note='', opts=None, name=None,
             min_nontrivial=1):
  """mode: 'proof' (obligations discharged + bounded cross-check) or 'bounded'."""

  def d(fn):
    CONTRACTS.append(Contract(prop, name or fn.__name__, fn, targets, cases, deep, mode, note,
                              opts or {}, min_nontrivial))
    return fn

  return d


def mark_enumerated(prop, *names):
  """Contracts whose case split over a parameter covers only a part of its range: reported apart, never as proved."""
  left = set(names)
  for c in CONTRACTS:
    if c.prop == prop and (c.name in left or not names):
      c.opts['finite'] = True
      left.discard(c.name)
  assert not left, left
