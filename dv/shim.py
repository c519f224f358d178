"""Rebinding of the modules' `tf`, `K`, `keras`, `np` names during a symbolic run.

Nothing in /repo is edited: for the duration of one symbolic execution the
globals of the loaded tensorflow_model_optimization modules that hold the real
TensorFlow are replaced by a namespace whose operations accept symbolic
tensors, and restored afterwards.  Operations without a contract raise
Unsupported when they meet a symbolic argument and run unchanged otherwise.
"""
import builtins
import contextlib
import inspect
import sys
import types
import numpy as np
from dv import core
from dv import ops
from dv import tens
from dv.core import Unsupported
from dv.tens import T, Variable

PKG = 'tensorflow_model_optimization'


def has_sym(a, depth=0):
  if isinstance(a, (T, tens.SShape)) or core.isz(a):
    return True
  if depth > 4:
    return False
  if isinstance(a, (list, tuple, set)):
    return any(has_sym(x, depth + 1) for x in a)
  if isinstance(a, dict):
    return any(has_sym(x, depth + 1) for x in a.values())
  return False


_CLS = {}


def _class_shim(real, extra, ctor=None):
  key = (real, extra)
  if key not in _CLS:

    class Meta(type):

      def __instancecheck__(cls, x):
        return isinstance(x, real) or extra(x)

      def __subclasscheck__(cls, x):
        return issubclass(x, real)

      def __getattr__(cls, n):
        return getattr(real, n)

      def __call__(cls, *a, **k):
        return (ctor or real)(*a, **k)

    _CLS[key] = Meta(real.__name__, (), {})
  return _CLS[key]


def _static(x):
  d = [tens.concrete_int(s) if hasattr(tens, 'concrete_int') else s for s in x.shape_]
  return None if any(not isinstance(v, int) for v in d) else d


def _spec_of(x, name=None):
  import tensorflow as tf
  if not isinstance(x, T):
    return tf.TensorSpec.from_tensor(x, name)
  d = _static(x)
  if d is None:
    raise Unsupported('TensorSpec of a tensor with symbolic dimensions')
  return tf.TensorSpec(d, x.dtype)


def _is_tensor(x):
  return isinstance(x, T) and not isinstance(x, Variable) and not x.py


def _is_var(x):
  return isinstance(x, Variable)


def _spec_shim(real):
  s = _class_shim(real, lambda x: False)
  type.__setattr__(s, 'from_tensor', staticmethod(_spec_of))
  return s


ALIAS = {'keras.backend.': 'K.', 'math.': '', 'compat.v1.': '', 'compat.v2.': '', 'compat.v1.math.': '', 'linalg.': ''}


PASS = ('deserialize', 'deserialize_keras_object', 'serialize_keras_object')


class NS:
  """Namespace shim over a real module."""

  def __init__(self, real, path):
    object.__setattr__(self, '_real', real)
    object.__setattr__(self, '_path', path)
    object.__setattr__(self, '_cache', {})

  def __getattr__(self, name):
    c = self._cache
    if name in c:
      return c[name]
    real = getattr(self._real, name)     # AttributeError like the real one
    full = self._path + name
    c[name] = r = self._wrap(full, name, real)
    return r

  def __dir__(self):
    return dir(self._real)

  def _wrap(self, full, name, real):
    if full in ('Tensor',):
      return _class_shim(real, _is_tensor)
    if full == 'TensorSpec':
      return _spec_shim(real)
    if full in ('Variable', 'compat.v1.Variable'):
      return _class_shim(real, _is_var, ops.OPS['Variable'])
    f = ops.OPS.get(full)
    if f is None:
      for p in sorted(ALIAS, key=len, reverse=True):
        if full.startswith(p) and ALIAS[p] + full[len(p):] in ops.OPS and not isinstance(
            real, types.ModuleType):
          f = ops.OPS[ALIAS[p] + full[len(p):]]
          break
    if f is not None:
      return _guard(f, full, real)
    if isinstance(real, types.ModuleType) or type(real).__name__ in ('TFModuleWrapper', 'KerasLazyLoader'):
      if full in ('nest',):
        return NestNS(real)
      return NS(real, full + '.')
    if isinstance(real, type) or not callable(real):
      return real

    if full.startswith('keras.') and name in PASS:
      # Keras' own serialisation code runs for real: it carries the settings through unchanged
      return real

    def g(*a, **k):
      if has_sym(a) or has_sym(k):
        raise Unsupported('operation tf.%s has no contract' % full)
      return real(*a, **k)

    g.__name__ = name
    try:
      g.__signature__ = inspect.signature(real)      # the code may ask for the arguments
    except (ValueError, TypeError):
      pass
    return g

  def __setattr__(self, n, v):
    raise Unsupported('assignment to a module attribute')


def _rename(f, real, k):
  """Keywords of the real function as those of its contract (same position); defaults spelled out are dropped."""
  mine = inspect.signature(f).parameters
  if all(n in mine for n in k) or any(p.kind == p.VAR_KEYWORD for p in mine.values()):
    return k
  theirs = inspect.signature(real).parameters
  order, pos = list(mine), list(theirs)
  out = {}
  for n, v in k.items():
    if n not in mine and n in theirs:
      if v is theirs[n].default or (not has_sym(v) and type(v) is type(theirs[n].default) and v == theirs[n].default):
        continue
      i = pos.index(n)
      if i < len(order) and order[i] not in theirs and order[i] not in k:
        n = order[i]
    out[n] = v
  return out


def _guard(f, full, real=None):
  if isinstance(f, type):
    return f

  cn = ops.canon(f)

  def g(*a, **k):
    c = core.ctx()
    if c is not None:
      c.tfops.add(cn)
    if k and real is not None:
      try:
        k = _rename(f, real, k)
      except (TypeError, ValueError):
        pass
    try:
      return f(*a, **k)
    except TypeError as e:
      tb = e.__traceback__
      # signature mismatch with our contract: not a verdict about the code
      if tb is not None and tb.tb_next is None:
        raise Unsupported('tf.%s called with arguments outside its contract: %s' % (full, e))
      raise

  g.__name__ = full
  return g


class NestNS:

  def __init__(self, real):
    self.real = real

  def flatten(self, s, expand_composites=False):
    return self.real.flatten(s)

  def map_structure(self, f, *s, **k):
    return self.real.map_structure(f, *s)

  def __getattr__(self, n):
    return getattr(self.real, n)


class NPShim:
  """numpy: symbolic arguments are routed to the tensor contracts."""
  MAP = {'abs': 'abs', 'absolute': 'abs', 'maximum': 'maximum', 'minimum': 'minimum',
         'floor': 'floor', 'round': 'round', 'sign': 'sign', 'where': 'where',
         'reshape': 'reshape', 'transpose': 'transpose', 'sqrt': 'sqrt',
         'argmin': 'argmin', 'argmax': 'argmax', 'zeros_like': 'zeros_like',
         'ones_like': 'ones_like', 'amax': 'reduce_max', 'amin': 'reduce_min',
         'max': 'reduce_max', 'min': 'reduce_min', 'sum': 'reduce_sum', 'mean': 'reduce_mean',
         'prod': 'reduce_prod', 'expand_dims': 'expand_dims', 'clip': 'clip_by_value', 'logical_and': 'logical_and',
         'logical_or': 'logical_or', 'logical_not': 'logical_not', 'power': 'pow', 'ceil': 'math.ceil'}

  def __getattr__(self, n):
    real = getattr(np, n)
    if isinstance(real, type) or not callable(real):
      return real

    def g(*a, **k):
      if not (has_sym(a) or has_sym(k)):
        return real(*a, **k)
      o = self.MAP.get(n)
      if o is None or (n == 'where' and len(a) != 3):
        raise Unsupported('np.%s on a symbolic value' % n)
      return ops.OPS[o](*a, **k)

    return g


class _SmartCond:
  """smart_cond: the branch of a constant predicate, else tf.cond."""

  def __init__(self, real):
    self._real = real

  def smart_cond(self, pred, true_fn=None, false_fn=None, name=None):
    if has_sym(pred):
      return ops.OPS['cond'](pred, true_fn, false_fn)
    return self._real.smart_cond(pred, true_fn, false_fn, name)

  def __getattr__(self, n):
    return getattr(self._real, n)


def _b_int(x=0, *a):
  if isinstance(x, T):
    t = tens.conv(x.term, 'I')
    return tens.pyint(t)
  return builtins.int(x, *a)


def _b_float(x=0.0):
  if isinstance(x, T):
    return tens.pyreal(tens.conv(x.term, 'R'))
  return builtins.float(x)


def _minmaxb(ismax):
  real = builtins.max if ismax else builtins.min

  def f(*a, **k):
    v = list(a[0]) if len(a) == 1 else list(a)
    if not has_sym(v) or k:
      return real(*a, **k)
    r = v[0]
    for x in v[1:]:
      r = ops.OPS['maximum' if ismax else 'minimum'](r, x)
    return T(r.shape_, r.dtype, r.fn, py=True)

  return f


class _IntMeta(type):

  def __instancecheck__(cls, x):
    if isinstance(x, T) and x.py and not x.shape_:
      return core.z3.is_int(x.term)
    return isinstance(x, builtins.int)

  def __subclasscheck__(cls, x):
    return issubclass(x, builtins.int)

  def __call__(cls, *a, **k):
    return _b_int(*a, **k)

  def __eq__(cls, o):
    return o is cls or o is builtins.int

  __hash__ = type.__hash__


class _FloatMeta(_IntMeta):

  def __instancecheck__(cls, x):
    if isinstance(x, T) and x.py and not x.shape_:
      return core.z3.is_real(x.term)
    return isinstance(x, builtins.float)

  def __call__(cls, *a, **k):
    return _b_float(*a, **k)

  def __subclasscheck__(cls, x):
    return issubclass(x, builtins.float)

  def __eq__(cls, o):
    return o is cls or o is builtins.float

  __hash__ = type.__hash__


IntShim = _IntMeta('int', (), {})
FloatShim = _FloatMeta('float', (), {})
BUILTINS = {'int': IntShim, 'float': FloatShim, 'max': _minmaxb(True), 'min': _minmaxb(False)}

_NS = {}


def tf_shim():
  import tensorflow as tf
  if 'tf' not in _NS:
    _NS['tf'] = NS(tf, '')
  return _NS['tf']


def k_shim(real):
  key = ('K', id(real))
  if key not in _NS:
    _NS[key] = NS(real, 'K.')
  return _NS[key]


def keras_shim(real):
  key = ('keras', id(real))
  if key not in _NS:
    _NS[key] = NS(real, 'keras.')
  return _NS[key]


@contextlib.contextmanager
def installed(modules=None):
  """Rebind in every loaded (non-test) tfmot module; restore on exit."""
  import tensorflow as tf
  try:
    import tf_keras
    kb = tf_keras.backend
  except ImportError:
    kb = tf.keras.backend
  backends = [kb]
  try:
    backends.append(tf.keras.backend)
  except Exception:  # pylint: disable=broad-except
    pass
  kerases = []
  try:
    kerases.append(tf.keras._load() if hasattr(tf.keras, '_load') else tf.keras)
  except Exception:  # pylint: disable=broad-except
    pass
  kerases.append(tf.keras)
  try:
    kerases.append(tf_keras)
  except NameError:
    pass
  undo = []
  from tensorflow.python.ops import custom_gradient as _cg
  from tensorflow.python.eager.polymorphic_function import polymorphic_function as _pf
  bind_call, fn_call = _cg.Bind.__call__, _pf.Function.__call__
  compat = tf.TensorSpec.is_compatible_with

  def sym_bind(self, *a, **k):
    if has_sym(a) or has_sym(k) or has_sym(getattr(getattr(self._f, '__self__', None), '__dict__', {})):
      return ops.OPS['custom_gradient'](self._f)(*a, **k)
    return bind_call(self, *a, **k)

  def sym_fn(self, *a, **k):
    if has_sym(a) or has_sym(k):
      return self.python_function(*a, **k)
    return fn_call(self, *a, **k)

  def sym_compat(self, x):
    if isinstance(x, T):
      d = _static(x)
      if d is None:
        raise Unsupported('TensorSpec of a tensor with symbolic dimensions')
      return self.shape.is_compatible_with(d) and self.dtype == x.dtype
    return compat(self, x)

  tf.TensorSpec.is_compatible_with = sym_compat
  _cg.Bind.__call__, _pf.Function.__call__ = sym_bind, sym_fn
  try:
    for nm, m in list(sys.modules.items()):
      if m is None or not nm.startswith(PKG) or nm.endswith('_test'):
        continue
      d = m.__dict__
      for g, v in list(d.items()):
        if v is tf or getattr(v, '__name__', None) == 'tensorflow' and isinstance(v, types.ModuleType):
          undo.append((d, g, v, True))
          d[g] = tf_shim()
        elif any(v is b for b in backends):
          undo.append((d, g, v, True))
          d[g] = k_shim(v)
        elif any(v is kk for kk in kerases):
          undo.append((d, g, v, True))
          d[g] = keras_shim(v)
        elif getattr(v, '__name__', None) == 'tensorflow.python.framework.smart_cond':
          undo.append((d, g, v, True))
          d[g] = _SmartCond(v)
        elif v is np:
          undo.append((d, g, v, True))
          d[g] = NPShim()
      for b, s in BUILTINS.items():
        if b not in d:
          undo.append((d, b, None, False))
          d[b] = s
    yield
  finally:
    _cg.Bind.__call__, _pf.Function.__call__ = bind_call, fn_call
    tf.TensorSpec.is_compatible_with = compat
    for d, g, v, had in reversed(undo):
      if had:
        d[g] = v
      else:
        d.pop(g, None)
