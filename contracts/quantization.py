"""Contracts: quantizers, quantize configs, quantize wrappers, model transformations."""
import types
from dv.api import *  # noqa
from dv import ops

QO = 'quantization.keras.quant_ops'
QZ = 'quantization.keras.quantizers'
Q8 = 'quantization.keras.default_8bit.default_8bit_quantizers'
QN = 'quantization.keras.experimental.default_n_bit.default_n_bit_quantizers'
R8 = 'quantization.keras.default_8bit.default_8bit_quantize_registry'
RN = 'quantization.keras.experimental.default_n_bit.default_n_bit_quantize_registry'
C8 = 'quantization.keras.default_8bit.default_8bit_quantize_configs'
CN = 'quantization.keras.experimental.default_n_bit.default_n_bit_quantize_configs'
QW = 'quantization.keras.quantize_wrapper'
QL = 'quantization.keras.quantize_layer'
QA = 'quantization.keras.quantize_aware_activation'
QC = 'quantization.keras.quantize_config'


def _mod(name):
  import importlib
  return importlib.import_module('tensorflow_model_optimization.python.core.' + name)


def _tfm():
  import tensorflow as tf
  return tf


def fq(c, x, mn, mx, bits, narrow, per_axis=False):
  """The fake-quantisation TF op the library must end up in."""
  n = 'fake_quant_with_min_max_vars' + ('_per_channel' if per_axis else '')
  if c.symbolic:
    return ops.OPS['quantization.' + n](x, mn, mx, num_bits=bits, narrow_range=narrow)
  return getattr(_tfm().quantization, n)(x, mn, mx, num_bits=bits, narrow_range=narrow)


def _rmm(c, x, per_axis):
  """(min, max) over all elements, or per last axis."""
  r = len(dims(x))
  ax = None if not per_axis else list(range(r - 1))
  if per_axis and r == 1:
    return x, x
  if c.symbolic:
    return ops.OPS['reduce_min'](x, axis=ax), ops.OPS['reduce_max'](x, axis=ax)
  return _tfm().reduce_min(x, axis=ax), _tfm().reduce_max(x, axis=ax)


def _setting(c, per_axis_ok=True, bits=(8, 4, 2, 16)):
  sym, nar = c.choice('symmetric', [False, True]), c.choice('narrow', [False, True])
  pa = c.choice('per_axis', [False, True]) if per_axis_ok else False
  b = c.choice('bits', list(bits))
  return b, pa, sym, nar


def _state(c, pa, last):
  shape = [last] if pa else []
  return c.var('min_var', shape, gen=lambda r, k: [-r.choice([6.0, 0.0, 0.5]) for _ in range(k)]), c.var(
      'max_var', shape, gen=lambda r, k: [r.choice([6.0, 0.0, 0.5]) for _ in range(k)])


def _data(r, n):
  k = r.random()
  lo, hi = (0.1, 3) if k < .2 else (-3, -0.1) if k < .4 else (-2, 2)
  return [round(r.uniform(lo, hi), 2) for _ in range(n)]


def _input(c, pa, ranks=None):
  r = c.choice('rank', ranks or ([2, 4, 1] if pa else [2, 1, 3, 4]))
  shape = [c.dim('d%d' % k, 1, 3) for k in range(r)]
  return shape, c.tensor('x', shape, gen=_data)


def _ratio(b, nar):
  """What max / min must be with symmetric ranges."""
  if nar:
    return -1
  return -(2.0 ** b - 2) / 2.0 ** b


def _eqf(c, a, b):
  return eq(a, b, 1e-5) if not c.symbolic else eq(a, b)


def _rmul(a, r):
  from fractions import Fraction
  if isz(a):
    return a * z3.RealVal(str(Fraction(r)))
  return a * r


def _quantizer(c, cls, b, pa, sym, nar):
  return getattr(_mod(QZ), cls)(b, pa, sym, nar)


def _range_clauses(c, x, shape, mn, mx, b, pa, sym, nar):
  """The stored range after one training call of a last-value quantizer."""
  bm, bM = _rmm(c, x, pa)
  ch = [shape[-1]] if pa else []
  g = lambda t: (lambda *i: el(t, *i)) if pa else (lambda *i: val(t))
  m, M, lo, hi = g(mn), g(mx), g(bm), g(bM)
  at = (lambda i: (i[-1],)) if pa else (lambda i: ())
  c.prove('range_contains_zero', c.forall(ch, lambda *i: And(le(m(*i), 0), ge(M(*i), 0))))
  c.prove('range_contains_every_value', c.forall(shape, lambda *i: And(
      le(m(*at(i)), el(x, *i), 1e-5), le(el(x, *i), M(*at(i)), 1e-5))))
  if sym:
    r = _ratio(b, nar)
    c.prove('range_is_symmetric', c.forall(ch, lambda *i: _eqf(c, M(*i), _rmul(m(*i), r))))
    c.prove('range_is_tight', c.forall(ch, lambda *i: Or(_eqf(c, m(*i), lo(*i)), _eqf(c, M(*i), hi(*i)))))
  else:
    c.prove('range_is_tight', c.forall(ch, lambda *i: And(
        Or(_eqf(c, m(*i), lo(*i)), And(_eqf(c, m(*i), 0), ge(lo(*i), 0))),
        Or(_eqf(c, M(*i), hi(*i)), And(_eqf(c, M(*i), 0), le(hi(*i), 0))))))


def _same(c, a, b, shape=None):
  shape = dims(a) if shape is None else shape
  if not shape:
    return _eqf(c, val(a), val(b))
  return And(same_shape(a, b), c.forall(shape, lambda *i: _eqf(c, el(a, *i), el(b, *i))))


@contract('Q01', [QO + ':LastValueQuantize', QZ + ':LastValueQuantizer.__call__'], cases=120, deep=1000)
def last_value_range(c):
  """After a training call the range is the batch's own: zero and every value inside, tight, symmetric."""
  b, pa, sym, nar = _setting(c)
  shape, x = _input(c, pa)
  mn, mx = _state(c, pa, shape[-1])
  q = _quantizer(c, 'LastValueQuantizer', b, pa, sym, nar)
  y = q(x, True, {'min_var': mn, 'max_var': mx})
  m1, M1 = snapshot(mn), snapshot(mx)
  _range_clauses(c, x, shape, m1, M1, b, pa, sym, nar)
  c.prove('quantised_with_the_new_range', _same(c, y, fq(c, x, m1, M1, b, nar, pa), shape))


def _target(c, x, pa, b, sym, nar):
  """The range of one batch: the last-value contract, as (min, max) terms per channel."""
  bm, bM = _rmm(c, x, pa)

  def f(*i):
    lo, hi = (el(bm, *i), el(bM, *i)) if pa else (val(bm), val(bM))
    if sym:
      from fractions import Fraction
      r = _ratio(b, nar)
      inv = 1 / Fraction(r)
      inv = z3.RealVal(str(inv)) if isz(lo) else float(inv)
      r = z3.RealVal(str(Fraction(r))) if isz(lo) else r
      return minz(lo, hi * inv), maxz(hi, lo * r)
    return minz(lo, toreal(z3.IntVal(0)) if isz(lo) else 0.0), maxz(hi, toreal(z3.IntVal(0)) if isz(lo) else 0.0)

  return f


@contract('Q01', [QO + ':MovingAvgQuantize', QZ + ':MovingAverageQuantizer.__call__'], cases=120, deep=1000)
def moving_average_range(c):
  """new = 0.999 * old + 0.001 * batch range, from any stored range; zero stays inside."""
  b, pa, sym, nar = _setting(c)
  shape, x = _input(c, pa)
  mn, mx = _state(c, pa, shape[-1])
  m0, M0 = snapshot(mn), snapshot(mx)
  ch = [shape[-1]] if pa else []
  g = lambda t: (lambda *i: el(t, *i)) if pa else (lambda *i: val(t))
  if c.symbolic:
    if pa:
      c.add_univ(ch, lambda i: And(m0.at(i) <= 0, M0.at(i) >= 0), 'stored range contains zero')
    else:
      c.assume(And(le(val(m0), 0), ge(val(M0), 0)))
  q = _quantizer(c, 'MovingAverageQuantizer', b, pa, sym, nar)
  y = q(x, True, {'min_var': mn, 'max_var': mx})
  m1, M1 = snapshot(mn), snapshot(mx)
  t = _target(c, x, pa, b, sym, nar)
  d = z3.RealVal('999/1000') if c.symbolic else 0.999
  # the decay the code passes is the float 0.999
  if c.symbolic:
    from dv.tens import _realval
    d = _realval(0.999)
  c.prove('moving_average', c.forall(ch, lambda *i: And(
      _eqf(c, g(m1)(*i), g(m0)(*i) * d + t(*i)[0] * (1 - d)),
      _eqf(c, g(M1)(*i), g(M0)(*i) * d + t(*i)[1] * (1 - d)))))
  c.prove('range_contains_zero', c.forall(ch, lambda *i: And(le(g(m1)(*i), 0), ge(g(M1)(*i), 0))))
  c.prove('quantised_with_the_new_range', _same(c, y, fq(c, x, m1, M1, b, nar, pa), shape))


@contract('Q01', [QO + ':AllValuesQuantize', QZ + ':AllValuesQuantizer.__call__'], cases=120, deep=1000)
def all_values_range(c):
  """From any stored range: the new one contains the old one, zero and the batch; grows no more than needed."""
  b, pa, sym, nar = _setting(c)
  shape, x = _input(c, False)
  mn, mx = _state(c, False, None)
  m0, M0 = snapshot(mn), snapshot(mx)
  q = _quantizer(c, 'AllValuesQuantizer', b, pa, sym, nar)
  y = q(x, True, {'min_var': mn, 'max_var': mx})
  m1, M1 = snapshot(mn), snapshot(mx)
  t = _target(c, x, False, b, sym, nar)()
  c.prove('never_shrinks', And(le(val(m1), val(m0)), ge(val(M1), val(M0))))
  c.prove('range_contains_zero', And(le(val(m1), 0), ge(val(M1), 0)))
  c.prove('range_contains_every_value', c.forall(shape, lambda *i: And(
      le(val(m1), el(x, *i), 1e-5), le(el(x, *i), val(M1), 1e-5))))
  c.prove('range_is_tight', And(Or(_eqf(c, val(m1), val(m0)), _eqf(c, val(m1), t[0]), _eqf(c, val(m1), 0)),
                                Or(_eqf(c, val(M1), val(M0)), _eqf(c, val(M1), t[1]), _eqf(c, val(M1), 0))))
  c.prove('quantised_with_the_new_range', _same(c, y, fq(c, x, m1, M1, b, nar), shape))


class Host:
  """Stands for the Keras layer a quantizer adds its variables to."""

  def __init__(self, c):
    self.c, self.made = c, []
    self.name = 'host'

  def add_weight(self, name=None, shape=None, dtype=None, initializer=None, trainable=None, **k):
    shape = [] if shape is None else [shape] if not isinstance(shape, (list, tuple)) else list(shape)
    init = initializer.get_config().get('value') if hasattr(initializer, 'get_config') else None
    if self.c.symbolic:
      from dv.tens import fresh_tensor
      v = Variable(lift(ops.OPS['fill'](shape, init) if init is not None else fresh_tensor(
          'init%d' % len(self.made), shape, dtype or 'float32')), name)
    else:
      v = _tfm().Variable(initializer(shape, dtype=_tfm().float32), trainable=bool(trainable))
    self.made.append((name, v, trainable, init))
    return v


@contract('Q01', [QZ + ':_QuantizeHelper._add_range_weights', QZ + ':LastValueQuantizer.build',
                  QZ + ':MovingAverageQuantizer.build', QZ + ':AllValuesQuantizer.build',
                  Q8 + ':Default8BitConvWeightsQuantizer.build', QN + ':DefaultNBitConvWeightsQuantizer.build'],
          cases=60, deep=300)
def initial_range(c):
  """The variables a quantizer builds: one range (per channel if per axis) around zero, not trainable."""
  k = c.choice('kind', ['LastValueQuantizer', 'MovingAverageQuantizer', 'AllValuesQuantizer', '8', 'N'])
  pa = c.choice('per_axis', [False, True])
  r = c.choice('rank', [1, 2, 4])
  shape = [c.dim('d%d' % j, 1, 4) for j in range(r)]
  if k == '8':
    q, pa = _mod(Q8).Default8BitConvWeightsQuantizer(), True
  elif k == 'N':
    q, pa = _mod(QN).DefaultNBitConvWeightsQuantizer(4, 8), True
  else:
    q = _quantizer(c, k, 8, pa, False, False)
  h = Host(c)
  ts = shape
  if not c.symbolic:
    ts = _tfm().TensorShape(shape)
  v = q.build(ts, 'w', h)
  mn, mx = v['min_var'], v['max_var']
  pa = pa and k != 'AllValuesQuantizer'
  c.prove('shape', And(len(dims(mn)) == (1 if pa else 0), len(dims(mx)) == (1 if pa else 0),
                       *([eq(dims(mn)[0], shape[-1]), eq(dims(mx)[0], shape[-1])] if pa else [])))
  ch = [shape[-1]] if pa else []
  g = lambda t: (lambda *i: el(t, *i)) if pa else (lambda *i: val(t))
  c.prove('initial_range_contains_zero', c.forall(ch, lambda *i: And(le(g(mn)(*i), 0), ge(g(mx)(*i), 0))))
  c.prove('not_trainable', len(h.made) == 2 and all(not t for _, _, t, _ in h.made))
  c.prove('separate_variables', mn is not mx and len(set(n for n, _, _, _ in h.made)) == 2)


# --- inference ----------------------------------------------------------------
@contract('Q02', [QO + ':LastValueQuantize', QO + ':MovingAvgQuantize', QO + ':AllValuesQuantize',
                  QZ + ':LastValueQuantizer.__call__', QZ + ':MovingAverageQuantizer.__call__',
                  QZ + ':AllValuesQuantizer.__call__'], cases=150, deep=1200)
def inference_uses_stored_range(c):
  """Not training: the stored range is used as is and never changed."""
  k = c.choice('kind', ['LastValueQuantizer', 'MovingAverageQuantizer', 'AllValuesQuantizer'])
  b, pa, sym, nar = _setting(c, per_axis_ok=k != 'AllValuesQuantizer')
  shape, x = _input(c, pa)
  mn, mx = _state(c, pa, shape[-1])
  m0, M0 = snapshot(mn), snapshot(mx)
  q = _quantizer(c, k, b, pa, sym, nar)
  y = q(x, False, {'min_var': mn, 'max_var': mx})
  c.prove('range_unchanged', And(_same(c, snapshot(mn), m0), _same(c, snapshot(mx), M0)))
  c.prove('quantised_with_the_stored_range', _same(c, y, fq(c, x, m0, M0, b, nar, pa), shape))


@contract('Q02', [QO + ':LastValueQuantize', QO + ':MovingAvgQuantize', QO + ':AllValuesQuantize', QO + ':FixedQuantize'],
          cases=60, deep=300)
def documented_defaults(c):
  """Without further settings: 8 bits, full range, per tensor; [-6, 6] for the fixed operation."""
  k = c.choice('kind', ['LastValueQuantize', 'MovingAvgQuantize', 'AllValuesQuantize', 'FixedQuantize'])
  shape, x = _input(c, False)
  if k == 'FixedQuantize':
    y = _mod(QO).FixedQuantize(x)
    e = (fq(c, x, lift(-6.0), lift(6.0), 8, False) if c.symbolic else
         _tfm().quantization.fake_quant_with_min_max_args(x, -6.0, 6.0, 8, False))
  else:
    mn, mx = _state(c, False, shape[-1])
    y = getattr(_mod(QO), k)(x, mn, mx, is_training=False)
    e = fq(c, x, snapshot(mn), snapshot(mx), 8, False, False)
  c.prove('eight_bits_full_range', _same(c, y, e, shape))


@contract('Q02', [QO + ':FixedQuantize', QZ + ':FixedQuantizer.__call__', QZ + ':NoQuantizer.__call__'],
          cases=80, deep=500)
def fixed_and_no_quantizer(c):
  """The fixed quantizer always uses its own range; the no-quantizer returns its input."""
  b = c.choice('bits', [8, 4, 2, 16])
  nar = c.choice('narrow', [False, True])
  tr = c.choice('training', [False, True])
  lo, hi = (-6.0, 6.0) if c.symbolic else (c.choice('lo', [-6.0, -1.0, 0.0]), c.choice('hi', [6.0, 1.5]))
  if c.symbolic:
    lo, hi = c.real('lo'), c.real('hi')
    c.assume(val(lo) < val(hi))
  shape, x = _input(c, False)
  y = _mod(QZ).FixedQuantizer(b, lo, hi, nar)(x, tr, None)
  if c.symbolic:
    e = fq(c, x, lift(lo), lift(hi), b, nar)
  else:
    e = _tfm().quantization.fake_quant_with_min_max_args(x, lo, hi, b, nar)
  c.prove('quantised_with_the_fixed_range', _same(c, y, e, shape))
  z = _mod(QZ).NoQuantizer()(x, tr, None)
  c.prove('no_quantizer_is_identity', _same(c, z, x, shape))


@contract('Q02', [Q8 + ':Default8BitConvTransposeWeightsQuantizer.__call__',
                  QN + ':DefaultNBitConvTransposeWeightsQuantizer.__call__',
                  Q8 + ':Default8BitConvWeightsQuantizer.__init__', QN + ':DefaultNBitConvWeightsQuantizer.__init__'],
          cases=100, deep=800)
def convolution_weight_quantizers(c):
  """Convolution kernels: per channel, symmetric, narrow, with the configured bits; transposed ones per tensor."""
  nb = c.choice('n_bit', [False, True])
  b = c.choice('bits', [4, 2, 8]) if nb else 8
  tr = c.choice('training', [True, False])
  tp = c.choice('transposed', [False, True])
  shape, x = _input(c, not tp, [4])
  mn, mx = _state(c, not tp, shape[-1])
  name = 'ConvTransposeWeightsQuantizer' if tp else 'ConvWeightsQuantizer'
  q = getattr(_mod(QN), 'DefaultNBit' + name)(b, 8) if nb else getattr(_mod(Q8), 'Default8Bit' + name)()
  m0, M0 = snapshot(mn), snapshot(mx)
  y = q(x, tr, {'min_var': mn, 'max_var': mx})
  m1, M1 = snapshot(mn), snapshot(mx)
  if tr:
    _range_clauses(c, x, shape, m1, M1, b, not tp, True, True)
  else:
    c.prove('range_unchanged', And(_same(c, m1, m0), _same(c, M1, M0)))
  c.prove('quantised_with_the_stored_range', _same(c, y, fq(c, x, m1, M1, b, True, not tp), shape))


# --- configuration --------------------------------------------------------------
@contract('Q03', [QZ + ':%s.%s' % (k, m) for k in ('LastValueQuantizer', 'MovingAverageQuantizer',
                                                   'AllValuesQuantizer', 'FixedQuantizer', 'NoQuantizer')
                  for m in ('get_config', '__eq__')] + [QZ + ':Quantizer.from_config'], cases=120, deep=800)
def quantizer_round_trip(c):
  """from_config(get_config()) keeps every setting; equality holds exactly when all settings agree."""
  Z = _mod(QZ)
  k = c.choice('kind', ['LastValueQuantizer', 'MovingAverageQuantizer', 'AllValuesQuantizer', 'FixedQuantizer',
                        'NoQuantizer'])
  cls = getattr(Z, k)
  names = {'FixedQuantizer': ['num_bits', 'init_min', 'init_max', 'narrow_range'], 'NoQuantizer': []}.get(
      k, ['num_bits', 'per_axis', 'symmetric', 'narrow_range'])

  def settings(tag):
    o = {}
    for n in names:
      o[n] = c.int(n + tag, 2, 16) if n == 'num_bits' else c.real(n + tag, -9, 9) if n.startswith(
          'init') else c.bool(n + tag)
    return o

  a = settings('')
  q = cls(**a)
  cfg = q.get_config()
  q2 = cls.from_config(cfg)
  c.prove('same_type', type(q2) is cls)
  for n in names:
    c.prove('setting_' + n, eq(val(getattr(q2, n)), val(a[n])))
  c.prove('config_is_complete', set(cfg) == set(names))
  c.prove('equal_after_round_trip', bool(q == q2) and not bool(q != q2))
  other = settings('_2')
  r = cls(**other)
  same = And([eq(val(a[n]), val(other[n])) for n in names])
  e, ne = bool(q == r), bool(q != r)
  c.prove('equality_means_same_settings', Iff(same, e) if not isinstance(same, bool) else same == e)
  c.prove('inequality_is_the_negation', ne == (not e))
  for o in ('LastValueQuantizer', 'MovingAverageQuantizer', 'AllValuesQuantizer'):
    if o != k:
      c.prove('other_types_differ', not bool(q == getattr(Z, o)(8, False, False, False)))


# --- quantize configs -----------------------------------------------------------
class Holder:
  """A layer: an object with attributes."""

  def __init__(self, **k):
    self.__dict__.update(k)


_CFGS = ['Quantize', 'ConvQuantize', 'ConvTransposeQuantize']


def _config(c, nb, kind_, wa, aa, qo, bw, ba):
  if nb:
    return getattr(_mod(RN), 'DefaultNBit%sConfig' % kind_)(wa, aa, qo, bw, ba)
  return getattr(_mod(R8), 'Default8Bit%sConfig' % kind_)(wa, aa, qo)


def _bits_pair(c, nb):
  if not nb:
    return 8, 8
  return c.int('bits_weight', 2, 8), c.int('bits_activation', 2, 8)


def _is_setting(q, b, pa, sym, nar):
  return And(eq(val(q.num_bits), val(b)), q.per_axis == pa, q.symmetric == sym, q.narrow_range == nar)


@contract('Q04', [r + ':Default%sBit%s' % (n, m) for r, n in ((R8, '8'), (RN, 'N')) for m in (
    'QuantizeConfig.get_weights_and_quantizers', 'QuantizeConfig.get_activations_and_quantizers',
    'QuantizeConfig.set_quantize_weights', 'QuantizeConfig.set_quantize_activations',
    'QuantizeConfig.get_output_quantizers', 'ConvQuantizeConfig.__init__', 'ConvTransposeQuantizeConfig.__init__')],
          cases=150, deep=1000)
def config_gets_and_sets_attributes(c):
  """get_* lists exactly the configured attributes with the scheme's quantizers; set_* writes them back in order."""
  nb = c.choice('n_bit', [False, True])
  kind_ = c.choice('kind', _CFGS)
  nw, na = c.choice('weights', [1, 0, 2, 3]), c.choice('activations', [1, 0, 2])
  qo = c.choice('quantize_output', [False, True])
  bw, ba = _bits_pair(c, nb)
  wa, aa = ['w%d' % k for k in range(nw)], ['a%d' % k for k in range(na)]
  cfg = _config(c, nb, kind_, list(wa), list(aa), qo, bw, ba)
  shapes = [[c.dim('r%d' % k, 1, 3), c.dim('s%d' % k, 1, 3)] for k in range(nw)]
  old = [c.tensor('old%d' % k, s) for k, s in enumerate(shapes)]
  new = [c.tensor('new%d' % k, s) for k, s in enumerate(shapes)]
  acts, acts2 = [object() for _ in aa], [object() for _ in aa]
  layer = Holder(other='kept', name='layer', **dict(zip(wa, old)), **dict(zip(aa, acts)))
  g = cfg.get_weights_and_quantizers(layer)
  c.prove('weights_in_order', len(g) == nw and all(w is o for (w, _), o in zip(g, old)))
  conv, tr = kind_ == 'ConvQuantize', kind_ == 'ConvTransposeQuantize'
  c.prove('weight_quantizers', And(True, *[And(isinstance(q, _mod(QZ).LastValueQuantizer),
                                               _is_setting(q, bw, conv, True, True)) for _, q in g]))
  g = cfg.get_activations_and_quantizers(layer)
  c.prove('activations_in_order', len(g) == na and all(a is o for (a, _), o in zip(g, acts)))
  c.prove('activation_quantizers', And(True, *[And(isinstance(q, _mod(QZ).MovingAverageQuantizer),
                                                   _is_setting(q, ba, False, False, False)) for _, q in g]))
  o = cfg.get_output_quantizers(layer)
  c.prove('output_quantizer', And(len(o) == (1 if qo else 0), *[And(
      isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False)) for q in o]))
  # wrong number of values: rejected, nothing changed
  if nw:
    e, _ = c.raises(cfg.set_quantize_weights, layer, new[1:])
    c.prove('too_few_weights_rejected', isinstance(e, ValueError))
  e, _ = c.raises(cfg.set_quantize_weights, layer, new + [old[0] if old else object()])
  c.prove('too_many_weights_rejected', isinstance(e, ValueError))
  e, _ = c.raises(cfg.set_quantize_activations, layer, acts2 + [None])
  c.prove('too_many_activations_rejected', isinstance(e, ValueError))
  c.prove('rejection_changes_nothing', all(getattr(layer, n) is v for n, v in zip(wa + aa, old + acts)))
  cfg.set_quantize_weights(layer, list(new))
  c.prove('weights_set_in_order', all(getattr(layer, n) is v for n, v in zip(wa, new)))
  c.prove('frame_weights', layer.other == 'kept' and all(getattr(layer, n) is v for n, v in zip(aa, acts)))
  cfg.set_quantize_activations(layer, list(acts2))
  c.prove('activations_set_in_order', all(getattr(layer, n) is v for n, v in zip(aa, acts2)))
  c.prove('frame_activations', layer.other == 'kept' and all(getattr(layer, n) is v for n, v in zip(wa, new)))
  if nw:
    bad = c.tensor('bad', [c.dim('br', 1, 3), c.dim('bs', 1, 3)])
    same = And(eq(dims(bad)[0], shapes[nw - 1][0]), eq(dims(bad)[1], shapes[nw - 1][1]))
    e, _ = c.raises(cfg.set_quantize_weights, layer, new[:-1] + [bad])
    c.prove('shape_mismatch_rejected', Iff(same, e is None) if isz(same) else same == (e is None))
    c.prove('rejection_is_value_error', e is None or isinstance(e, ValueError))


@contract('Q04', [r + ':Default%sBit%s' % (n, m) for r, n in ((R8, '8'), (RN, 'N')) for m in (
    'QuantizeConfig.get_config', 'QuantizeConfig.from_config', 'QuantizeConfig.__eq__')],
          cases=150, deep=800)
def config_round_trip(c):
  """from_config(get_config()) is an equal config; different settings are unequal."""
  nb = c.choice('n_bit', [False, True])
  kind_ = c.choice('kind', _CFGS)
  lists = [['kernel'], [], ['kernel', 'recurrent_kernel']]
  wa, aa = c.choice('weights', lists), c.choice('activations', [['activation'], []])
  qo = c.choice('quantize_output', [False, True])
  bw, ba = _bits_pair(c, nb)
  cfg = _config(c, nb, kind_, wa, aa, qo, bw, ba)
  d = cfg.get_config()
  keys = set(d)
  cfg2 = type(cfg).from_config(d)
  c.prove('config_not_consumed', set(d) == keys)
  c.prove('equal_after_round_trip', And(type(cfg2) is type(cfg), bool(cfg == cfg2), not bool(cfg != cfg2)))
  lay = Holder(kernel=1, recurrent_kernel=2, activation=3)
  a, b = cfg.get_weights_and_quantizers(lay), cfg2.get_weights_and_quantizers(lay)
  c.prove('same_weights', [x for x, _ in a] == [x for x, _ in b] and all(bool(p == q) for (_, p), (_, q) in zip(a, b)))
  o, o2 = cfg.get_output_quantizers(lay), cfg2.get_output_quantizers(lay)
  c.prove('same_output_quantizers', len(o) == len(o2) and all(bool(p == q) for p, q in zip(o, o2)))
  wa2, aa2 = c.choice('weights_2', lists), c.choice('activations_2', [['activation'], []])
  other = _config(c, nb, kind_, wa2, aa2, True, bw, ba)
  same = wa == wa2 and aa == aa2 and qo
  c.prove('equality_means_same_settings', bool(cfg == other) == same)
  if nb:
    b3 = c.int('bits_weight_2', 2, 8)
    o3 = _config(c, nb, kind_, wa, aa, qo, b3, ba)
    e = bool(cfg == o3)
    s = eq(val(b3), val(bw))
    c.prove('weight_bits_matter', Iff(s, e) if isz(s) else s == e)


@contract('Q04', [r + ':Default%sBitQuantizeConfigRNN.%s' % (n, m) for r, n in ((R8, '8'), (RN, 'N')) for m in (
    'get_weights_and_quantizers', 'set_quantize_weights', 'get_activations_and_quantizers',
    'set_quantize_activations')], cases=80, deep=500)
def rnn_config_addresses_cells(c):
  """For stacked cells each configured attribute belongs to its own cell, in order."""
  nb = c.choice('n_bit', [False, True])
  n = c.choice('cells', [1, 2, 3])
  per = [c.choice('attrs%d' % k, [['k', 'r'], ['k'], []]) for k in range(n)]
  acts = [['a', 'b'] if p else ['a'] for p in per]
  keras = _mod('keras.compat').keras
  cells = [Holder(a='a%d' % k, b='b%d' % k, **{m: c.tensor('%s%d' % (m, k), [c.dim('d%s%d' % (m, k), 1, 3)])
                                               for m in ('k', 'r')}) for k in range(n)]
  if n == 1:
    cell = cells[0]
  else:
    cell = object.__new__(keras.layers.StackedRNNCells)
    object.__setattr__(cell, '_obj_reference_counts_dict', {})
    object.__setattr__(cell, 'cells', cells)
  layer = Holder(cell=cell, name='rnn')
  cls = _mod(RN).DefaultNBitQuantizeConfigRNN if nb else _mod(R8).Default8BitQuantizeConfigRNN
  cfg = cls([list(p) for p in per], [list(p) for p in acts], False)
  flat = [(cells[k], m) for k in range(n) for m in per[k]]
  fa = [(cells[k], m) for k in range(n) for m in acts[k]]
  g = cfg.get_weights_and_quantizers(layer)
  c.prove('weights_of_each_cell', len(g) == len(flat) and all(w is getattr(o, m) for (w, _), (o, m) in zip(g, flat)))
  g = cfg.get_activations_and_quantizers(layer)
  c.prove('activations_of_each_cell', len(g) == len(fa) and all(w is getattr(o, m) for (w, _), (o, m) in zip(g, fa)))
  new = [c.tensor('new%d' % k, dims(getattr(o, m))) for k, (o, m) in enumerate(flat)]
  before = [dict(o.__dict__) for o in cells]
  cfg.set_quantize_weights(layer, new)
  c.prove('weights_set', all(getattr(o, m) is v for (o, m), v in zip(flat, new)))
  c.prove('frame', all(getattr(o, m) is b[m] for o, b, p in zip(cells, before, per) for m in b if m not in p))
  na = [object() for _ in fa]
  cfg.set_quantize_activations(layer, na)
  c.prove('activations_set', all(getattr(o, m) is v for (o, m), v in zip(fa, na)))
  e, _ = c.raises(cfg.set_quantize_weights, layer, new + [None])
  c.prove('wrong_count_rejected', isinstance(e, ValueError))


@contract('Q04', [m + ':%s.%s' % (k, f) for m, k in (
    (R8, 'Default8BitActivationQuantizeConfig'), (RN, 'DefaultNBitActivationQuantizeConfig'),
    (C8, 'Default8BitOutputQuantizeConfig'), (CN, 'DefaultNBitOutputQuantizeConfig'), (C8, 'NoOpQuantizeConfig'),
    (CN, 'NoOpQuantizeConfig')) for f in (
        'get_output_quantizers', 'get_weights_and_quantizers', 'get_activations_and_quantizers',
        'set_quantize_weights', 'set_quantize_activations', 'get_config')],
          cases=120, deep=600)
def output_only_configs(c):
  """Configs that only quantise an output: which outputs, with what quantizer; they never touch the layer."""
  nb = c.choice('n_bit', [False, True])
  kind_ = c.choice('kind', ['Activation', 'Output', 'NoOp'])
  bw, ba = _bits_pair(c, nb)
  qo = True if nb else c.choice('quantize_output', [True, False])
  keras = _mod('keras.compat').keras
  act = c.choice('activation', ['relu', 'relu6', 'swish', 'linear', 'softmax', 'sigmoid', 'tanh', 'elu', 'custom'])
  layer = Holder(activation=_named(c, act), kernel=3, name='layer')
  if kind_ == 'Activation':
    cls = _mod(RN).DefaultNBitActivationQuantizeConfig if nb else _mod(R8).Default8BitActivationQuantizeConfig
    cfg = cls(bw, ba) if nb else cls(qo)
    e, _ = c.raises(cfg.get_output_quantizers, layer)
    c.prove('other_layers_rejected', isinstance(e, RuntimeError))
    layer = keras.layers.Activation(_named(c, act))
    if act in ('elu', 'custom') and qo:
      e, _ = c.raises(cfg.get_output_quantizers, layer)
      c.prove('unsupported_activation_rejected', isinstance(e, ValueError))
      return
    want = qo and act in ('relu', 'relu6', 'swish')
  elif kind_ == 'Output':
    cls = _mod(CN).DefaultNBitOutputQuantizeConfig if nb else _mod(C8).Default8BitOutputQuantizeConfig
    cfg = cls(bw, ba) if nb else cls(qo)
    want = qo
  elif kind_ == 'NoOp':
    cls = (_mod(CN) if nb else _mod(C8)).NoOpQuantizeConfig
    cfg, want = cls(), False
  before = dict(layer.__dict__) if isinstance(layer, Holder) else layer.get_config()
  o = cfg.get_output_quantizers(layer)
  c.prove('output_quantizer', And(len(o) == (1 if want else 0), *[And(
      isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False)) for q in o]))
  c.prove('no_weights_no_activations', list(cfg.get_weights_and_quantizers(layer)) == [] and list(
      cfg.get_activations_and_quantizers(layer)) == [])
  cfg.set_quantize_weights(layer, [])
  cfg.set_quantize_activations(layer, [])
  c.prove('layer_untouched', (dict(layer.__dict__) if isinstance(layer, Holder) else layer.get_config()) == before)
  o2 = cls.from_config(cfg.get_config()).get_output_quantizers(layer)
  c.prove('round_trip', len(o2) == len(o) and all(bool(p == q) for p, q in zip(o, o2)))


@contract('Q04', [QC + ':%s.%s' % (k, f) for k in ('OutputOnlyConfig', 'FixedQuantizeConfig') for f in (
    'get_weights_and_quantizers', 'set_quantize_weights', 'get_activations_and_quantizers',
    'set_quantize_activations', 'get_output_quantizers', 'get_config', 'from_config')], cases=120, deep=600)
def wrapping_configs(c):
  """Output-only drops the weights and delegates the rest; fixed-range replaces activation and output quantizers."""
  fixed = c.choice('fixed', [True, False])
  nw, na = c.choice('weights', [1, 0, 2]), c.choice('activations', [1, 0, 2])
  qo = c.choice('quantize_output', [True, False])
  wa, aa = ['w%d' % k for k in range(nw)], ['a%d' % k for k in range(na)]
  inner = _mod(R8).Default8BitQuantizeConfig(list(wa), list(aa), qo)
  w0, a0 = [c.tensor('w%d' % k, [2]) for k in range(nw)], [object() for _ in aa]
  layer = Holder(other='kept', name='layer', **dict(zip(wa, w0)), **dict(zip(aa, a0)))
  st = dict(num_bits=c.int('bits', 2, 16), init_min=c.real('lo', -9, 0), init_max=c.real('hi', 1, 9),
            narrow_range=c.choice('narrow', [False, True]))
  if fixed:
    cfg = _mod(QC).FixedQuantizeConfig(inner, st['num_bits'], st['init_min'], st['init_max'], st['narrow_range'])
  else:
    cfg = _mod(QC).OutputOnlyConfig(inner)

  def is_fixed(q):
    return And(isinstance(q, _mod(QZ).FixedQuantizer), *[eq(val(getattr(q, n)), val(v)) for n, v in st.items()])

  def is_ma(q):
    return And(isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, 8, False, False, False))

  def judge(cfg, tag):
    g = cfg.get_weights_and_quantizers(layer)
    if fixed:
      c.prove('weights' + tag, And(len(g) == nw, *[And(w is o, isinstance(q, _mod(QZ).LastValueQuantizer), _is_setting(
          q, 8, False, True, True)) for (w, q), o in zip(g, w0)]))
    else:
      c.prove('no_weights' + tag, len(g) == 0)
    a = cfg.get_activations_and_quantizers(layer)
    c.prove('activations' + tag, And(len(a) == na, *[And(v is o, is_fixed(q) if fixed else is_ma(q)) for (v, q), o in zip(
        a, a0)]))
    o = cfg.get_output_quantizers(layer)
    c.prove('outputs' + tag, And(len(o) == (1 if qo else 0), *[is_fixed(q) if fixed else is_ma(q) for q in o]))

  judge(cfg, '')
  na_ = [object() for _ in aa]
  nw_ = [c.tensor('n%d' % k, [2]) for k in range(nw)]
  cfg.set_quantize_weights(layer, list(nw_))
  c.prove('weights_set', all(getattr(layer, n) is (v if fixed else o) for n, v, o in zip(wa, nw_, w0)))
  cfg.set_quantize_activations(layer, list(na_))
  c.prove('activations_set', all(getattr(layer, n) is v for n, v in zip(aa, na_)))
  for n, v in list(zip(wa, w0)) + list(zip(aa, a0)):
    setattr(layer, n, v)
  d = cfg.get_config()
  keys = dict(d)
  with _mod('quantization.keras.quantize').quantize_scope():
    judge(type(cfg).from_config(d), '_after_round_trip')
  c.prove('config_not_consumed', dict(d) == keys)


# --- the registry ----------------------------------------------------------------
_PASS = ['Cropping1D', 'Cropping2D', 'Cropping3D', 'ZeroPadding1D', 'ZeroPadding2D', 'ActivityRegularization',
         'Dropout', 'Flatten', 'Permute', 'Reshape', 'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D',
         'GlobalMaxPooling1D', 'GlobalMaxPooling2D', 'GlobalMaxPooling3D', 'MaxPooling2D', 'Softmax']
_OUT = ['ReLU', 'LeakyReLU', 'Concatenate', 'UpSampling2D', 'AveragePooling1D', 'AveragePooling2D',
        'GlobalAveragePooling1D', 'GlobalAveragePooling2D', 'GlobalAveragePooling3D', 'Add']
_KERN = {'Dense': 'kernel', 'Conv2D': 'kernel', 'DepthwiseConv2D': 'depthwise_kernel', 'Conv2DTranspose': 'kernel'}
_UNSUP = ['Conv1D', 'Conv3D', 'ELU', 'PReLU', 'Embedding', 'BatchNormalization', 'Masking', 'Lambda', 'LSTMCell',
          'Dot', 'Multiply']


def _bare(keras, klass, **kw):
  """An instance of the layer class with only the attributes a config looks at."""
  cls = getattr(keras.layers, klass)
  o = object.__new__(type(klass, (cls,), {'__init__': lambda s: None, '__setattr__': object.__setattr__,
                                         '__class__': property(lambda s: cls)}))
  o.__dict__.update(kw)
  return o


@contract('Q10', [m + ':Default%sBitQuantizeRegistry.%s' % (n, f) for m, n in ((R8, '8'), (RN, 'N')) for f in (
    '__init__', 'supports', 'get_quantize_config', '_get_quantize_config', '_is_supported_layer', '_is_rnn_layer')],
          cases=300, deep=1500)
def registry_configs(c):
  """What the registry quantises in every supported layer class, in any number of registries of any bits."""
  nb = c.choice('n_bit', [False, True])
  dis = c.choice('disable_per_axis', [False, True])
  other = c.choice('another_registry', ['none', 'before', 'after'])
  keras = _mod('keras.compat').keras
  mk = _mod(RN).DefaultNBitQuantizeRegistry if nb else _mod(R8).Default8BitQuantizeRegistry
  bw, ba = _bits_pair(c, nb)
  def make(dpa, w, a):
    return mk(dpa, w, a) if nb else mk(dpa)
  b2 = (c.int('other_bits_weight', 2, 8), c.int('other_bits_activation', 2, 8)) if nb and other != 'none' else (8, 8)
  if other == 'before':
    make(not dis, *b2)
  reg = make(dis, bw, ba)
  if other == 'after':
    make(not dis, *b2)
  names = _PASS + _OUT + sorted(_KERN)
  todo = names + _UNSUP if c.symbolic else [c.choice('layer', names + _UNSUP)]
  for n in todo:
    acts = {'activation': 'ACT'}
    layer = _bare(keras, n, kernel='W', depthwise_kernel='D', name='x', **acts)
    sup = n in names
    c.prove('supported_layers', bool(reg.supports(layer)) == sup)
    if not sup:
      e, _ = c.raises(reg.get_quantize_config, layer)
      c.prove('unsupported_layer_rejected', isinstance(e, ValueError))
      continue
    cfg = reg.get_quantize_config(layer)
    g = cfg.get_weights_and_quantizers(layer)
    if n in _KERN:
      conv, tr = n in ('Conv2D', 'DepthwiseConv2D') and not dis, n == 'Conv2DTranspose'
      c.prove('the_kernel_is_quantised', And(len(g) == 1 and g[0][0] == getattr(layer, _KERN[n]), *[And(
          isinstance(q, _mod(QZ).LastValueQuantizer), _is_setting(q, bw, conv, True, True)) for _, q in g]))
      a = cfg.get_activations_and_quantizers(layer)
      c.prove('the_activation_is_quantised', And(len(a) == 1 and a[0][0] == 'ACT', *[And(
          isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False)) for _, q in a]))
    else:
      c.prove('no_weights_no_activations', list(g) == [] and list(cfg.get_activations_and_quantizers(layer)) == [])
    o = cfg.get_output_quantizers(layer)
    c.prove('outputs_quantised', And(len(o) == (1 if n in _OUT else 0), *[And(
        isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False)) for q in o]))


@contract('Q10', [m + ':Default%sBitQuantizeRegistry.%s' % (n, f) for m, n in ((R8, '8'), (RN, 'N')) for f in (
    'supports', 'get_quantize_config')], cases=60, deep=200)
def registry_activation_and_recurrent(c):
  """Activation layers get the activation config with the registry's bits; recurrent layers follow their cells."""
  nb = c.choice('n_bit', [False, True])
  bw, ba = _bits_pair(c, nb)
  keras = _mod('keras.compat').keras
  reg = _mod(RN).DefaultNBitQuantizeRegistry(False, bw, ba) if nb else _mod(R8).Default8BitQuantizeRegistry()
  layer = keras.layers.Activation(_named(c, 'relu'))
  c.prove('activation_supported', bool(reg.supports(layer)))
  o = reg.get_quantize_config(layer).get_output_quantizers(layer)
  c.prove('activation_output', And(len(o) == 1, *[And(
      isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False)) for q in o]))
  n = c.choice('cells', [1, 2])
  kinds = [c.choice('cell%d' % k, ['Dense', 'LSTMCell']) for k in range(n)]
  cells = [_bare(keras, k, kernel='W%d' % i, activation='A%d' % i) for i, k in enumerate(kinds)]
  cell = cells[0] if n == 1 else _bare(keras, 'StackedRNNCells', cells=cells)
  for r in ('RNN', 'LSTM'):
    rnn = _bare(keras, r, cell=cell, name='rnn')
    ok = all(k == 'Dense' for k in kinds)
    c.prove('recurrent_supported_if_all_cells_are', bool(reg.supports(rnn)) == ok)
    if not ok:
      e, _ = c.raises(reg.get_quantize_config, rnn)
      c.prove('unsupported_cell_rejected', isinstance(e, ValueError))
    else:
      cfg = reg.get_quantize_config(rnn)
      g = cfg.get_weights_and_quantizers(rnn)
      c.prove('kernels_of_all_cells', And([w for w, _ in g] == ['W%d' % i for i in range(n)], *[
          _is_setting(q, bw, False, True, True) for _, q in g]))
      c.prove('recurrent_output_left_to_the_cells', len(cfg.get_output_quantizers(rnn)) == 0)
      a = cfg.get_activations_and_quantizers(rnn)
      c.prove('activations_of_all_cells', And([w for w, _ in a] == ['A%d' % i for i in range(n)], *[
          _is_setting(q, ba, False, False, False) for _, q in a]))


# --- the wrapper -----------------------------------------------------------------
class _State:
  """The object's state without Keras; methods come from the real class."""

  def __init__(self, cls, **kw):
    self.__dict__.update(kw)
    object.__setattr__(self, '_cls', cls)

  def __getattr__(self, n):
    a = getattr(object.__getattribute__(self, '_cls'), n)
    return types.MethodType(a, self) if isinstance(a, types.FunctionType) else a


class _WithTraining:

  def __init__(self, c, **k):
    self.__dict__.update(k)
    self.c, self.seen = c, []
    self.name = 'layer'

  def call(self, inputs, training=None):
    self.seen.append(training)
    return self.body(inputs)

  def body(self, inputs):
    return self.activation(inputs) if hasattr(self, 'activation') else inputs


class _NoTraining(_WithTraining):

  def call(self, inputs):   # pylint: disable=arguments-differ
    self.seen.append('none')
    return self.body(inputs)


def _act(c, name, x):
  """An arbitrary elementwise activation."""
  if c.symbolic:
    f = z3.Function('ACT_' + name, z3.RealSort(), z3.RealSort())
    x = lift(x)
    return T(x.shape_, x.dtype, lambda *i: f(x.at(*i)))
  return x * 0.5 + 0.25


def _named(c, name):
  def f(x):
    return _act(c, name, x)
  f.__name__ = name
  return f


def _rng(c, name, shape=()):
  return {'min_var': c.var(name + '_min', list(shape), gen=lambda r, k: [-r.choice([6.0, 0.5]) for _ in range(k)]),
          'max_var': c.var(name + '_max', list(shape), gen=lambda r, k: [r.choice([6.0, 0.5]) for _ in range(k)])}


@contract('Q05', [QW + ':QuantizeWrapper.build', QW + ':QuantizeWrapper._weight_name', QW + ':QuantizeWrapper.trainable_weights',
                  QW + ':QuantizeWrapperV2.build', QW + ':QuantizeWrapperV2.trainable_weights'], cases=40, deep=200,
          opts={'finite': True}, note='up to two weights and activations, output quantised or not, both wrapper versions')
def wrapper_build(c):
  """build gives every quantizer its own tensor, and the wrapper trains every original weight exactly once."""
  import inspect
  import tensorflow as tf
  keras = _mod('keras.compat').keras
  nw, na = c.choice('weights', [2, 0, 1]), c.choice('activations', [1, 0, 2])
  no, v2 = c.choice('outputs', [1, 0]), c.choice('version_two', [True, False])
  late = c.choice('weights_leave_the_layer', [False, True])
  built = []

  class Quantizer:

    def __init__(self, tag):
      self.tag = tag

    def build(self, shape, name, layer):
      built.append((self, list(shape) if shape is not None else None, name, layer))
      return ('vars', self.tag)

  class Var:
    trainable = True

    def __init__(self, name, shape):
      self.name, self.shape = name, shape

  ws = [Var('layer/sub/w%d:0' % k, [k + 2, 3]) for k in range(nw)]
  rest = Var('layer/bias:0', [3])
  wq, aq, oq = [Quantizer('w%d' % k) for k in range(nw)], [Quantizer('a%d' % k) for k in range(na)], [Quantizer('o')] * no
  acts = [keras.activations.relu, keras.activations.linear][:na]

  own = ws[:1] + [rest] + ws[1:] if c.choice('kernel_first', [True, False]) else [rest] + ws

  class Layer(keras.layers.Layer):
    here = list(own)
    trainable_weights = property(lambda s: list(s.here))

    def compute_output_shape(self, shape):
      return ('shape of the output', tuple(shape))

  class Config:
    get_weights_and_quantizers = lambda s, l: list(zip(ws, wq)) if l is layer else None
    get_activations_and_quantizers = lambda s, l: list(zip(acts, aq)) if l is layer else None
    get_output_quantizers = lambda s, l: list(oq) if l is layer else None

  layer = Layer()
  layer.built = True
  mod = _mod(QW)
  x = (mod.QuantizeWrapperV2 if v2 else mod.QuantizeWrapper)(layer, Config())
  sig = inspect.signature(keras.layers.Layer.add_weight)
  made = []

  def add_weight(*a, **k):
    made.append(sig.bind(None, *a, **k).arguments)
    return 'step'

  object.__setattr__(x, 'add_weight', add_weight)
  x.build((None, 4))
  want = {q.tag: (w.shape, 'w%d' % k) for k, (q, w) in enumerate(zip(wq, ws))}
  got = {q.tag: (s, n) for q, s, n, _ in built if q.tag[0] == 'w'}
  c.prove('one_range_per_weight_of_its_shape', got == want and sum(q.tag[0] == 'w' for q, _, _, _ in built) == nw)
  c.prove('ranges_belong_to_the_wrapper', all(l is x for _, _, _, l in built))
  c.prove('activation_quantizers_built', {q.tag for q, _, _, _ in built if q.tag[0] == 'a'} == {q.tag for q in aq})
  out = [(s, n) for q, s, n, _ in built if q.tag == 'o']
  c.prove('output_range_of_the_output_shape', out == ([(['shape of the output', (None, 4)], 'output')] if no else []))
  c.prove('step_is_not_trained', [m.get('trainable') for m in made] == [False])
  if late:
    layer.here = [rest]          # call replaced the weights by quantised tensors
  tw = x.trainable_weights
  ids = [id(w) for w in tw]
  if v2 or late:
    c.prove('every_weight_is_trained_exactly_once', sorted(ids) == sorted(id(w) for w in ws + [rest]))
  c.prove('every_weight_is_trained', set(ids) == {id(w) for w in ws + [rest]})
  if v2:
    c.prove('weight_order_does_not_change', ids == [id(w) for w in own])


@contract('Q05', [QW + ':QuantizeWrapper.call', QW + ':QuantizeWrapper._make_quantizer_fn'], cases=120, deep=800)
def wrapper_call(c):
  """The wrapped layer computes with quantised weights; the original weights are never written."""
  Z = _mod(QZ)
  nw = c.choice('weights', [1, 0, 2])
  na = c.choice('activations', [1, 0])
  qo = c.choice('quantize_output', [False, True])
  tr = c.choice('training', [True, False, None])
  takes = c.choice('layer_takes_training', [True, False])
  calls = c.choice('calls', [1, 2])
  names = ['kernel', 'recurrent'][:nw]
  shapes = [[c.dim('r%d' % k, 1, 3), c.dim('s%d' % k, 1, 3)] for k in range(nw)]
  ws = [c.var('w%d' % k, s) for k, s in enumerate(shapes)]
  xs = [c.dim('b', 1, 3), c.dim('f', 1, 3)]
  x = c.tensor('x', xs)
  cfg = _mod(R8).Default8BitQuantizeConfig(names, ['activation'][:na], qo)
  layer = (_WithTraining if takes else _NoTraining)(c, **dict(zip(names, ws)))
  acts = []
  if na:
    layer.activation = _named(c, 'orig')
    acts = [types.SimpleNamespace(training='unset')]
    a = acts[0]

    class Q:
      """Stands for QuantizeAwareActivation (own contract)."""
      training = 'unset'

      def __call__(self, v):
        return _act(c, 'q', v)

    acts = [Q()]
  lq = Z.LastValueQuantizer(8, False, True, True)
  oq = Z.AllValuesQuantizer(8, False, False, False)
  rw = [_rng(c, 'w%d' % k) for k in range(nw)]
  ro = _rng(c, 'out')
  # the ranges a weight quantizer keeps are those of the last training call: arbitrary here
  st = _State(_mod(QW).QuantizeWrapper, layer=layer, quantize_config=cfg,
              _weight_vars=[(w, lq, v) for w, v in zip(ws, rw)], _quantize_activations=acts,
              _output_quantizers=[oq] if qo else [], _output_quantizer_vars=ro)
  w0 = [snapshot(w) for w in ws]
  out = None
  for _ in range(calls):
    r0 = [(snapshot(v['min_var']), snapshot(v['max_var'])) for v in rw]
    o0 = (snapshot(ro['min_var']), snapshot(ro['max_var']))
    out = st.call(x, training=tr)
  eff = bool(tr)
  c.prove('original_weights_untouched', And(True, *[_same(c, snapshot(w), o) for w, o in zip(ws, w0)]))
  for k in range(nw):
    v = rw[k]
    m1, M1 = snapshot(v['min_var']), snapshot(v['max_var'])
    if eff:
      bm, bM = _rmm(c, w0[k], False)
      c.prove('training_updates_weight_ranges', And(le(val(m1), val(bm), 1e-5), ge(val(M1), val(bM), 1e-5)))
    else:
      c.prove('inference_keeps_weight_ranges', And(_same(c, m1, r0[k][0]), _same(c, M1, r0[k][1])))
    got = getattr(layer, names[k])
    c.prove('layer_sees_quantised_weight', _same(c, got, fq(c, w0[k], m1, M1, 8, True), shapes[k]))
  c.prove('layer_called_with_training', len(layer.seen) == calls and all(
      (s == 'none') if not takes else (s is tr if tr is not None else not s) for s in layer.seen))
  if na:
    c.prove('activation_replaced', layer.activation is acts[0])
    c.prove('activation_told_training', bool(acts[0].training) == eff and acts[0].training != 'unset')
  pre = _act(c, 'q', x) if na else x
  if qo:
    m1, M1 = snapshot(ro['min_var']), snapshot(ro['max_var'])
    c.prove('output_quantised', _same(c, out, fq(c, pre, m1, M1, 8, False), xs))
    if eff:
      c.prove('training_extends_output_range', c.forall(xs, lambda *i: And(
          le(val(m1), el(pre, *i), 1e-5), ge(val(M1), el(pre, *i), 1e-5))))
    else:
      c.prove('inference_keeps_output_range', And(_same(c, m1, o0[0]), _same(c, M1, o0[1])))
  else:
    c.prove('output_of_the_layer', _same(c, out, pre, xs))


@contract('Q05', [QA + ':QuantizeAwareActivation.__call__', QA + ':QuantizeAwareActivation.__init__'],
          cases=120, deep=800)
def quantize_aware_activation(c):
  """Quantised before (softmax, sigmoid, tanh, gelu) and/or after (linear, relu, swish, gelu) the activation."""
  A = _mod(QA)
  name = c.choice('activation', ['relu', 'softmax', 'sigmoid', 'tanh', 'gelu', 'linear', 'swish', 'NoOpActivation',
                                 'elu', 'custom'])
  tr = c.choice('training', [True, False])
  f = A.NoOpActivation() if name == 'NoOpActivation' else _named(c, name)
  q = _mod(QZ).AllValuesQuantizer(8, False, False, False)
  h = Host(c)
  e, qa = c.raises(A.QuantizeAwareActivation, f, q, None, h)
  if name in ('elu', 'custom'):
    c.prove('unsupported_activation_rejected', isinstance(e, ValueError))
    return
  c.prove('supported_activation_accepted', e is None)
  pre = name in ('softmax', 'sigmoid', 'tanh', 'gelu')
  post = name in ('linear', 'relu', 'swish', 'gelu')
  made = {}
  for n, v, _, _ in h.made:
    made[('pre' if 'pre' in n else 'post') + ('_min' if n.endswith('min') else '_max')] = v
  c.prove('one_range_per_position', set(made) == set(
      (['pre_min', 'pre_max'] if pre else []) + (['post_min', 'post_max'] if post else [])))
  xs = [c.dim('b', 1, 3), c.dim('f', 1, 3)]
  x = c.tensor('x', xs)
  m0 = {k: snapshot(v) for k, v in made.items()}
  qa.training = tr
  y = qa(x)
  m1 = {k: snapshot(v) for k, v in made.items()}
  if not tr:
    c.prove('inference_keeps_ranges', And(True, *[_same(c, m1[k], m0[k]) for k in made]))
  v = x

  def in_range(p, t):
    return c.forall(xs, lambda *i: And(le(val(m1[p + '_min']), el(t, *i), 1e-5), ge(val(m1[p + '_max']), el(t, *i), 1e-5)))

  if pre:
    if tr:
      c.prove('training_extends_the_range_before', in_range('pre', v))
    v = fq(c, v, m1['pre_min'], m1['pre_max'], 8, False)
  v = v if name == 'NoOpActivation' else _act(c, name, v)
  if post:
    if tr:
      c.prove('training_extends_the_range_after', in_range('post', v))
    v = fq(c, v, m1['post_min'], m1['post_max'], 8, False)
  c.prove('quantised_around_the_activation', _same(c, y, v, xs))


@contract('Q05', [QL + ':QuantizeLayer.call'], cases=60, deep=400)
def quantize_layer_call(c):
  """The quantize layer applies its quantizer with the training flag; without quantizer it is the identity."""
  tr = c.choice('training', [True, False, None])
  has = c.choice('quantizer', [True, False])
  xs = [c.dim('b', 1, 3), c.dim('f', 1, 3)]
  x = c.tensor('x', xs)
  r = _rng(c, 'q')
  q = _mod(QZ).AllValuesQuantizer(8, False, False, False) if has else None
  st = _State(_mod(QL).QuantizeLayer, quantizer=q, quantizer_vars=r)
  m0, M0 = snapshot(r['min_var']), snapshot(r['max_var'])
  y = st.call(x, training=tr)
  m1, M1 = snapshot(r['min_var']), snapshot(r['max_var'])
  if not has:
    c.prove('identity', _same(c, y, x, xs))
  else:
    c.prove('quantised', _same(c, y, fq(c, x, m1, M1, 8, False), xs))
    if tr:
      c.prove('training_extends_the_range', c.forall(xs, lambda *i: And(
          le(val(m1), el(x, *i), 1e-5), ge(val(M1), el(x, *i), 1e-5))))
  if not has or not tr:
    c.prove('range_unchanged', And(_same(c, m1, m0), _same(c, M1, M0)))
