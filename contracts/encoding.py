"""Tensor encoding: stages, bit packing, transforms."""
import collections

from dv.api import *  # noqa
from dv import ops

TE = 'internal.tensor_encoding.'
ST = TE + 'stages.stages_impl'
TU = TE + 'utils.tf_utils'
RQ = TE + 'stages.research.quantization'
RM = TE + 'stages.research.misc'
RC = TE + 'stages.research.clipping'
RK = TE + 'stages.research.kashin'
PYU = TE + 'utils.py_utils'


def _mod(name):
  import importlib
  return importlib.import_module('tensorflow_model_optimization.python.core.' + name)


def _tfm():
  import tensorflow as tf
  return tf


def _shape_of(c, shape):
  """The decoder's shape argument: a rank-1 int32 tensor."""
  tf = _tfm()
  if c.symbolic:
    from dv.tens import stack_scalars
    return stack_scalars([zi(d) for d in shape], tf.int32)
  return tf.constant([int(d) for d in shape], tf.int32)


def _rank_shape(c, ranks=(1, 2, 3, 4), lo=1, hi=4):
  r = c.choice('rank', list(ranks))
  return [c.dim('d%d' % k, lo, hi) for k in range(r)]


# --- lossless reshaping stages ----------------------------------------------
@contract('E04', [ST + ':IdentityEncodingStage.encode', ST + ':IdentityEncodingStage.decode',
                  ST + ':FlattenEncodingStage.encode', ST + ':FlattenEncodingStage.decode'],
          cases=60, deep=500)
def identity_and_flatten(c):
  """decode(encode(x)) is x; flatten gives the row-major elements."""
  st = _mod(ST)
  kind_ = c.choice('stage', ['identity', 'flatten'])
  shape = _rank_shape(c)
  x = c.tensor('x', shape)
  s = st.IdentityEncodingStage() if kind_ == 'identity' else st.FlattenEncodingStage()
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  y = s.decode(enc, dp, shape=_shape_of(c, shape))
  e = enc[s.compressible_tensors_keys[0]]
  c.prove('single_tensor_encoding', len(enc) == 1)
  if kind_ == 'identity':
    c.prove('encoded_is_input', And(same_shape(e, x), c.forall(shape, lambda *i: eq(el(e, *i), el(x, *i)))))
  else:
    c.prove('flat', And(len(dims(e)) == 1, eq(dims(e)[0], dprod(shape) if c.symbolic else _prod(shape))))
  c.prove('shape_restored', same_shape(y, x))
  c.prove('lossless', c.forall(shape, lambda *i: eq(el(y, *i), el(x, *i))))


def _prod(s):
  p = 1
  for d in s:
    p *= int(d)
  return p


@contract('E04', [RM + ':DifferenceBetweenIntegersEncodingStage.encode',
                  RM + ':DifferenceBetweenIntegersEncodingStage.decode'], cases=60, deep=500,
          note='the prefix-sum equality is an induction over the position: base and step are separate obligations')
def integer_differences(c):
  """encode gives successive differences; decode (prefix sums) gives the input back."""
  n = c.dim('n', 1, 7)
  x = c.tensor('x', [n], dtype='int32', gen=lambda r, k: [r.randint(-50, 50) for _ in range(k)])
  s = _mod(RM).DifferenceBetweenIntegersEncodingStage()
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  e = enc[s.compressible_tensors_keys[0]]
  y = s.decode(enc, dp)
  c.prove('shape', And(same_shape(e, x), same_shape(y, x)))
  c.prove('first_is_kept', eq(el(e, 0), el(x, 0)))
  if c.symbolic:
    i = c.some_index(n)
    c.assume(i > 0)
    c.prove('successive_differences', eq(el(e, i), el(x, i) - el(x, i - 1)))
    c.prove('lossless_base', eq(el(y, 0), el(x, 0)))
    c.prove('lossless_step', Implies(eq(el(y, i - 1), el(x, i - 1)), eq(el(y, i), el(x, i))))
  else:
    c.prove('successive_differences', all(el(e, i) == el(x, i) - el(x, i - 1) for i in range(1, n)))
    c.prove('lossless', all(el(y, i) == el(x, i) for i in range(n)))


@contract('E04', [RC + ':ClipByValueEncodingStage.encode', RC + ':ClipByValueEncodingStage.decode'],
          cases=60, deep=500)
def clip_by_value(c):
  """decode(encode(x)) is x clipped to [min, max]; every value inside is untouched."""
  shape = _rank_shape(c, (1, 2, 3))
  x = c.tensor('x', shape)
  lo, hi = c.real('lo', -1, 1), c.real('hi', -1, 1)
  c.assume(le(val(lo), val(hi)))
  s = _mod(RC).ClipByValueEncodingStage(lo, hi)
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  y = s.decode(enc, dp)
  c.prove('shape', same_shape(y, x))
  c.prove('clipped', c.forall(shape, lambda *i: eq(el(y, *i), minz(maxz(el(x, *i), val(lo)), val(hi)))))


@contract('E04', [RC + ':ClipByNormEncodingStage.encode', RC + ':ClipByNormEncodingStage.decode'],
          cases=60, deep=500, note='the Euclidean norm of a tensor of symbolic size is an extensional operator')
def clip_by_norm(c):
  """decode(encode(x)) is x scaled to the given norm when it is longer, and x itself otherwise."""
  shape = _rank_shape(c, (1, 2, 3))
  x = c.tensor('x', shape)
  m = c.real('norm', 0.1, None if c.symbolic else 6)
  s = _mod(RC).ClipByNormEncodingStage(m)
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  y = s.decode(enc, dp)
  n, m = val(ops.norm(x)) if c.symbolic else float(_tfm().norm(x)), val(m)
  c.prove('shape', same_shape(y, x))
  c.prove('short_tensors_unchanged', Implies(le(n, m, 0), c.forall(shape, lambda *i: eq(el(y, *i), el(x, *i)))))
  c.prove('long_tensors_scaled', Implies(ge(n, m, 0), c.forall(shape, lambda *i: eq(
      el(y, *i) * n, el(x, *i) * m))))


@contract('E04', [RM + ':SplitBySmallValueEncodingStage.encode', RM + ':SplitBySmallValueEncodingStage.decode'],
          cases=80, deep=800)
def split_by_small_value(c):
  """decode(encode(x)) keeps every element above the threshold, zero elsewhere; the indices are those elements."""
  n = c.dim('n', 1, 8)
  th = c.choice('threshold', [1e-8, 0.5, 1.0, 'any'])
  if th == 'any':
    th = c.real('threshold_value', 0, None if c.symbolic else 4)
  x = c.tensor('x', [n])
  s = _mod(RM).SplitBySmallValueEncodingStage(th)
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  y = s.decode(enc, dp, shape=_shape_of(c, [n]))
  t = val(th)
  if not c.symbolic:
    import numpy as np
    t = np.float32(t).item()
  big = lambda i: Not(le(absz(el(x, i)), t, 0))
  ix, v = enc['indices'], enc['non_zero_floats']
  k = dims(ix)[0]
  c.prove('one_value_per_index', And(len(dims(ix)) == 1, len(dims(v)) == 1, eq(dims(v)[0], k)))
  c.prove('indices_are_large_elements', c.forall([k], lambda i: And(
      ge(el(ix, i), 0), Not(ge(el(ix, i), n)), Implies(And(ge(el(ix, i), 0), Not(ge(el(ix, i), n))), big(el(ix, i))))
      if c.symbolic else 0 <= el(ix, i) < n and big(el(ix, i))))
  c.prove('values_are_those_elements', c.forall([k], lambda i: eq(el(v, i), el(x, el(ix, i)))))
  c.prove('shape', same_shape(y, x))
  c.prove('large_kept_small_zero', c.forall([n], lambda i: eq(el(y, i), If(big(i), el(x, i), 0))))


# --- uniform quantisation -----------------------------------------------------
_QS = {'uniform': (ST, 'UniformQuantizationEncodingStage'),
       'per_channel': (RQ, 'PerChannelUniformQuantizationEncodingStage'),
       'prng': (RQ, 'PRNGUniformQuantizationEncodingStage'),
       'per_channel_prng': (RQ, 'PerChannelPRNGUniformQuantizationEncodingStage')}


def _quant(c, kind_, stochastic, fixed):
  mod, cls = _QS[kind_]
  shape = _rank_shape(c, (1, 2) if kind_ in ('uniform', 'prng') else (2, 3))
  x = c.tensor('x', shape)
  m = c.choice('bits', list(range(1, 17)))
  kw = {}
  if kind_ in ('uniform', 'per_channel'):
    kw['stochastic'] = stochastic
  lo = hi = None
  if fixed:
    lo, hi = c.real('min', -2, 2), c.real('max', -2, 2)
    c.assume(val(lo) < val(hi))
    kw['min_max'] = lst(lo, hi)
  s = getattr(_mod(mod), cls)(m, **kw)
  ep, dp = s.get_params()
  M = 2 ** m - 1
  enc = s.encode(x, ep)
  q = enc[s.compressible_tensors_keys[0]]
  y = s.decode(enc, dp, shape=_shape_of(c, shape))
  return s, shape, x, M, enc, q, y, lo, hi


def _range_of(c, x, shape, kind_, idx):
  """(min, max) the stage must use for element idx."""
  if kind_.startswith('per_channel'):
    if c.symbolic:
      xs = lift(x)
      lo = ops.OPS['reduce_min'](x, axis=list(range(len(shape) - 1)))
      hi = ops.OPS['reduce_max'](x, axis=list(range(len(shape) - 1)))
      return el(lo, idx[-1]), el(hi, idx[-1])
    import numpy as np
    a = np.asarray(x)[..., int(idx[-1])]
    return float(a.min()), float(a.max())
  if c.symbolic:
    return val(ops.OPS['reduce_min'](x)), val(ops.OPS['reduce_max'](x))
  import numpy as np
  a = np.asarray(x)
  return float(a.min()), float(a.max())


def _quant_contract(c, kind_, stochastic, fixed=False):
  s, shape, x, M, enc, q, y, lo, hi = _quant(c, kind_, stochastic, fixed)
  c.prove('shape_restored', same_shape(y, x))
  half = 1 if stochastic and not kind_.endswith('prng') else 2   # error <= range / (half * M)
  tol = 0 if c.symbolic else 2e-4

  def elem(*i):
    xi, yi = el(x, *i), el(y, *i)
    if fixed:
      l, h = val(lo), val(hi)
      xi = minz(maxz(xi, l), h)
    else:
      l, h = _range_of(c, x, shape, kind_, i)
    return le(absz(yi - xi) * half * M, (h - l) + tol * half * M)

  c.prove('error_within_quantisation_step', c.forall(shape, elem))
  qd = dims(q)

  def level(*i):
    if not fixed and len(i) == len(shape):
      l, h = _range_of(c, x, shape, kind_, i)
      return And(le(l, h), ge(el(q, *i), 0), le(el(q, *i), M), _integral(el(q, *i)))
    return And(ge(el(q, *i), 0), le(el(q, *i), M), _integral(el(q, *i)))

  c.prove('encoded_values_are_levels', c.forall(qd, level))


def _integral(v):
  return z3.IsInt(v) if isz(v) else float(v) == int(v)


@contract('E02', [ST + ':UniformQuantizationEncodingStage.encode', ST + ':UniformQuantizationEncodingStage.decode',
                  ST + ':UniformQuantizationEncodingStage.get_params'], cases=80, deep=800)
def uniform_own_range(c):
  """Levels in [0, 2^bits-1]; decode(encode(x)) within one (half) quantisation step of x."""
  _quant_contract(c, 'uniform', c.choice('stochastic', [False, True]))


@contract('E02', [ST + ':UniformQuantizationEncodingStage.encode', ST + ':UniformQuantizationEncodingStage.decode'],
          cases=80, deep=800)
def uniform_given_range(c):
  """With a given range: x is clipped to it first."""
  _quant_contract(c, 'uniform', c.choice('stochastic', [False, True]), True)


@contract('E02', [RQ + ':PerChannelUniformQuantizationEncodingStage.encode',
                  RQ + ':PerChannelUniformQuantizationEncodingStage.decode'], cases=80, deep=800)
def uniform_per_channel(c):
  """The range is the range of the element's own channel (last axis)."""
  _quant_contract(c, 'per_channel', c.choice('stochastic', [False, True]))


@contract('E02', [RQ + ':PRNGUniformQuantizationEncodingStage.encode',
                  RQ + ':PRNGUniformQuantizationEncodingStage.decode'], cases=80, deep=800)
def uniform_prng(c):
  """The decoder re-creates the random numbers of the encoder: error within half a step."""
  _quant_contract(c, 'prng', True)


@contract('E02', [RQ + ':PerChannelPRNGUniformQuantizationEncodingStage.encode',
                  RQ + ':PerChannelPRNGUniformQuantizationEncodingStage.decode'], cases=80, deep=800)
def uniform_per_channel_prng(c):
  _quant_contract(c, 'per_channel_prng', True)


@contract('E02', [ST + ':UniformQuantizationEncodingStage.decode',
                  ST + ':UniformQuantizationEncodingStage.commutes_with_sum'], cases=60, deep=500)
def decoding_commutes_with_sum(c):
  """With a given range, decoding a sum of encodings equals the sum of the decodings: the decoder is
  additive in (encoded values, number of summands), which gives any number of summands by induction."""
  tf = _tfm()
  m = c.choice('bits', [8, 1, 4, 16])
  lo, hi = c.real('min', -2, 2), c.real('max', -2, 2)
  c.assume(val(lo) < val(hi))
  s = _mod(ST).UniformQuantizationEncodingStage(m, min_max=lst(lo, hi))
  ep, dp = s.get_params()
  n = c.dim('n', 1, 4)
  q1, q2 = (c.tensor(k, [n], gen=lambda r, kk: [float(r.randint(0, 3)) for _ in range(kk)]) for k in ('q1', 'q2'))
  k1, k2 = c.int('n1', 1, 9), c.int('n2', 1, 9)
  if not c.symbolic:
    k1, k2 = tf.constant(k1), tf.constant(k2)
  key = s.compressible_tensors_keys[0]
  dec = lambda q, k: s.decode({key: q}, dp, num_summands=k)
  y = dec(q1 + q2, k1 + k2)
  y1, y2 = dec(q1, k1), dec(q2, k2)
  c.prove('declares_commutation', s.commutes_with_sum is True)
  c.prove('additive', c.forall([n], lambda i: eq(el(y, i), el(y1, i) + el(y2, i))))
  one = s.decode({key: q1}, dp)
  y1 = dec(q1, 1 if c.symbolic else tf.constant(1))
  c.prove('default_is_one_summand', c.forall([n], lambda i: eq(el(one, i), el(y1, i))))


# --- bit packing ---------------------------------------------------------------
def _bits_gen(b):
  def g(r, n):
    return [r.choice([0, 2 ** b - 1, r.randrange(2 ** b)]) for _ in range(n)]
  return g


def _gcd(a, b):
  while b:
    a, b = b, a % b
  return a


def _packing(c, b, dt='float32'):
  """Lengths are written groups * p + residue with p values per whole number W of words: every length is
  covered by the case split over the residue, every group by a symbolic group number."""
  s = _mod(ST).BitpackingEncodingStage(b)
  p, W = 28 // _gcd(28, b), b // _gcd(28, b)
  few = c.symbolic and c.tier == 'quick' and p == 28 and b > 1
  res = c.choice('residue', [0, 1, p // 2, p - 1] if few else list(range(p)))
  q = c.dim('groups', 0, 3)
  n = q * p + res
  c.assume(n >= 1)
  xi = c.tensor('x', [n], dtype='int32', gen=_bits_gen(b), lo=0, hi=2 ** b - 1)
  tf = _tfm()
  x = (ops.OPS['cast'] if c.symbolic else tf.cast)(xi, getattr(tf, dt))   # integers in a float type
  ep, dp = s.get_params()
  enc = s.encode(x, ep)
  packed = enc['bitpacked_values']
  last = -(-(res * b) // 28)
  c.prove('word_count', And(len(dims(packed)) in (1, 2), eq(dims(packed)[0], q * W + last),
                            dims(packed)[1] == 1 if len(dims(packed)) == 2 else True))
  one = len(dims(packed)) == 1
  y = s.decode(enc, dp, shape=_shape_of(c, [n]))
  c.prove('shape_restored', same_shape(y, x))
  c.prove('dtype_restored', y.dtype == x.dtype)
  w = (lambda i: el(packed, i)) if one else (lambda i: el(packed, i, 0))
  if not c.symbolic:
    c.prove('words_fit_28_bits', all(0 <= w(i) < 2 ** 28 for i in range(dims(packed)[0])))
    c.prove('lossless', all(el(x, i) == el(y, i) for i in range(n)))
    return
  full = c.fresh('g')           # a whole group, then the incomplete last one
  for start, guard, words, cols in ((full, And(full >= 0, full < q), W, p), (q, True, last, res)):
    for k in range(words):
      i = tens.pair(start, k, W)
      c.prove('words_fit_28_bits', Implies(guard, And(ge(w(i), 0), w(i) < 2 ** 28)))
    for k in range(cols):
      i = tens.pair(start, k, p)
      c.prove('lossless', Implies(guard, eq(el(y, i), el(x, i))))


def _mk_packing(b):
  own = b in (6, 7, 8, 12)
  t = [ST + ':BitpackingEncodingStage.encode', ST + ':BitpackingEncodingStage.decode', TU + ':pack_into_int',
       TU + ':unpack_from_int']
  t += [TU + ':_pack_into_int_%d_28' % b, TU + ':_unpack_from_int_%d_28' % b] if own else [
      TU + ':_pack_binary_form', TU + ':_expand_to_binary_form']

  def packing(c):
    """decode(encode(x)) == x for every length and all values; every word fits 28 bits."""
    _packing(c, b, 'float32')
  contract('E01', t, cases=20, deep=300, name='packing_%d_bits' % b,
           note='' if own or b in (1, 2, 4, 10, 14, 16) else 'the quick tier proves the lengths congruent to 0, 1, '
           '14 and 27 modulo 28, the thorough tier every length')(packing)


for _b in range(1, 17):
  _mk_packing(_b)


# --- random rotations ----------------------------------------------------------
@contract('E03', [TU + ':fast_walsh_hadamard_transform'], cases=40, deep=300)
def walsh_hadamard_is_an_involution(c):
  """H(H(x)) == x: the normalised transform is its own inverse, for any number of rows."""
  tu = _mod(TU)
  d = c.choice('dim', [1, 2, 4, 8, 16, 32] if c.tier == 'quick' else [1, 2, 4, 8, 16, 32, 64])
  b = c.dim('rows', 1, 4)
  x = c.tensor('x', [b, d])
  y = tu.fast_walsh_hadamard_transform(x)
  z = tu.fast_walsh_hadamard_transform(y)
  c.prove('shape', And(same_shape(y, x), same_shape(z, x)))
  if c.symbolic:
    r = c.some_index(b)
    for k in range(d):
      c.prove('involution', eq(el(z, r, k), el(x, r, k)))
  else:
    c.prove('involution', c.forall([b, d], lambda i, j: eq(el(z, i, j), el(x, i, j))))


@contract('E03', [TU + ':fast_walsh_hadamard_transform'], cases=20, deep=100)
def walsh_hadamard_rejects_other_sizes(c):
  """Only rank-2 inputs with a power-of-two dimension are accepted."""
  d = c.choice('dim', [3, 5, 6, 7, 12])
  b = c.dim('rows', 1, 3)
  x = c.tensor('x', [b, d])
  e, _ = c.raises(_mod(TU).fast_walsh_hadamard_transform, x)
  c.prove('power_of_two_required', isinstance(e, ValueError))


def _rotation(c, mk, dims_, batch):
  tf = _tfm()
  d = c.choice('dim', dims_)
  shape = [c.dim('rows', 1, 3), d] if batch else [d]
  x = c.tensor('x', shape)
  s = mk()
  seed = c.tensor('seed', [2], 'int64', lo=0, hi=2 ** 40)
  ep, dp = s.get_params()
  ep = collections.OrderedDict(ep)
  dp = collections.OrderedDict(dp)
  ep['seed'] = dp['seed'] = seed
  enc = s.encode(x, ep)
  q = enc[s.compressible_tensors_keys[0]]
  y = s.decode(enc, dp, shape=_shape_of(c, shape))
  c.prove('rank_2_power_of_two', And(len(dims(q)) == 2, _pow2(dims(q)[1]), dims(q)[1] >= d,
                                     eq(dims(q)[0], shape[0] if batch else 1)))
  c.prove('shape_restored', same_shape(y, x))
  if c.symbolic:
    pre = (c.some_index(shape[0]),) if batch else ()
    for k in range(d):
      c.prove('lossless', eq(el(y, *pre, k), el(x, *pre, k)))
  else:
    c.prove('lossless', c.forall(shape, lambda *i: eq(el(y, *i), el(x, *i))))


def _pow2(n):
  return isinstance(n, int) and n > 0 and n & (n - 1) == 0


@contract('E03', [ST + ':HadamardEncodingStage.encode', ST + ':HadamardEncodingStage.decode',
                  TU + ':random_signs', TU + ':fast_walsh_hadamard_transform'], cases=60, deep=400)
def hadamard_lossless(c):
  """decode(encode(x)) == x for every seed; vectors and batches."""
  _rotation(c, _mod(ST).HadamardEncodingStage, [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16],
            c.choice('batch', [False, True]))


@contract('E03', [RK + ':KashinHadamardEncodingStage.encode', RK + ':KashinHadamardEncodingStage.decode'],
          cases=80, deep=600)
def kashin_lossless(c):
  """Without clipping in the last iteration the representation is lossless, whatever the clipping levels."""
  it = c.choice('iterations', [1, 2, 3])
  eta, delta = c.choice('eta', [0.9, 0.25]), c.choice('delta', [1.0, 0.5])
  if c.symbolic:
    c.memo['any_clip'] = True     # lossless for whatever values the clipping leaves
  mk = lambda: _mod(RK).KashinHadamardEncodingStage(num_iters=it, eta=eta, delta=delta)
  _rotation(c, mk, [1, 2, 3, 4, 5, 7] if c.symbolic else [1, 2, 3, 4, 5, 7, 8, 13], c.choice('batch', [False, True]))


# --- pseudo-random numbers ------------------------------------------------------
@contract('E07', [TU + ':random_signs'], cases=1, deep=1)
def signs_are_plus_or_minus_one(c):
  """Every generated sign is +1 or -1, including where the uniform value is exactly 0.5."""
  tf = _tfm()
  if c.symbolic:
    c.memo['prng_n'] = 1
    seed = c.tensor('seed', [2], 'int64')
    n = c.choice('n', [1, 3, 7])
  else:
    n, seed = 20000, tf.constant([2555, 0], tf.int64)   # element 10870 of this stream is exactly 0.5
  y = _mod(TU).random_signs(n, seed)
  c.prove('length', And(len(dims(y)) == 1, eq(dims(y)[0], n)))
  if c.symbolic:
    c.prove('plus_or_minus_one', c.forall([n], lambda i: Or(eq(el(y, i), 1), eq(el(y, i), -1))))
  else:
    import numpy as np
    c.prove('plus_or_minus_one', bool((np.abs(np.asarray(y)) == 1).all()))


# --- composition of stages -------------------------------------------------------
CE = TE + 'core.core_encoder'
GE = TE + 'core.gather_encoder'
SE = TE + 'core.simple_encoder'
ES = TE + 'core.encoding_stage'

# A tree of encoding stages: {output key: subtree}
TREES = [
    {},
    {'u': {}},
    {'u': {}, 'v': {}},
    {'v': {'u': {}}},
    {'u': {'v': {}}, 'v': {}},
    {'v': {'u': {'u': {}}}},
    {'u': {'u': {}, 'v': {}}, 'v': {'v': {}}},
]


def _tree_size(t):
  return 1 + sum(_tree_size(s) for s in t.values())


def _reshape(c, x, shape):
  if c.symbolic:
    return ops.OPS['reshape'](x, shape)
  return _tfm().reshape(x, shape)


def _stage(c, tag, a, b, commutes, adaptive, flatten):
  """A lossless stage: x -> u = a*x + b, v = (1-a)*x, w = (not compressible) 0*x + s.

  decode is u + v - n*b (n = number of summands) when it commutes with sum and u + v - b otherwise;
  both parameters are handed out by get_params, so mixed-up parameters of two stages are noticed. With
  `flatten` the tensors are stored flat and decode needs the input shape. An adaptive stage takes b from
  its state, which every update moves by the `t` it reported.
  """
  es = _mod(ES)
  base = es.AdaptiveEncodingStageInterface if adaptive else es.EncodingStageInterface

  class Stage(base):
    name = property(lambda self: 'stage_' + tag)
    compressible_tensors_keys = property(lambda self: ['u', 'v'])
    commutes_with_sum = property(lambda self: commutes)
    decode_needs_input_shape = property(lambda self: flatten)
    state_update_aggregation_modes = property(lambda self: {'t': es.StateAggregationMode.SUM})
    calls = []

    def initial_state(self, name=None):
      return {'b': b}

    def update_state(self, state, state_update_tensors, name=None):
      return {'b': state['b'] + state_update_tensors['t']}

    def get_params(self, state=None, name=None):
      bb = state['b'] if adaptive else b
      return {'a': a, 'b': bb}, {'b': bb}

    def encode(self, x, encode_params, name=None):
      pa, pb = encode_params['a'], encode_params['b']
      y = _reshape(c, x, [-1]) if flatten else x
      out = {'u': y * pa + pb, 'v': y * (1.0 - pa), 'w': y}
      return (out, {'t': pb * 2.0}) if adaptive else out

    def decode(self, encoded_tensors, decode_params, num_summands=None, shape=None, name=None):
      n = 1 if num_summands is None else num_summands
      if not commutes:
        n = 1
      if not isinstance(n, int):
        n = ops.OPS['cast'](n, _tfm().float32) if c.symbolic and not hasattr(n, 'numpy') else _tfm().cast(
            n, _tfm().float32)
      else:
        n = float(n)
      y = encoded_tensors['u'] + encoded_tensors['v'] - decode_params['b'] * n
      if flatten:
        return _reshape(c, y, shape)
      return y

  return Stage()


class _Node:

  def __init__(self, tag, a, b, commutes, adaptive, flatten, stage, kids):
    self.tag, self.a, self.b, self.commutes, self.adaptive = tag, a, b, commutes, adaptive
    self.flatten, self.stage, self.kids = flatten, stage, kids


def _tree(c, spec, tag='r', depth=0):
  k = len(c.memo.setdefault('tags', []))
  c.memo['tags'].append(tag)
  a = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0][k]
  b = c.tensor('b_' + tag, [], gen=lambda r, n: [round(r.uniform(-2, 2), 2) for _ in range(n)])
  commutes = c.choice('commutes_' + tag, [True, False])
  adaptive = c.memo['adaptive'] == 'all' or (c.memo['adaptive'] == 'root' and depth == 0)
  flatten = c.memo['flatten'] == depth
  s = _stage(c, tag, a, b, commutes, adaptive, flatten)
  kids = {key: _tree(c, t, tag + key, depth + 1) for key, t in spec.items()}
  return _Node(tag, a, b, commutes, adaptive, flatten, s, kids)


def _compose(c, node):
  comp = _mod(CE).EncoderComposer(node.stage)

  def add(cp, nd):
    for key, kid in nd.kids.items():
      add(cp.add_child(kid.stage, key), kid)

  add(comp, node)
  return comp.make()


def _leaves(c, node, x, b_of):
  """The encoded tensors the tree must produce (stage formulas composed along the tree)."""
  y = _reshape(c, x, [-1]) if node.flatten else x
  out = {'u': y * node.a + b_of(node), 'v': y * (1.0 - node.a), 'w': y}
  for key, kid in node.kids.items():
    out[key] = _leaves(c, kid, out[key], b_of)
  return out


def _same_t(c, x, y):
  if len(dims(x)) != len(dims(y)):
    return False
  t = 2e-3
  return And(same_shape(x, y), c.forall(dims(y), lambda *i: eq(el(x, *i), el(y, *i), t) if not c.symbolic
                                        else eq(el(x, *i), el(y, *i))))


def _same_tree(c, a, b):
  if isinstance(b, dict):
    if not isinstance(a, dict) or set(a) != set(b):
      return False
    return And([_same_tree(c, a[k], b[k]) for k in b])
  if isinstance(a, dict):
    return False
  return _same_t(c, a, b)


def _sum_tree(x, y):
  if isinstance(x, dict):
    return {k: _sum_tree(x[k], y[k]) for k in x}
  return x + y


def _setup(c, trees=TREES, shape=None):
  c.memo['tags'] = []
  spec = c.choice('tree', trees)
  c.memo['adaptive'] = c.choice('adaptive', ['no', 'root', 'all'])
  c.memo['flatten'] = c.choice('flatten_depth', [None, 0, 1])
  node = _tree(c, spec)
  shape = shape or [c.dim('rows', 1, 3), c.dim('cols', 1, 3)]
  return node, _compose(c, node), shape


def _all_commute(node):
  return node.commutes and all(_all_commute(k) for k in node.kids.values())


def _walk(node, f):
  f(node)
  for k in node.kids.values():
    _walk(k, f)


@contract('E05', [CE + ':Encoder.encode', CE + ':Encoder.decode', CE + ':Encoder.get_params',
                  CE + ':Encoder.initial_state', CE + ':EncoderComposer.make'], cases=80, deep=600,
          opts={'max_paths': 2500})
def composed_stages_are_lossless(c):
  """The encoding is the composition of the stages along the tree and decode inverts all of it."""
  node, enc, shape = _setup(c, TREES[:6])
  x = c.tensor('x', shape)
  st = enc.initial_state()
  ep, dp = enc.get_params(st)
  e, upd, shp = enc.encode(x, ep)
  c.prove('encoded_along_the_tree', _same_tree(c, e, _leaves(c, node, x, lambda n: n.b)))
  y = enc.decode(e, dp, shp)
  c.prove('decoded_is_the_input', _same_t(c, y, x))


@contract('E05', [CE + ':Encoder.decode_before_sum', CE + ':Encoder.decode_after_sum',
                  CE + ':Encoder.commuting_structure', CE + ':Encoder.fully_commutes_with_sum',
                  CE + ':split_params_by_commuting_structure', CE + ':split_shapes_by_commuting_structure'],
          cases=80, deep=600, opts={'max_paths': 4000})
def decoding_around_a_sum(c):
  """Summing part-decoded encodings and finishing gives the sum of the inputs."""
  node, enc, shape = _setup(c, TREES[:5])
  n = c.choice('summands', [1, 2, 3])
  split = c.choice('split', [True, False])
  xs = [c.tensor('x%d' % k, shape) for k in range(n)]
  st = enc.initial_state()
  ep, dp = enc.get_params(st)
  ce = _mod(CE)
  struct = enc.commuting_structure
  before, after = ce.split_params_by_commuting_structure(dp, struct) if split else (dp, dp)
  parts = []
  for x in xs:
    e, _, shp = enc.encode(x, ep)
    sb, sa = ce.split_shapes_by_commuting_structure(shp, struct) if split else (shp, shp)
    parts.append(enc.decode_before_sum(e, before, sb))
  tot, want = parts[0], xs[0]
  for p, x in zip(parts[1:], xs[1:]):
    tot, want = _sum_tree(tot, p), want + x
  y = enc.decode_after_sum(tot, after, n, sa)
  c.prove('sum_of_the_inputs', _same_t(c, y, want))
  c.prove('fully_commutes', bool(enc.fully_commutes_with_sum) == _all_commute(node))
  k = ce.EncoderKeys

  def structure(nd, prev=True):
    cur = prev and nd.commutes
    return {k.COMMUTE: cur, k.CHILDREN: {key: structure(kid, cur) for key, kid in nd.kids.items()}}

  c.prove('commuting_structure', struct == structure(node))

  def dropped(pb, pa, prev, nd):
    """Parameters go to the side of the sum on which their stage decodes, and only there."""
    cur = prev and nd.commutes
    keep, drop = (pa, pb) if cur else (pb, pa)
    ok = all(v is None for v in drop[k.PARAMS].values()) and all(v is not None for v in keep[k.PARAMS].values())
    return ok and all(dropped(pb[k.CHILDREN][q], pa[k.CHILDREN][q], cur, kid) for q, kid in nd.kids.items())

  if split:
    c.prove('params_only_where_needed', dropped(before, after, True, node))


@contract('E05', [CE + ':Encoder.update_state', CE + ':Encoder.state_update_aggregation_modes'], cases=60, deep=400)
def state_of_every_stage_is_its_own(c):
  """update_state moves the state of every stage by what that stage reported; decoding uses the state given."""
  c.memo['tags'] = []
  spec = c.choice('tree', TREES[:5])
  c.memo['adaptive'], c.memo['flatten'] = c.choice('adaptive', ['all', 'root']), None
  node = _tree(c, spec)
  enc = _compose(c, node)
  shape = [c.dim('rows', 1, 3)]
  x = c.tensor('x', shape)
  s0 = enc.initial_state()
  ep, dp = enc.get_params(s0)
  _, upd, _ = enc.encode(x, ep)
  s1 = enc.update_state(s0, upd)
  k = _mod(CE).EncoderKeys

  def check(s, nd, f):
    here = eq(val(s[k.STATE]['b']), f(val(nd.b)), 1e-4) if nd.adaptive else s[k.STATE] == {}
    return And([here, set(s[k.CHILDREN]) == set(nd.kids)] +
               [check(s[k.CHILDREN][q], kid, f) for q, kid in nd.kids.items()])

  c.prove('initial', check(s0, node, lambda b: b))
  c.prove('updated', check(s1, node, lambda b: 3 * b))
  ep1, dp1 = enc.get_params(s1)
  e1, _, sh1 = enc.encode(x, ep1)
  three = lambda nd: nd.b * 3.0 if nd.adaptive else nd.b
  c.prove('encodes_with_the_new_state', _same_tree(c, e1, _leaves(c, node, x, three)))
  c.prove('decodes_with_the_new_state', _same_t(c, enc.decode(e1, dp1, sh1), x))
  es = _mod(ES)

  def modes(nd):
    return {k.CHILDREN: {q: modes(kid) for q, kid in nd.kids.items()},
            k.TENSORS: {'t': es.StateAggregationMode.SUM} if nd.adaptive else {}}

  c.prove('aggregation_modes', enc.state_update_aggregation_modes == modes(node))


@contract('E05', [CE + ':EncoderComposer.add_child', CE + ':EncoderComposer.add_parent'], cases=30, deep=100)
def composer_builds_the_tree_asked_for(c):
  """add_parent puts the existing tree below a key; unknown or used keys are rejected."""
  c.memo['tags'], c.memo['adaptive'], c.memo['flatten'] = [], 'no', None
  a = _tree(c, {}, 'p')
  b = _tree(c, {}, 'q')
  d = _tree(c, {}, 's')
  key, key2 = c.choice('key', ['u', 'v']), c.choice('key2', ['u', 'v'])
  comp = _mod(CE).EncoderComposer(b.stage)
  top = comp.add_parent(a.stage, key)
  c.prove('used_key_rejected', c.raises(lambda: top.add_child(d.stage, key))[0] is not None)
  c.prove('unknown_key_rejected', c.raises(lambda: comp.add_child(d.stage, 'w'))[0] is not None and
          c.raises(lambda: comp.add_parent(a.stage, 'zz'))[0] is not None)
  comp.add_child(d.stage, key2)
  b.kids[key2] = d
  a.kids[key] = b
  enc = top.make()
  x = c.tensor('x', [c.dim('n', 1, 3)])
  ep, dp = enc.get_params(enc.initial_state())
  e, _, shp = enc.encode(x, ep)
  c.prove('encoded_along_the_tree', _same_tree(c, e, _leaves(c, a, x, lambda n: n.b)))
  c.prove('decoded_is_the_input', _same_t(c, enc.decode(e, dp, shp), x))


# --- user-facing encoders ---------------------------------------------------------
def _nested(c, depth, tag):
  """A nested dictionary with tensor and Python leaves; (dict, python-only part, tensor-only part)."""
  n = c.choice('n_' + tag, [1, 2] if depth < 2 else [1])
  d, py, tf_ = {}, {}, {}
  for k in range(n):
    key = tag + 'abc'[k]
    kind_ = c.choice('kind_' + key, ['py', 'tf', 'dict'] if depth < 2 else ['py', 'tf'])
    if kind_ == 'py':
      d[key] = py[key] = 17 + k
    elif kind_ == 'tf':
      d[key] = tf_[key] = c.tensor('t_' + key, [2])
    else:
      d[key], py[key], tf_[key] = _nested(c, depth + 1, key)
  return d, py, tf_


def _dict_same(a, b):
  """Same nested keys, the same leaf objects."""
  return set(a) == set(b) and all(
      (_dict_same(a[k], b[k]) if isinstance(b[k], dict) and isinstance(a[k], dict) else a[k] is b[k]) for k in b)


@contract('E06', [PYU + ':split_dict_py_tf', PYU + ':merge_dicts'], cases=80, deep=400, opts={'max_paths': 3000})
def split_and_merge_are_inverse(c):
  """split_dict_py_tf separates tensors from Python values; merge_dicts puts them together again."""
  d, py, tf_ = _nested(c, 0, '')
  m = _mod(PYU)
  p, t = m.split_dict_py_tf(d)
  c.prove('python_part', _dict_same(p, py))
  c.prove('tensor_part', _dict_same(t, tf_))
  c.prove('merged', _dict_same(m.merge_dicts(t, p), d) and _dict_same(m.merge_dicts(p, t), d))
  k = sorted(d)[0]
  if not isinstance(d[k], dict):
    c.prove('duplicate_key_rejected', c.raises(m.merge_dicts, d, {k: 3})[0] is not None)
  c.prove('non_dict_rejected', c.raises(m.split_dict_py_tf, 3)[0] is not None and
          c.raises(m.merge_dicts, d, 3)[0] is not None)


def _specs(c, shape):
  tf = _tfm()
  return tf.TensorSpec([int(s) for s in shape], tf.float32)


@contract('E06', [SE + ':SimpleEncoder.encode', SE + ':SimpleEncoder.decode', SE + ':SimpleEncoder.initial_state'],
          cases=14, deep=80, opts={'max_paths': 2000})
def simple_encoder_is_the_encoder(c):
  """SimpleEncoder: decode(encode(x)) is x and the state evolves as the wrapped encoder's, over several rounds."""
  node, enc, shape = _setup(c, TREES[:4], [2, 3])
  s = _mod(SE).SimpleEncoder(enc, _specs(c, shape))
  tf = _tfm()
  want, got = enc.initial_state(), s.initial_state()
  for r in range(3):
    c.prove('state', len(got) == len(tf.nest.flatten(want)) and And(
        [eq(val(a), val(b), 1e-3) for a, b in zip(got, tf.nest.flatten(want))]))
    x = c.tensor('x%d' % r, shape)
    e, got = s.encode(x, got)
    c.prove('decoded_is_the_input', _same_t(c, s.decode(e), x))
    c.prove('only_tensors', all(is_tensor(v) for v in e.values()))
    ep, _ = enc.get_params(want)
    _, upd, _ = enc.encode(x, ep)
    want = enc.update_state(want, upd)
  c.prove('wrong_shape_rejected', c.raises(s.encode, tf.zeros([7, 9]))[0] is not None)


@contract('E06', [GE + ':GatherEncoder.from_encoder', GE + ':GatherEncoder.encode',
                  GE + ':GatherEncoder.decode_before_sum', GE + ':GatherEncoder.decode_after_sum',
                  GE + ':GatherEncoder.update_state', GE + ':GatherEncoder.fully_commutes_with_sum'],
          cases=30, deep=150, opts={'max_paths': 2000})
def gather_encoder_decodes_the_sum(c):
  """GatherEncoder: part-decode, sum, finish gives the sum, in every round of an evolving state."""
  node, enc, shape = _setup(c, TREES[:4], [2, 3])
  g = _mod(GE).GatherEncoder.from_encoder(enc, _specs(c, shape))
  tf = _tfm()
  c.prove('fully_commutes', bool(g.fully_commutes_with_sum) == _all_commute(node))
  state, want = g.initial_state(), enc.initial_state()
  n = c.choice('summands', [1, 2, 3])
  for r in range(2):
    ep, db, da = g.get_params(state)
    tot, sum_, upds = None, None, None
    for k in range(n):
      x = c.tensor('x%d%d' % (r, k), shape)
      e, upd = g.encode(x, ep)
      part = g.decode_before_sum(e, db)
      tot = part if tot is None else tf.nest.map_structure(lambda p, q: p + q, tot, part)
      sum_ = x if sum_ is None else sum_ + x
      upds = upd if upds is None else tuple(p + q for p, q in zip(upds, upd))
    c.prove('sum_of_the_inputs', _same_t(c, g.decode_after_sum(tot, da, n), sum_))
    c.prove('one_mode_per_update', len(g.state_update_aggregation_modes) == len(upds))
    state = g.update_state(state, upds)
    # every stage reports 2*b and adds what was reported
    flat = tf.nest.flatten(want)
    want = tf.nest.pack_sequence_as(want, [b * (1.0 + 2.0 * n) for b in flat])
    c.prove('state', len(state) == len(flat) and And(
        [eq(val(a), val(b), 1e-3) for a, b in zip(state, tf.nest.flatten(want))]))
  c.prove('wrong_shape_rejected', c.raises(g.encode, tf.zeros([7, 9]), ep)[0] is not None)


# vector lengths, encoder trees and dictionary shapes are listed; values, seeds and batch sizes are not
mark_enumerated('E03', 'walsh_hadamard_is_an_involution', 'hadamard_lossless', 'kashin_lossless')
mark_enumerated('E05')
mark_enumerated('E06')
