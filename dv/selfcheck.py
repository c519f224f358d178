"""Cross-check of the assumed operation contracts (dv/ops.py) against the real TensorFlow.

A test is a function of a context and a `tf` namespace that builds inputs and applies operations. It is
run with the real TensorFlow on seeded inputs, and symbolically (uninterpreted elements, dimensions once unknown and
once given, as in the contracts) with the inputs pinned to those values. The facts the operation contracts
assert are then put to the solver together with "every output element equals what TensorFlow computed":
  unsat  -> the contract excludes what TensorFlow does: it is unsound, reported as a FAILURE;
  sat    -> sound on this sample.  If "some output element differs" is unsat the contract also
            determines the result on this sample ("exact").

  python -m dv.selfcheck [seeds] [op ...]     exit 1 on a failure
"""
import itertools
import os
import random
import sys
import zlib

os.environ.setdefault('TF_USE_LEGACY_KERAS', '1')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
import numpy as np  # pylint: disable=wrong-import-position
from dv import core  # pylint: disable=wrong-import-position
from dv import ops  # pylint: disable=wrong-import-position
from dv import tens  # pylint: disable=wrong-import-position
from dv.core import z3  # pylint: disable=wrong-import-position

TESTS = []


def t(*names, rounds=4):

  def d(f):
    TESTS.append((f.__name__, names, f, rounds))
    return f

  return d


class Pin(core.SymCtx):
  """Symbolic context whose inputs are pinned to recorded concrete values."""

  def __init__(self, vals, sized):
    super().__init__(None, [], {}, dict(timeout_ms=20000))
    self.vals, self.sized = vals, sized

  def dim(self, name, lo=1, hi=6):
    if self.sized:
      return self.vals[name]
    r = super().dim(name, lo, hi)
    self.pc.append(r == self.vals[name])
    return r

  def int(self, name, lo=None, hi=None, gen=None):
    r = super().int(name, lo, hi)
    self.pc.append(r.term == self.vals[name])
    return r

  def real(self, name, lo=None, hi=None, gen=None, lo_strict=False, hi_strict=False):
    r = super().real(name, lo, hi, None, lo_strict, hi_strict)
    self.pc.append(r.term == tens._realval(self.vals[name]))
    return r

  def bool(self, name):
    r = super().bool(name)
    self.pc.append(r.term == z3.BoolVal(self.vals[name]))
    return r

  def choice(self, name, options):
    return list(options)[self.vals[name][1] % len(options)]

  def tensor(self, name, shape, dtype='float32', gen=None, lo=None, hi=None):
    r = super().tensor(name, shape, dtype)
    _, shp, _, vals = self.vals[name]
    a = np.array(vals, dtype=dtype).reshape(shp)
    for i in itertools.product(*[range(d) for d in shp]):
      self.pc.append(_same(r.at(*i), a[i].item()))
    return r


def _lit(v, like):
  if isinstance(v, bool):
    return z3.BoolVal(v)
  if isinstance(v, int) and (not core.isz(like) or z3.is_int(like)):
    return z3.IntVal(v)
  return tens._realval(float(v))


def _same(x, v, tol=0.0):
  """x equals the concrete value v (within tol for reals)."""
  if not core.isz(x):
    if isinstance(x, bool) or isinstance(v, bool):
      return z3.BoolVal(bool(x) == bool(v))
    return z3.BoolVal(abs(float(x) - float(v)) <= tol * (1 + abs(float(v))))
  if z3.is_bool(x):
    return x == z3.BoolVal(bool(v))
  if z3.is_int(x):
    return x == z3.IntVal(int(v))
  r = tens._realval(float(v))
  if not tol:
    return x == r
  e = tens._realval(tol * (1 + abs(float(v))))
  return z3.And(x - r <= e, r - x <= e)


def _outs(o):
  return list(o) if isinstance(o, (list, tuple)) else [o]


def run(name, f, seed, sized=False, tol=1e-5):
  import tensorflow as tf
  from dv import shim
  rng = random.Random(zlib.crc32(('%s/%d' % (name, seed)).encode()))
  cc = core.ConcCtx(None, rng)
  core._CTX[0] = cc
  try:
    want = [np.asarray(o) for o in _outs(f(cc, tf))]
  except core.Skip:
    return 'skip', ''
  finally:
    core._CTX[0] = None
  sc = Pin(cc.used, sized)
  core._CTX[0] = sc
  try:
    got = [tens.lift(o) for o in _outs(f(sc, shim.NS(tf, '')))]
    eqs = []
    for g, w in zip(got, want):
      if len(g.shape_) != w.ndim:
        return 'FAIL', 'rank %d, TensorFlow has %d' % (len(g.shape_), w.ndim)
      eqs += [z3.BoolVal(d == n) if isinstance(d, int) else d == n for d, n in zip(g.shape_, w.shape)]
      for i in itertools.product(*[range(n) for n in w.shape]):
        for x in i:
          sc.index(x)
        eqs.append(_same(g.at(*[z3.IntVal(x) if core.isz(d) else x for x, d in zip(i, g.shape_)]),
                         w[i].item(), tol))
    goal = z3.And(eqs) if eqs else z3.BoolVal(True)
    inst = sc._instances(cap=3000) + sc._matched(goal)
    s = z3.Solver()
    s.set('timeout', 20000)
    s.add(sc.pc)
    s.add(sc.facts)
    s.add(inst)
    s.push()
    s.add(goal)
    r = s.check()
    s.pop()
    if r == z3.unsat:
      return 'FAIL', 'the contract excludes the value TensorFlow computes: %s -> %s' % (cc.used, [
          w.tolist() for w in want])
    if r == z3.unknown:
      return 'unknown', ''
    s.add(z3.Not(goal))
    return ('exact' if s.check() == z3.unsat else 'sound'), ''
  except core.PathEnd:
    return 'FAIL', 'the contract declares the call impossible: %s' % (cc.used,)
  except core.Unsupported as e:
    return 'outside', str(e)
  finally:
    sc.cleanup()
    core._CTX[0] = None


# ---- inputs ------------------------------------------------------------------
def q(r, n):
  """Multiples of 1/4 with ties and zeros: exact in binary."""
  return [r.randint(-8, 8) / 4.0 for _ in range(n)]


def pos(r, n):
  return [r.randint(1, 12) / 4.0 for _ in range(n)]


def M(c, name='x', rank=2, gen=q, hi=3, dtype='float32', **k):
  return c.tensor(name, [c.dim('%s_d%d' % (name, j), hi=hi) for j in range(rank)], dtype, gen=gen, **k)


def R(c, hi=3, gen=q, name='x'):
  return M(c, name, c.choice(name + '_rank', [1, 2, 3]), gen, hi=hi)


# ---- element-wise --------------------------------------------------------------
def _un(nm, gen=q, tol=None):

  def f(c, tf):
    g = tf
    for p in nm.split('.'):
      g = getattr(g, p)
    return g(R(c, gen=gen))

  f.__name__ = nm.replace('.', '_')
  TESTS.append((f.__name__, (nm,), f, 3))


for _n in ('abs', 'sign', 'round', 'floor', 'math.ceil', 'negative', 'square', 'nn.relu', 'nn.relu6', 'zeros_like',
           'ones_like', 'identity', 'size', 'rank', 'shape'):
  _un(_n)
_un('sqrt', pos)
_un('math.rsqrt', lambda r, n: [r.choice([0.25, 1.0, 4.0, 16.0]) for _ in range(n)])
_un('math.reciprocal', pos)
_un('math.reciprocal_no_nan')
_un('math.rint')


def _bi(nm, gen2=q, dtype='float32'):

  def f(c, tf):
    g = tf
    for p in nm.split('.'):
      g = getattr(g, p)
    d = c.dim('d')
    e = c.dim('e')
    x = c.tensor('x', [d, e], dtype, gen=q if dtype == 'float32' else None)
    kind = c.choice('kind', ['same', 'row', 'scalar'])
    y = c.tensor('y', {'same': [d, e], 'row': [e], 'scalar': []}[kind], dtype, gen=gen2,
                 lo=1 if dtype != 'float32' and gen2 is None else None)
    return g(x, y)

  f.__name__ = nm.replace('.', '_') + '_' + dtype
  TESTS.append((f.__name__, (nm,), f, 4))


for _n in ('add', 'subtract', 'multiply', 'maximum', 'minimum', 'less', 'less_equal', 'greater', 'greater_equal',
           'equal', 'not_equal'):
  _bi(_n)
_bi('divide', pos)
_bi('math.divide_no_nan')
_bi('math.multiply_no_nan')
_bi('math.squared_difference')
for _n in ('math.floordiv', 'math.floormod', 'add', 'multiply', 'subtract', 'maximum', 'minimum'):
  _bi(_n, None, 'int32')


@t('logical_and', 'logical_or', 'logical_not')
def logical(c, tf):
  d = c.dim('d', hi=5)
  x, y = c.tensor('x', [d], 'bool'), c.tensor('y', [d], 'bool')
  return [tf.logical_and(x, y), tf.logical_or(x, y), tf.logical_not(x)]


@t('clip_by_value')
def clip(c, tf):
  lo = c.real('lo', gen=lambda r: r.randint(-6, 0) / 4.0)
  hi = c.real('hi', gen=lambda r: r.randint(0, 6) / 4.0)
  return tf.clip_by_value(R(c), lo, hi)


@t('where')
def where(c, tf):
  d, e = c.dim('d'), c.dim('e')
  return tf.where(c.tensor('b', [d, e], 'bool'), c.tensor('x', [d, e], gen=q), c.tensor('y', [d, e], gen=q))


@t('cast')
def casts(c, tf):
  x = R(c)
  i = tf.cast(x, 'int32')
  return [i, tf.cast(i, 'float32'), tf.cast(x > 0.5, 'float32'), tf.cast(x, 'bool')]


# ---- structure -----------------------------------------------------------------
@t('reshape')
def reshape_flat(c, tf):
  return tf.reshape(R(c), [-1])


@t('reshape')
def reshape_2d(c, tf):
  a, b, e = c.dim('a'), c.dim('b'), c.dim('e')
  x = c.tensor('x', [a, b, e], gen=q)
  return [tf.reshape(x, [a * b, e]), tf.reshape(x, [a, b * e]), tf.reshape(x, [-1, e])]


@t('squeeze', 'expand_dims')
def squeeze(c, tf):
  x = M(c)
  return [tf.expand_dims(x, 0), tf.expand_dims(x, -1), tf.expand_dims(x, 1),
          tf.squeeze(tf.expand_dims(x, 1), 1)]


@t('transpose')
def transpose(c, tf):
  x = M(c, rank=3)
  p = c.choice('p', [[0, 1, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]])
  return [tf.transpose(x, p), tf.transpose(M(c, 'y'))]


@t('concat', 'stack', 'unstack')
def concat(c, tf):
  d, e, g = c.dim('d'), c.dim('e'), c.dim('g')
  x, y, z = c.tensor('x', [d, e], gen=q), c.tensor('y', [d, g], gen=q), c.tensor('z', [d, e], gen=q)
  return [tf.concat([x, y], 1), tf.concat([x, z], 0), tf.stack([x, z]), tf.stack([x, z], axis=-1)]


@t('tile', 'repeat')
def tile(c, tf):
  x = M(c)
  n = c.choice('n', [1, 2, 3])
  return [tf.tile(x, [n, 1]), tf.tile(x, [2, n]), tf.repeat(x, n, axis=0), tf.repeat(x, n, axis=1)]


@t('broadcast_to')
def broadcast_to(c, tf):
  d, e = c.dim('d'), c.dim('e')
  return tf.broadcast_to(c.tensor('x', [e], gen=q), [d, e])


@t('pad')
def pad(c, tf):
  x = M(c)
  a, b = c.choice('a', [0, 1, 2]), c.choice('b', [0, 1, 3])
  return tf.pad(x, [[a, b], [b, a]])


@t('slice', 'strided_slice')
def slices(c, tf):
  x = M(c, rank=2, hi=4)
  return [tf.slice(x, [0, 0], [1, 1]), x[0], x[:, 0], x[-1], x[1:], x[:, :1], x[..., tf.newaxis]]


@t('range')
def rng_(c, tf):
  n = c.dim('n', hi=6)
  return [tf.range(n), tf.range(1, n + 1), tf.range(0, 6, 2)]


@t('one_hot')
def one_hot(c, tf):
  d, n = c.dim('d', hi=4), c.dim('n', hi=4)
  return tf.one_hot(c.tensor('i', [d], 'int32', lo=0, hi=3), n)


@t('gather')
def gather(c, tf):
  x = M(c, hi=4)
  i = c.tensor('i', [c.dim('k')], 'int32', gen=lambda r, n: [0] * n)
  return [tf.gather(x, i), tf.gather(x, i, axis=1)]


@t('gather_nd')
def gather_nd(c, tf):
  x = c.tensor('x', [4, 3], gen=q)
  i = c.tensor('i', [c.dim('k'), 1], 'int32', lo=0, hi=2)
  j = c.tensor('j', [c.dim('k2'), 2], 'int32', lo=0, hi=2)
  return [tf.gather_nd(x, i), tf.gather_nd(x, j)]


def _perm(r, n):
  p = list(range(n))
  r.shuffle(p)
  return p


@t('scatter_nd')
def scatter_nd(c, tf):
  k = c.dim('k', hi=4)
  i = c.tensor('i', [k, 1], 'int32', gen=_perm)
  return tf.scatter_nd(i, c.tensor('u', [k], gen=q), [5])


@t('meshgrid')
def meshgrid(c, tf):
  d, e = c.dim('d'), c.dim('e')
  return list(tf.meshgrid(c.tensor('x', [d], gen=q), c.tensor('y', [e], gen=q), indexing='ij'))


@t('linspace')
def linspace(c, tf):
  n = c.dim('n', lo=2, hi=5)
  return tf.linspace(c.real('a', gen=lambda r: r.randint(-4, 0) / 1.0), c.real('b', gen=lambda r: r.randint(0, 4) / 1.0), n)


@t('diag')
def diag(c, tf):
  return tf.linalg.diag(M(c, rank=1))


@t('boolean_mask')
def boolean_mask(c, tf):
  d = c.dim('d', hi=4)
  return tf.boolean_mask(c.tensor('x', [d], gen=q), c.tensor('m', [d], 'bool'))


# ---- reductions ----------------------------------------------------------------
def _red(nm, gen=q):

  def f(c, tf):
    g = tf
    for p in nm.split('.'):
      g = getattr(g, p)
    x = R(c, gen=gen)
    n = len(x.shape)
    ax = c.choice('ax', [None, 0, -1, [0], 'all'])
    ax = list(range(n)) if ax == 'all' else ax
    return g(x, axis=ax, keepdims=c.choice('kd', [False, True]))

  f.__name__ = nm.replace('.', '_')
  TESTS.append((f.__name__, (nm,), f, 8))


for _n in ('reduce_max', 'reduce_min', 'reduce_sum', 'reduce_mean'):
  _red(_n)


@t('reduce_all', 'reduce_any', rounds=6)
def quant(c, tf):
  x = c.tensor('x', [c.dim('d'), c.dim('e')], 'bool')
  ax = c.choice('ax', [None, 0, 1])
  return [tf.reduce_all(x, axis=ax), tf.reduce_any(x, axis=ax)]


@t('reduce_prod')
def prod(c, tf):
  return tf.reduce_prod(c.tensor('x', [3, 2], gen=lambda r, n: [r.randint(-2, 2) for _ in range(n)]), axis=1)


@t('argmin', 'argmax', rounds=6)
def arg(c, tf):
  x = M(c)
  ax = c.choice('ax', [0, 1, -1])
  return [tf.argmin(x, axis=ax), tf.argmax(x, axis=ax)]


@t('sort', 'argsort', 'math.top_k', rounds=6)
def sort(c, tf):
  x = M(c, rank=c.choice('r', [1, 2]), hi=4)
  k = c.choice('k', [1, 2])
  out = [tf.sort(x), tf.sort(x, direction='DESCENDING'), tf.argsort(x), tf.argsort(x, stable=True)]
  if not hasattr(x, 'numpy') or x.shape[-1] >= k:
    out += list(tf.math.top_k(x, k=k))
  else:
    raise core.Skip()
  return out


@t('cumsum')
def cumsum(c, tf):
  x = c.tensor('x', [c.dim('d', hi=4)], gen=q)
  return tf.cumsum(x)


@t('math.count_nonzero')
def count_nonzero(c, tf):
  return tf.math.count_nonzero(M(c))


@t('math.bincount')
def bincount(c, tf):
  return tf.math.bincount(c.tensor('x', [c.dim('d', hi=5)], 'int32', lo=0, hi=3), minlength=4)


@t('unique')
def unique(c, tf):
  return tf.unique(M(c, rank=1, hi=5))[0]


@t('matmul', rounds=6)
def matmul(c, tf):
  a, b, e = c.dim('a'), c.dim('b'), c.dim('e')
  ta, tb = c.choice('ta', [False, True]), c.choice('tb', [False, True])
  x = c.tensor('x', [b, a] if ta else [a, b], gen=q)
  y = c.tensor('y', [e, b] if tb else [b, e], gen=q)
  return tf.matmul(x, y, transpose_a=ta, transpose_b=tb)


@t('einsum', 'tensordot', 'add_n', 'math.logical_xor', 'case')
def compositions(c, tf):
  a, b, e = c.dim('a'), c.dim('b'), c.dim('e')
  x, y = c.tensor('x', [a, b], gen=q), c.tensor('y', [b, e], gen=q)
  u, v = c.tensor('u', [a], 'bool'), c.tensor('v', [a], 'bool')
  return [tf.einsum('ij,jk->ik', x, y), tf.tensordot(x, y, 1), tf.tensordot(x, y, [[1], [0]]), tf.add_n([x, x, -x]),
          tf.math.logical_xor(u, v), tf.case([(tf.less(c.real('r', gen=lambda r: r.randint(-2, 2) / 2.0), 0.0), lambda: x)],
                                                     default=lambda: -x)]


@t('norm')
def norm(c, tf):
  return tf.norm(c.tensor('x', [2], gen=lambda r, n: r.choice([[3, 4], [0, 0], [0, -2], [6, -8]])))


@t('nn.pool', rounds=6)
def pool(c, tf):
  x = c.tensor('x', [1, c.dim('h', hi=5), c.dim('w', hi=5), 1], gen=q)
  win = c.choice('win', [[1, 1], [2, 2], [2, 1], [3, 2]])
  return tf.nn.pool(x, win, c.choice('ty', ['AVG', 'MAX']), strides=win, padding='SAME')


@t('where')
def where_rows(c, tf):
  d = c.dim('d', hi=5)
  return tf.where(c.tensor('m', [d], 'bool'))


@t('where')
def where_rows_2d(c, tf):
  return tf.where(c.tensor('m', [c.dim('d', hi=3), c.dim('e', hi=3)], 'bool'))


@t('sparse.to_dense', 'SparseTensor')
def to_dense(c, tf):
  n = c.dim('n', hi=5)
  x = c.tensor('x', [n], gen=q)
  ix = tf.where(x > 0.5)
  v = tf.gather_nd(x, ix)
  return tf.sparse.to_dense(tf.SparseTensor(ix, v, tf.cast(tf.shape(x), 'int64')))


@t('clip_by_norm')
def clip_by_norm(c, tf):
  x = c.tensor('x', [2], gen=lambda r, n: r.choice([[3, 4], [0, 0], [0, -2], [6, -8]]))
  return tf.clip_by_norm(x, c.choice('m', [1.0, 5.0, 20.0]))


# ---- quantisation ----------------------------------------------------------------
@t('quantization.fake_quant_with_min_max_vars', rounds=8)
def fake_quant(c, tf):
  x = M(c, rank=c.choice('r', [1, 2]))
  mn = c.real('mn', gen=lambda r: r.choice([0.0, -1.0, -1.75, -0.5]))
  mx = c.real('mx', gen=lambda r: r.choice([0.0, 1.0, 1.75, 0.5]))
  if not core.is_sym() and mn == mx:
    raise core.Skip()
  return tf.quantization.fake_quant_with_min_max_vars(x, mn, mx, num_bits=c.choice('b', [2, 4, 8]),
                                                      narrow_range=c.choice('n', [False, True]))


@t('quantization.fake_quant_with_min_max_vars_per_channel', rounds=6)
def fake_quant_pc(c, tf):
  d, e = c.dim('d'), c.dim('e')
  mn = c.tensor('mn', [e], gen=lambda r, n: [r.choice([-1.0, -1.75, -0.5]) for _ in range(n)])
  mx = c.tensor('mx', [e], gen=lambda r, n: [r.choice([0.0, 1.0, 1.75]) for _ in range(n)])
  return tf.quantization.fake_quant_with_min_max_vars_per_channel(
      c.tensor('x', [d, e], gen=q), mn, mx, num_bits=c.choice('b', [2, 4, 8]), narrow_range=c.choice('n', [False, True]))


def covered():
  return sorted(set(n for _, names, _, _ in TESTS for n in names))


def _resolve(n):
  from dv import shim
  for p in ('',) + tuple(sorted(shim.ALIAS, key=len, reverse=True)):
    if n.startswith(p):
      m = shim.ALIAS.get(p, '') + n[len(p):]
      if m in ops.OPS:
        return ops.canon(ops.OPS[m])
  return n


def check(used, scale):
  """Cross-check the tests of the given operations (canonical names)."""
  out = dict(tested=[], not_tested=[], tally={}, failures=[])
  seen = set()
  for name, names, f, rounds in TESTS:
    cn = set(_resolve(n) for n in names)
    if not cn & set(used):
      continue
    seen |= cn
    for s in range(2 * rounds * scale):
      v, m = run(name, f, s // 2, sized=bool(s % 2))
      out['tally'][v] = out['tally'].get(v, 0) + 1
      if v == 'FAIL':
        out['failures'].append((name, m[:400]))
  out['tested'] = sorted(set(used) & seen)
  out['not_tested'] = sorted(set(used) - seen)
  return out


def main(argv):
  scale = int(argv[1]) if len(argv) > 1 else 1
  only = set(argv[2:])
  bad = 0
  for name, names, f, rounds in TESTS:
    if only and not only & set(names) and name not in only:
      continue
    tally, msgs = {}, []
    for s in range(2 * rounds * scale):
      v, m = run(name, f, s // 2, sized=bool(s % 2))
      tally[v] = tally.get(v, 0) + 1
      if m and (v == 'FAIL' or v not in [x for x, _ in msgs]):
        msgs.append((v, m))
    bad += tally.get('FAIL', 0)
    print('%-28s %s' % (name, tally))
    for v, m in msgs[:2]:
      print('    %s: %s' % (v, m[:300]))
  print('%d failures' % bad)
  return 1 if bad else 0


if __name__ == '__main__':
  sys.exit(main(sys.argv))
