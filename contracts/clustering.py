"""Contracts: weight clustering (lookup, centroids, wrapper, gradients)."""
import contextlib
import types
from dv.api import *  # noqa
from dv import ops, tens

ALG = 'clustering.keras.clustering_algorithm'
CEN = 'clustering.keras.clustering_centroids'
WR = 'clustering.keras.cluster_wrapper'
CL = 'clustering.keras.cluster'


def _alg():
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_algorithm
  return clustering_algorithm


def _cfg():
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
  return cluster_config


def _distinct(r, n):
  """Centroids: sometimes repeated, sometimes sorted."""
  v = [round(r.uniform(-2, 2), 2) for _ in range(n)]
  if n > 1 and r.random() < 0.2:
    v[-1] = v[0]
  return v


def _dist(w, c_):
  return absz(w - c_)


# --- nearest-centroid lookup ------------------------------------------------
@contract('C01', [ALG + ':ClusteringAlgorithm.get_pulling_indices',
                  ALG + ':ClusteringAlgorithm.get_clustered_weight',
                  ALG + ':ClusteringAlgorithm.add_gradient_to_original_weight',
                  ALG + ':ClusteringAlgorithm.__init__'], cases=120, deep=1200)
def nearest_centroid(c):
  """Every weight is replaced by a centroid no farther from it than any other."""
  rank = c.choice('rank', [2, 1, 3, 4])
  shape = [c.dim('d%d' % k, 1, 4) for k in range(rank)]
  n = c.dim('clusters', 1, 6)
  avg = c.choice('aggregation', ['SUM', 'AVG'])
  w = c.tensor('w', shape, gen=_far)
  cen = c.var('centroids', [n], gen=_distinct)
  a = _alg().ClusteringAlgorithm(cen, _cfg().GradientAggregation[avg])
  idx = a.get_pulling_indices(w)
  c0 = snapshot(cen)
  out = a.get_clustered_weight(idx, w)
  c.prove('index_shape', same_shape(idx, w))
  c.prove('shape_kept', same_shape(out, w))
  c.prove('indices_in_range', c.forall(shape, lambda *i: And(ge(el(idx, *i), 0), el(idx, *i) < zi_(c, n))))
  c.prove('value_is_the_indexed_centroid', c.forall(shape, lambda *i: eq(
      el(out, *i), el(c0, el(idx, *i)))))
  c.prove('no_centroid_is_closer', c.forall(shape + [n], lambda *i: le(
      _dist(el(w, *i[:-1]), el(out, *i[:-1])), _dist(el(w, *i[:-1]), el(c0, i[-1])))))
  cc = snapshot(cen)
  c.prove('centroids_untouched', c.forall([n], lambda k: eq(el(cc, k), el(c0, k))))


def zi_(c, n):
  return zi(n) if c.symbolic else n


def _far(r, n):
  v = [round(r.uniform(-2, 2), 2) for _ in range(n)]
  if n and r.random() < 0.1:
    v[r.randrange(n)] = r.choice([-2e6, 3e6, -1e6])
  return v


@contract('C01', [ALG + ':ClusteringAlgorithmPerChannel.get_pulling_indices',
                  ALG + ':ClusteringAlgorithmPerChannel.get_clustered_weight'], cases=80, deep=800,
          note='the channel loop is unrolled: channel counts 1..3 (bounded), all other sizes unbounded')
def nearest_centroid_per_channel(c):
  """Each channel uses only its own centroid row, nearest one."""
  ch = c.choice('channels', [2, 1, 3])
  fmt = c.choice('format', ['channels_last', 'channels_first'])
  d = [c.dim('d%d' % k, 1, 3) for k in range(3)]
  first = fmt == 'channels_first'
  shape = [d[0], ch, d[1], d[2]] if first else [d[0], d[1], d[2], ch]
  pos = 1 if first else 3
  n = c.dim('clusters', 1, 5)
  w = c.tensor('w', shape, gen=_far)
  cen = c.var('centroids', [ch, n], gen=_distinct)
  a = _alg().ClusteringAlgorithmPerChannel(cen, data_format=fmt)
  idx = a.get_pulling_indices(w)
  out = a.get_clustered_weight(idx, w)
  c0 = snapshot(cen)
  c.prove('index_shape', same_shape(idx, w))
  c.prove('shape_kept', same_shape(out, w))
  c.prove('value_from_own_channel', c.forall(shape, lambda *i: And(
      ge(el(idx, *i), 0), el(idx, *i) < zi_(c, n), eq(el(out, *i), el(c0, i[pos], el(idx, *i))))))
  c.prove('no_centroid_of_the_channel_is_closer', c.forall(shape + [n], lambda *i: le(
      _dist(el(w, *i[:4]), el(out, *i[:4])), _dist(el(w, *i[:4]), el(c0, i[pos], i[4])))))


# --- centroid initialisation ------------------------------------------------
def _cent():
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_centroids
  return clustering_centroids


def _stub_kmeans(c):
  from dv import core as dvc

  def spec(points, num_to_sample, seed=None, num_retries_per_sample=None):
    x = lift(points)
    n = tens.iv(lift(num_to_sample).term) if isinstance(num_to_sample, T) else tens.iv(num_to_sample)
    p = dvc.ctx().freshf('sampled', 1, 'I')
    dvc.ctx().add_univ([n], lambda i: And(p(zi(i)) >= 0, p(zi(i)) < zi(x.shape_[0])), 'sampled rows')
    # num_to_sample <= number of points, else InvalidArgumentError
    if not dvc.ctx().branch(zi(n) <= zi(x.shape_[0])):
      raise dvc.PathEnd()
    return T((n, x.shape_[1]), x.dtype, lambda i, j: x.at(p(zi(i)), j))

  from dv import tens
  c.stub(_cent().clustering_ops, 'kmeans_plus_plus_initialization', spec,
         'kmeans_plus_plus_initialization: returns num_to_sample rows of its points')


_INIT = {'LINEAR': 'LinearCentroidsInitialisation', 'RANDOM': 'RandomCentroidsInitialisation',
         'KMEANS_PLUS_PLUS': 'KmeansPlusPlusCentroidsInitialisation'}


@contract('C02', [CEN + ':LinearCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':RandomCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':KmeansPlusPlusCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':AbstractCentroidsInitialisation.get_cluster_centroids',
                  CEN + ':AbstractCentroidsInitialisation._regular_clustering'], cases=80, deep=800)
def centroids_cover_range(c):
  """N centroids, all inside [min(w), max(w)]; linear: evenly spaced, both ends included."""
  kind_ = c.choice('init', list(_INIT))
  if c.symbolic:
    _stub_kmeans(c)
  a, b = c.dim('rows', 1, 5), c.dim('cols', 2, 5)
  n = c.choice('clusters', [3, 2, 8]) if c.symbolic else c.choice('clusters', [3, 2, 8, 5])
  if not c.symbolic:
    c.assume(a * b >= n)
  w = c.tensor('w', [a, b])
  init = _cent().CentroidsInitializerFactory.get_centroid_initializer(
      _cfg().CentroidInitialization[kind_])(w, n)
  cen = init.get_cluster_centroids()
  c.prove('exactly_n', And(len(dims(cen)) == 1, eq(dims(cen)[0], n)))
  lo, hi = _bounds(c, w, [a, b])
  c.prove('inside_weight_range', And([And(ge(el(cen, k), lo), le(el(cen, k), hi)) for k in range(n)]))
  if kind_ == 'LINEAR':
    c.prove('evenly_spaced_to_both_ends', And([
        eq(el(cen, k), lo + (hi - lo) * k / (n - 1)) for k in range(n)]))


def _bounds(c, w, shape):
  if c.symbolic:
    return val(ops.OPS['reduce_min'](w)), val(ops.OPS['reduce_max'](w))
  import numpy as np
  a = np.asarray(w)
  return float(a.min()), float(a.max())


@contract('C02', [CEN + ':AbstractCentroidsInitialisation._zero_centroid_initialization',
                  CEN + ':AbstractCentroidsInitialisation.get_cluster_centroids'],
          cases=150, deep=1500, opts={'feas_ms': 1000},
          note='proof part: the per-interval method is represented by its contract (k values inside '
          'the interval, none for k <= 0), discharged for the linear, random and kmeans++ '
          'initialisers by centroids_cover_range and interval_contract')
def sparsity_centroids(c):
  """Sparsity-preserving initialisation: one exact zero; every other centroid strictly between
  the extreme weights of one sign; at most N in total and exactly N when any weight is non-zero."""
  a, b = c.dim('rows', 1, 4), c.dim('cols', 1, 5)
  w = c.tensor('w', [a, b], gen=_sparse)
  if c.symbolic:
    return _sparsity_sym(c, w, a, b)
  kind_ = c.choice('init', ['LINEAR', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS', 'RANDOM'])
  n = c.choice('clusters', [3, 4, 8])
  init = _cent().CentroidsInitializerFactory.get_centroid_initializer(
      _cfg().CentroidInitialization[kind_])(w, n, preserve_sparsity=True)
  import numpy as np
  v = np.asarray(w)
  if kind_ == 'KMEANS_PLUS_PLUS':   # sampling needs enough points of each sign
    c.assume((v < 0).sum() >= n and (v > 0).sum() >= n or not v.any())
  cen = init.get_cluster_centroids()
  m = dims(cen)[0]
  lo, hi = _bounds(c, w, [a, b])
  x = [el(cen, k) for k in range(m)]
  import numpy as np
  a_ = np.asarray(w)
  c.prove('at_most_n', m <= n and (m == n or not a_.any()))
  c.prove('exactly_one_zero', sum(1 for y in x if y == 0) == 1)
  c.prove('inside_range', all(min(lo, 0) - .0101 <= y <= max(hi, 0) + .0101 for y in x))
  neg, pos = a_[a_ < 0], a_[a_ > 0]
  c.prove('split_by_sign', (bool((np.array(x) < 0).sum() == 0) or len(neg) > 0) and
          (bool((np.array(x) > 0).sum() == 0) or len(pos) > 0))
  if a_.any():
    want = round((n - 1) * (len(neg) / (len(neg) + len(pos))))
    c.prove('proportional_split', abs(int((np.array(x) < 0).sum()) - want) <= (
        1 if abs((n - 1) * (len(neg) / (len(neg) + len(pos))) % 1 - 0.5) < 1e-6 else 0))


@contract('C02', [CEN + ':LinearCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':RandomCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':KmeansPlusPlusCentroidsInitialisation._calculate_centroids_for_interval'],
          cases=60, deep=600)
def interval_contract(c):
  """Any number k of centroids for one interval: k values, all inside the interval, none for 0."""
  kind_ = c.choice('init', list(_INIT))
  if c.symbolic:
    _stub_kmeans(c)
  a = c.dim('points', 1, 6)
  k = c.int('k', 0, None if c.symbolic else 5)
  w = c.tensor('w', [a])
  init = _cent().CentroidsInitializerFactory.get_centroid_initializer(
      _cfg().CentroidInitialization[kind_])(w, 4, preserve_sparsity=True)
  if not c.symbolic:
    c.assume(kind_ != 'KMEANS_PLUS_PLUS' or k <= a)
  fn = get(init, '_calculate_centroids_for_interval')
  cen = fn(w, k)
  c.prove('exactly_k', And(len(dims(cen)) == 1, eq(dims(cen)[0], val(k) if c.symbolic else k)))
  lo, hi = _bounds(c, w, [a])
  c.prove('inside_interval', c.forall([dims(cen)[0]], lambda i: And(
      ge(el(cen, i), lo), le(el(cen, i), hi))))


def _sparsity_sym(c, w, a, b):
  """The real driver over the contract of its per-interval callee."""
  from dv import core as dvc
  from dv import tens
  import tensorflow as tf
  n = c.int('clusters', 2)
  calls = []

  class Callee(_cent().AbstractCentroidsInitialisation):

    def _calculate_centroids_for_interval(self, weight_interval, number_of_clusters_for_interval):
      k = number_of_clusters_for_interval
      k = lift(k).term if isinstance(k, T) else k
      if not dvc.ctx().branch(zi(k) > 0):
        return tf.constant([])
      t = lift(weight_interval)
      f = dvc.ctx().freshf('part', 1, 'R')
      below, above = dvc.ctx().freshf('below', 1, 'I'), dvc.ctx().freshf('above', 1, 'I')
      d = zi(t.shape_[0])

      def bound(i):
        x, y = below(zi(i)), above(zi(i))
        return And(x >= 0, x < d, y >= 0, y < d, f(zi(i)) >= t.at(x), f(zi(i)) <= t.at(y))
      dvc.ctx().add_univ([tens.iv(k)], bound, 'interval part')
      # an interval must not be empty when centroids are requested from it
      dvc.ctx().prove('interval_not_empty', d > 0)
      calls.append((zi(k), t, bound, above, below))
      return T((tens.iv(k),), t.dtype, lambda i: f(zi(i)))

  init = Callee(w, n, preserve_sparsity=True)
  cen = init.get_cluster_centroids()
  m = dims(cen)[0]
  flat = [a, b]
  if c.branch(zi(m) > 1):
    c.prove('exactly_n', eq(zi(m), val(n)))
  else:
    c.prove('only_zero_weights', c.forall(flat, lambda *i: eq(el(w, *i), 0)))
    c.prove('single_zero', And(eq(zi(m), 1), eq(el(cen, 0), 0)))
    return
  lo, hi = _bounds(c, w, flat)
  neg, pos = [], []
  for kk, t, bound, above, below in calls:
    i = c.some_index(zi(t.shape_[0]))
    x = t.at(i)
    c.prove('parts_hold_weights', And(ge(x, lo), le(x, hi)))
    (neg if c.branch(x < 0) else pos).append((kk, t, bound, above, below))
  for part, sign in ((neg, -1), (pos, 1)):
    c.prove('one_call_per_sign', len(part) <= 1)
    for kk, t, bound, above, below in part:
      i = c.some_index(zi(t.shape_[0]))
      c.prove('part_has_one_sign', t.at(i) * sign > 0)
  nneg = neg[0][0] if neg else zi(0)
  c.prove('exact_zero_between_the_parts', eq(el(cen, nneg), 0))
  for part, sign in ((neg, -1), (pos, 1)):
    if part:
      kk, t, bound, above, below = part[0]
      k = c.some_index(kk)
      x = c.index(above(k) if sign < 0 else below(k))
      c.lemma('callee_value_in_interval', bound(k))
      c.lemma('interval_bound_has_the_sign', t.at(x) * sign > 0)
      c.prove('negative_then_positive_part', el(cen, k if sign < 0 else nneg + 1 + k) * sign > 0)
  c.prove('parts_and_zero_are_all', eq(zi(m), nneg + 1 + (pos[0][0] if pos else 0)))


def _sparse(r, n):
  p = r.choice([0.3, 0.6, 1.0, 0.0])
  s = r.choice([0, 0, 1, -1])
  out = []
  for _ in range(n):
    v = round(r.uniform(0.05, 2), 2) * (s or r.choice([1, -1]))
    out.append(0.0 if r.random() < p else v)
  return out


@contract('C02', [CEN + ':DensityBasedCentroidsInitialisation._calculate_centroids_for_interval',
                  CEN + ':DensityBasedCentroidsInitialisation._get_centroids',
                  CEN + ':TFCumulativeDistributionFunction.get_cdf_value',
                  CEN + ':AbstractCentroidsInitialisation._per_channel_clustering'],
          mode='bounded', cases=60, deep=600,
          note='searchsorted/map_fn over a 30 point grid is outside the operation contracts')
def density_and_per_channel(c):
  import numpy as np
  kind_ = c.choice('init', ['DENSITY_BASED', 'LINEAR', 'KMEANS_PLUS_PLUS', 'RANDOM'])
  pc = c.choice('per_channel', [False, True])
  n = c.int('clusters', 2, 6)
  shape = [c.int('a', 2, 3), c.int('b', 2, 3), c.int('cc', 2, 3), c.int('ch', 1, 3)]
  fmt = c.choice('format', ['channels_last', 'channels_first']) if pc else 'channels_last'
  w = c.tensor('w', shape)
  a = np.asarray(w)
  init = _cent().CentroidsInitializerFactory.get_centroid_initializer(
      _cfg().CentroidInitialization[kind_])(w, n, pc, fmt)
  cen = np.asarray(init.get_cluster_centroids())
  parts = ([a[:, k] if fmt == 'channels_first' else a[..., k] for k in range(
      a.shape[1] if fmt == 'channels_first' else a.shape[3])] if pc else [a])
  rows = cen if pc else cen[None]
  c.prove('one_row_per_channel', rows.shape == (len(parts), n))
  gap = 0.0101 if kind_ == 'DENSITY_BASED' else 1e-5
  for p, r in zip(parts, rows):
    c.prove('inside_weight_range', r.min() >= p.min() - gap and r.max() <= p.max() + gap)
    if kind_ == 'LINEAR':
      c.prove('evenly_spaced', np.allclose(r, np.linspace(p.min(), p.max(), n), atol=1e-5))
    if kind_ == 'KMEANS_PLUS_PLUS':
      c.prove('samples_of_the_weights', all(np.isclose(p.ravel(), x).any() for x in r))
    if kind_ == 'DENSITY_BASED':
      # the CDF quantile of each centroid matches the evenly spaced probability within one grid cell
      grid = (p.max() - p.min() + 0.02) / 29
      for x, q in zip(r, np.linspace(0.01, 1, n)):
        if q < 1:
          c.prove('cdf_quantile', (p <= x + 1e-5).mean() >= q - 1e-6 and
                  (p <= x - grid - 1e-5).mean() <= q + 1e-6)


# --- the wrapper's update step ---------------------------------------------
class _State:
  """The wrapper's state without Keras: every attribute the update method uses."""

  def __init__(self, cls, **kw):
    self.__dict__.update(kw)
    object.__setattr__(self, '_cls', cls)

  def __getattr__(self, n):
    a = getattr(object.__getattribute__(self, '_cls'), n)
    return types.MethodType(a, self) if isinstance(a, types.FunctionType) else a


def _upd_common(c, per_channel):
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  ch = c.choice('channels', [2, 1]) if per_channel else None
  shape = ([c.dim('d%d' % k, 1, 3) for k in range(3)] + [ch] if per_channel
           else [c.dim('d0', 1, 4), c.dim('d1', 1, 4)])
  n = c.dim('clusters', 2, 5)
  ps = c.choice('preserve_sparsity', [True, False])
  w = c.var('w', shape)
  cen = c.var('centroids', [ch, n] if per_channel else [n], gen=_distinct)
  idx = c.var('pulling', shape, 'int64', gen=lambda r, k: [0] * k)
  z = c.tensor('zero_idx', [ch] if per_channel else [], 'int64', gen=lambda r, k: [
      r.randint(0, 1) for _ in range(k)])
  mask = c.tensor('mask', shape, gen=lambda r, k: [float(r.random() < .6) for _ in range(k)])
  if per_channel:
    c.assume(And([And(ge(el(z, k), 0), el(z, k) < zi_(c, n)) for k in range(ch)]))
  else:
    c.assume(And(ge(val(z), 0), val(z) < zi_(c, n)))
  if c.symbolic:
    from dv import core as dvc
    c.add_univ(shape, lambda *i: Or(mask.at(*i) == 0, mask.at(*i) == 1), '0/1 mask')
  A = _alg()
  cls = A.ClusteringAlgorithmPerChannel if per_channel else A.ClusteringAlgorithm
  alg = cls(cen, data_format='channels_last')
  layer = types.SimpleNamespace(kernel=w)
  st = _State(cluster_wrapper.ClusterWeights, layer=layer, preserve_sparsity=ps,
              cluster_per_channel=per_channel, num_channels=ch, data_format='channels_last',
              number_of_clusters=n,
              original_clusterable_weights={'kernel': w}, clustering_algorithms={'kernel': alg},
              pulling_indices={'kernel': idx}, cluster_centroids={'kernel': cen},
              sparsity_masks={'kernel': mask} if ps else {}, zero_idx={'kernel': z} if ps else {})
  c0, w0 = snapshot(cen), snapshot(w)
  get(st, 'update_clustered_weights_associations')()
  out = layer.kernel
  c1, w1, i1 = snapshot(cen), snapshot(w), snapshot(idx)
  row = (lambda k, i: (i[3], k)) if per_channel else (lambda k, i: (k,))
  c.prove('layer_weight_is_lookup', And(same_shape(out, w0), c.forall(shape, lambda *i: And(
      ge(el(i1, *i), 0), el(i1, *i) < zi_(c, n),
      eq(el(out, *i), el(c1, *row(el(i1, *i), i)))))))
  c.prove('original_weight_untouched', c.forall(shape, lambda *i: eq(el(w1, *i), el(w0, *i))))
  eff = (lambda *i: el(w0, *i) * el(mask, *i)) if ps else (lambda *i: el(w0, *i))
  c.prove('nearest_current_centroid', c.forall(shape + [n], lambda *i: le(
      _dist(eff(*i[:-1]), el(out, *i[:-1])), _dist(eff(*i[:-1]), el(c1, *row(i[-1], i))))))
  cd = [ch, n] if per_channel else [n]
  if ps:
    zz = (lambda i: el(c0, i[0], el(z, i[0]))) if per_channel else (lambda i: el(c0, val(z)))
    c.prove('zero_centroid_pinned', c.forall(cd, lambda *i: eq(
        el(c1, *i), If(eq(el(c0, *i), zz(i), 0), 0.0, el(c0, *i)))))
    c.prove('pruned_positions_stay_zero', c.forall(shape, lambda *i: Implies(
        eq(el(mask, *i), 0), eq(el(out, *i), 0, 0))))
  else:
    c.prove('centroids_untouched', c.forall(cd, lambda *i: eq(el(c1, *i), el(c0, *i))))


@contract('C03', [WR + ':ClusterWeights.update_clustered_weights_associations',
                  WR + ':ClusterWeights._get_zero_idx_mask', WR + ':ClusterWeights._get_zero_centroid',
                  WR + ':ClusterWeights.set_weight_to_layer'], cases=120, deep=1200)
def update_step(c):
  """One update from ANY state: lookup weights, nearest centroid, zeros kept (induction step)."""
  _upd_common(c, False)


@contract('C03', [WR + ':ClusterWeights.update_clustered_weights_associations'], cases=60, deep=600,
          note='channel loop unrolled for 1..2 channels')
def update_step_per_channel(c):
  _upd_common(c, True)


@contextlib.contextmanager
def _factory(cls):
  """The centroid initialisation by its contract (C02): whatever values it returns, and what it was asked for."""
  F = _cent().CentroidsInitializerFactory
  old = F.__dict__['get_centroid_initializer']
  F.get_centroid_initializer = classmethod(lambda k, ini: cls(ini))
  try:
    yield
  finally:
    F.get_centroid_initializer = old


def _build_common(c, per_channel):
  import inspect
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper, clusterable_layer
  ch = c.choice('channels', [2, 1]) if per_channel else None
  shape = ([c.dim('d%d' % k, 1, 3) for k in range(3)] + [ch] if per_channel
           else [c.dim('d0', 1, 4), c.dim('d1', 1, 4)])
  n = c.dim('clusters', 3, 5)
  ps = c.choice('preserve_sparsity', [True, False])
  agg = c.choice('aggregation', ['SUM', 'AVG'])
  other = c.choice('other_weights', ['before', 'after', 'none'])
  w = c.var('w', shape, gen=lambda r, k: [r.choice([0.0, round(r.uniform(-2, 2), 2)]) for _ in range(k)])
  first = c.tensor('centroids', [ch, n] if per_channel else [n], gen=_distinct)
  bias = c.var('bias', [2])
  W = cluster_wrapper.ClusterWeights
  asked = []

  class Init:

    def __init__(self, kind_):
      self.kind = kind_

    def __call__(self, weights, number_of_clusters, cluster_per_channel=False, data_format='channels_last',
                 preserve_sparsity=False):
      asked.append((self.kind, weights, number_of_clusters, cluster_per_channel, data_format, preserve_sparsity))
      return self

    def get_cluster_centroids(self):
      return first

  base = keras.layers.Conv2D if per_channel else keras.layers.Dense

  class Layer(base, clusterable_layer.ClusterableLayer):
    weights = property(lambda s: {'before': [bias, s.__dict__['_w']], 'after': [s.__dict__['_w'], bias],
                                  'none': [s.__dict__['_w']]}[other])

    def get_clusterable_weights(self):
      return [('kernel', self.kernel)]

  layer = Layer(2, 2) if per_channel else Layer(2)
  layer.built = True
  layer.__dict__['_w'] = w
  layer.kernel = w
  made = {}
  from dv import tens, core as dvc
  x = W(layer, tens.pyint(n) if c.symbolic else n, _cfg().CentroidInitialization.RANDOM, ps, per_channel, _cfg().GradientAggregation[agg])
  real = x.add_weight
  sig = inspect.signature(keras.layers.Layer.add_weight)

  def add_weight(*a, **k):
    b = sig.bind(None, *a, **k).arguments
    if not c.symbolic:
      v = real(*a, **k)
    else:
      if not hasattr(b.get('initializer'), 'value'):
        raise dvc.Unsupported('initializer of a variable')
      v = tens.Variable(lift(b['initializer'].value, b.get('dtype')))
    made[id(v)] = (b.get('trainable'), b.get('shape'))
    made.setdefault('keep', []).append(v)
    return v

  object.__setattr__(x, 'add_weight', add_weight)
  w0, b0 = snapshot(w), snapshot(bias)
  with _factory(Init):
    x.build((None, 4))
  cen, idx = x.cluster_centroids['kernel'], x.pulling_indices['kernel']
  w1, c1, i1 = snapshot(w), snapshot(cen), snapshot(idx)
  c.prove('initialised_once_as_configured', len(asked) == 1 and asked[0][0] == _cfg().CentroidInitialization.RANDOM
          and asked[0][1] is w and asked[0][3:] == (per_channel, 'channels_last', ps))
  c.prove('initialised_with_the_cluster_count', eq(val(asked[0][2]), zi_(c, n)))
  c.prove('original_weight_kept', x.original_clusterable_weights['kernel'] is w and list(
      x.original_clusterable_weights) == ['kernel'] and getattr(x, 'original_weight_kernel') is w)
  c.prove('position_for_stripping', dict(x.position_original_weights) == {1 if other == 'before' else 0: 'kernel'})
  c.prove('original_weight_untouched', c.forall(shape, lambda *i: eq(el(w1, *i), el(w0, *i))))
  c.prove('only_centroids_are_trained', made[id(cen)][0] in (True, None) and made[id(idx)][0] is False
          and len(made['keep']) == 2)
  cd = [ch, n] if per_channel else [n]
  c.prove('centroids_start_as_initialised', And(same_shape(cen, first), c.forall(cd, lambda *i: eq(
      el(c1, *i), el(first, *i)))))
  alg = x.clustering_algorithms['kernel']
  c.prove('algorithm_of_the_layer', type(alg) is (
      _alg().ClusteringAlgorithmPerChannel if per_channel else _alg().ClusteringAlgorithm) and (
          alg.cluster_centroids is cen) and alg.data_format == 'channels_last' and (
              alg.cluster_gradient_aggregation == _cfg().GradientAggregation[agg]))
  row = (lambda k, i: (i[3], k)) if per_channel else (lambda k, i: (k,))
  out = lambda *i: el(c1, *row(el(i1, *i), i))
  c.prove('indices_in_range', And(same_shape(idx, w0), c.forall(shape, lambda *i: And(
      ge(el(i1, *i), 0), el(i1, *i) < zi_(c, n)))))
  c.prove('nearest_centroid', c.forall(shape + [n], lambda *i: le(
      _dist(el(w0, *i[:-1]), out(*i[:-1])), _dist(el(w0, *i[:-1]), el(c1, *row(i[-1], i))))))
  if per_channel:
    c.prove('channels_of_the_kernel', eq(val(x.num_channels), ch))
  if ps:
    mask, z = x.sparsity_masks['kernel'], x.zero_idx['kernel']
    c.prove('mask_is_where_the_clustered_weight_is_not_zero', And(same_shape(mask, w0), c.forall(shape, lambda *i: eq(
        el(mask, *i), If(eq(out(*i), 0, 0), 0.0, 1.0)))))
    zc = (lambda i: el(z, i[0])) if per_channel else (lambda i: val(z))
    c.prove('zero_centroid_is_the_smallest', c.forall(cd, lambda *i: And(
        ge(zc(i), 0), zc(i) < zi_(c, n), le(absz(el(c1, *i[:-1], zc(i))), absz(el(c1, *i))))))
    c.prove('zero_weights_are_masked', c.forall(shape + [n], lambda *i: Implies(And(
        eq(el(w0, *i[:-1]), 0, 0), eq(el(c1, *row(i[-1], i)), 0, 0)), eq(el(mask, *i[:-1]), 0, 0))))


@contract('C03', [WR + ':ClusterWeights.build', WR + ':ClusterWeights.get_weight_from_layer',
                  WR + ':ClusterWeights.set_weight_to_layer',
                  'clustering.keras.clustering_registry:ClusteringLookupRegistry.get_clustering_impl'],
          cases=80, deep=600, note='the centroid initialiser is represented by its contract (any values; C02)')
def build_state(c):
  """The state build leaves behind is the one update_step starts from (induction base)."""
  _build_common(c, False)


@contract('C03', [WR + ':ClusterWeights.build'], cases=60, deep=400,
          note='channel loop unrolled for 1..2 channels; the centroid initialiser is represented by its contract')
def build_state_per_channel(c):
  _build_common(c, True)


# --- cluster_weights -----------------------------------------------------------
@contract('C03', [CL + ':layer_has_enough_weights_to_cluster'], cases=60, deep=300)
def enough_weights_to_cluster(c):
  """A convolution is clustered iff what shares one set of centroids has more weights than there are centroids."""
  import warnings
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  shape = [c.dim('d%d' % k, 1, 3) for k in range(4)]
  n = c.int('clusters', 2, None if c.symbolic else 40)
  pc = c.choice('per_channel', [False, True])
  kernel = c.var('kernel', shape)

  class Layer(keras.layers.Conv2D):
    trainable_weights = [kernel]

  layer = Layer(3, 2)
  layer.__dict__['kernel'] = kernel
  layer.__dict__['filters'] = tens.pyint(zi(shape[3])) if c.symbolic else shape[3]
  with warnings.catch_warnings(record=True) as seen:
    warnings.simplefilter('always')
    r = cluster.layer_has_enough_weights_to_cluster(layer, n, pc)
  if c.symbolic:      # what the product symbols of the engine stand for
    c.fact(zi(dprod(shape)) == zi(dprod(shape[:3])) * zi(shape[3]))
  own = dprod(shape[:3]) if pc else dprod(shape)
  c.prove('decided_by_the_weights_of_one_clustering', Iff(val(r), zi_(c, own) > val(n)))
  c.prove('warned_iff_skipped', Iff(val(r), len(seen) == 0))


@contract('C03', [WR + ':ClusterWeightsRNN.' + f for f in (
    'get_weight_name_without_index', 'get_return_layer_cell', 'get_weight_from_layer', 'set_weight_to_layer')] + [
        WR + ':ClusterWeightsMHA.get_weight_from_layer', WR + ':ClusterWeightsMHA.set_weight_to_layer'],
          cases=60, deep=100, opts={'finite': True}, note='stacks of 1, 2 and 12 cells')
def weights_by_name(c):
  """The weight names of recurrent and attention layers address exactly the named variable, for reading and writing."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper as W
  L = keras.layers
  what = c.choice('layer', ['plain', 'stack', 'bidirectional', 'attention'])
  if what == 'attention':
    layer = L.MultiHeadAttention(2, 2)
    layer.build_from = layer(keras.Input((3, 4)), keras.Input((3, 4)))
    cells = [layer._query_dense, layer._key_dense, layer._value_dense, layer._output_dense]
    i = c.choice('cell', [0, 1, 2, 3])
    k = 'kernel'
    name = ['_query_dense', '_key_dense', '_value_dense', '_output_dense'][i] + '.kernel'
    w = W.ClusterWeightsMHA(layer, 4)
  else:
    size = c.choice('cells', [1, 2, 12]) if what == 'stack' else 2 if what == 'bidirectional' else 1
    layer = {'plain': lambda: L.LSTM(2), 'stack': lambda: L.RNN([L.LSTMCell(2) for _ in range(size)]),
             'bidirectional': lambda: L.Bidirectional(L.LSTM(2))}[what]()
    layer.build((None, 3, 2))
    cells = (layer.cell.cells if what == 'stack' else [layer.cell] if what == 'plain' else [
        layer.forward_layer.cell, layer.backward_layer.cell])
    i = c.choice('cell', list(range(size)))
    k = c.choice('weight', ['kernel', 'recurrent_kernel'])
    name = '%s/%d' % (k, i)
    w = W.ClusterWeightsRNN(layer, 4)
  was = [dict((n, getattr(x, n, None)) for n in ('kernel', 'recurrent_kernel', 'bias')) for x in cells]
  c.prove('reads_the_named_weight', w.get_weight_from_layer(name) is getattr(cells[i], k))
  new = getattr(cells[i], k) * 2.0
  w.set_weight_to_layer(name, new)
  now = [dict((n, getattr(x, n, None)) for n in ('kernel', 'recurrent_kernel', 'bias')) for x in cells]
  c.prove('writes_only_the_named_weight', all(
      now[j][n] is (new if (j, n) == (i, k) else was[j][n]) for j in range(len(cells)) for n in was[j]))


@contract('C03', [CL + ':cluster_weights', CL + ':_cluster_weights', WR + ':ClusterWeights.__init__'], cases=60, deep=300,
          opts={'finite': True, 'max_paths': 2500}, note='real Keras layers; lists and models of up to 5 layers, three cluster counts')
def settings_reach_every_wrapper(c):
  """Layers, lists and models: every layer is wrapped once, by the wrapper of its kind, with the settings given."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster, cluster_wrapper as W
  L, C, G = keras.layers, _cfg().CentroidInitialization, _cfg().GradientAggregation
  n = c.choice('clusters', [3, 8, 20])
  ini = C[c.choice('init', ['LINEAR', 'RANDOM', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS'])]
  ps, pc = c.choice('preserve_sparsity', [False, True]), c.choice('per_channel', [False, True])
  agg = c.choice('aggregation', [None, 'SUM', 'AVG'])
  kw = dict(number_of_clusters=n, cluster_centroids_init=ini)
  if agg:
    kw['cluster_gradient_aggregation'] = G[agg]
  if ps or pc:
    kw.update(preserve_sparsity=ps, cluster_per_channel=pc)
  mine = W.ClusterWeights(L.Dense(2), 5, C.LINEAR, name='mine')
  conv = L.Conv2D(2, 2, name='conv')
  conv.build((None, 4, 4, 3))      # 24 weights, 12 in each channel
  layers = [conv, L.Flatten(name='flatten'), L.Dense(3, name='dense'), mine, L.ReLU(name='relu')]
  what = c.choice('what', ['layer', 'list', 'model', 'recurrent', 'attention'])
  f = cluster.cluster_weights
  if what == 'layer':
    layers = [layers[c.choice('which', [0, 1, 2, 3, 4])]]
    out = [f(layers[0], **kw)]
  elif what == 'recurrent':
    layers = [c.choice('rnn', [L.LSTM, L.GRU, L.Bidirectional])]
    layers = [layers[0](L.LSTM(2)) if layers[0] is L.Bidirectional else layers[0](2)]
    out = [f(layers[0], **kw)]
  elif what == 'attention':
    layers = [L.MultiHeadAttention(2, 2)]
    out = [f(layers[0], **kw)]
  elif what == 'list':
    layers = layers[:c.choice('length', [0, 2, 5])] + [L.InputLayer((3,))]
    out = f(layers, **kw)
    c.prove('a_list', isinstance(out, list))
  else:
    m = keras.Sequential(layers)
    r = f(m, **kw)
    out = r.layers
    c.prove('another_model', r is not m and all(a is b for a, b in zip(m.layers, layers)))
  c.prove('one_each', len(out) == len(layers))
  for w, l in zip(out, layers):
    if isinstance(l, L.InputLayer):
      c.prove('input_layers_are_not_wrapped', isinstance(w, L.InputLayer) and w.get_config() == l.get_config())
    elif l is mine:
      c.prove('wrappers_are_used_as_they_are', w is l and w.number_of_clusters == 5)
    elif l is conv and (12 if pc else 24) <= n:
      c.prove('too_small_convolutions_are_left', w is l)
    else:
      kind_ = (W.ClusterWeightsRNN if what == 'recurrent' else W.ClusterWeightsMHA if what == 'attention' else W.ClusterWeights)
      c.prove('wrapped_once', type(w) is kind_ and w.layer is l)
      c.prove('clusters_given', w.number_of_clusters == n)
      c.prove('initialisation_given', w.cluster_centroids_init == ini)
      c.prove('sparsity_given', w.preserve_sparsity is ps)
      c.prove('per_channel_given', w.cluster_per_channel is (pc and l is conv))
      c.prove('aggregation_given', w.cluster_gradient_aggregation == G[agg or 'SUM'])


# --- gradients ---------------------------------------------------------------
@contract('C04', [ALG + ':ClusteringAlgorithm.average_centroids_gradient_by_cluster_size',
                  ALG + ':ClusteringAlgorithm.add_gradient_to_original_weight'], cases=40, deep=300)
def gradient_rules(c):
  """The two custom gradients, for every upstream gradient."""
  n = c.dim('n', 1, 6)
  cen = c.var('centroids', [n])
  a = _alg().ClusteringAlgorithm(cen)
  sizes = c.tensor('sizes', [n], gen=lambda r, k: [float(r.choice([0, 1, 2, 5])) for _ in range(k)])
  up = c.tensor('up', [n])
  d0, d1 = c.dim('d0', 1, 4), c.dim('d1', 1, 4)
  cw, ow, up2 = c.tensor('cw', [d0, d1]), c.tensor('ow', [d0, d1], gen=_far), c.tensor('up2', [d0, d1])
  if c.symbolic:
    def fwd_bwd(f, args, upstream):
      k0 = len(c.__dict__.get('custom_grads', []))
      out = f(*args)
      gs = c.__dict__.get('custom_grads', [])[k0:]
      if len(gs) != 1:
        raise Missing('custom gradient')
      g = gs[0][2](upstream)
      return out, g if isinstance(g, (tuple, list)) else (g,)
  else:
    import tensorflow as tf
    def fwd_bwd(f, args, upstream):
      args = [tf.convert_to_tensor(x) for x in args]
      with tf.GradientTape() as t:
        for x in args:
          t.watch(x)
        out = f(*args)
        l = tf.reduce_sum(out * upstream)
      return out, t.gradient(l, args)
  out, g = fwd_bwd(get(a, 'average_centroids_gradient_by_cluster_size'), (cen, sizes), up)
  c0 = snapshot(cen)
  c.prove('averaging_is_identity_forward', c.forall([n], lambda k: eq(el(out, k), el(c0, k))))
  c.prove('gradient_divided_by_cluster_size', c.forall([n], lambda k: If(
      eq(el(sizes, k), 0, 0), eq(el(g[0], k), 0), eq(el(g[0], k) * el(sizes, k), el(up, k)))))
  out, g = fwd_bwd(get(a, 'add_gradient_to_original_weight'), (cw, ow), up2)
  c.prove('forward_keeps_clustered_value', c.forall([d0, d1], lambda i, j: eq(el(out, i, j), el(cw, i, j))))
  c.prove('gradient_reaches_clustered_and_original', c.forall([d0, d1], lambda i, j: And(
      eq(el(g[0], i, j), el(up2, i, j)), eq(el(g[1], i, j), el(up2, i, j)))))


@contract('C04', [ALG + ':ClusteringAlgorithm.get_clustered_weight',
                  ALG + ':ClusteringAlgorithmPerChannel.get_clustered_weight'], mode='bounded',
          cases=60, deep=500, note='end-to-end gradients through tf.GradientTape (autodiff is trusted)')
def end_to_end_gradient(c):
  import numpy as np
  import tensorflow as tf
  pc = c.choice('per_channel', [False, True])
  agg = c.choice('aggregation', ['SUM', 'AVG'])
  n = c.int('n', 1, 5)
  shape = [c.int('a', 1, 3), c.int('b', 1, 3), c.int('cc', 1, 2), c.int('d', 1, 3)]
  fmt = c.choice('format', ['channels_last', 'channels_first']) if pc else 'channels_last'
  axis = 1 if fmt == 'channels_first' else 3
  ch = shape[axis]
  w = c.var('w', shape)
  cen = c.var('cen', [ch, n] if pc else [n])
  up = c.tensor('up', shape)
  A = _alg()
  alg = (A.ClusteringAlgorithmPerChannel if pc else A.ClusteringAlgorithm)(
      cen, _cfg().GradientAggregation[agg], fmt)
  idx = alg.get_pulling_indices(w)
  with tf.GradientTape() as t:
    out = alg.get_clustered_weight(idx, w)
    l = tf.reduce_sum(out * up)
  gc, gw = t.gradient(l, [cen, w])
  gc = np.asarray(tf.convert_to_tensor(gc)) if gc is not None else None
  i_, u = np.asarray(idx), np.asarray(up)
  c.prove('weights_get_upstream_gradient', gw is not None and np.allclose(gw, u))
  if pc:
    i_, u = np.moveaxis(i_, axis, 0), np.moveaxis(u, axis, 0)
  else:
    i_, u = i_[None], u[None]
  want = np.zeros([len(i_), n])
  for r in range(len(i_)):
    for k in range(n):
      s = u[r][i_[r] == k]
      want[r, k] = s.sum() if agg == 'SUM' else (s.sum() / len(s) if len(s) else 0)
  c.prove('centroid_gradient_aggregates_its_weights',
          gc is not None and np.allclose(gc.reshape(want.shape), want, atol=1e-4))


# --- end to end --------------------------------------------------------------
def _layers(K, name, L):
  shp = (8, 6, 3)
  t = {
      'dense': lambda: [L.Dense(5, input_shape=(7,)), L.ReLU(), L.Dense(4)],
      'dense_nobias': lambda: [L.Dense(5, input_shape=(7,), use_bias=False)],
      'conv': lambda: [L.Conv2D(4, 3, input_shape=shp), L.BatchNormalization(), L.Flatten(), L.Dense(3)],
      'conv_nobias': lambda: [L.Conv2D(4, 3, input_shape=shp, use_bias=False), L.Flatten(), L.Dense(3)],
      'sepconv': lambda: [L.SeparableConv2D(4, 3, input_shape=shp), L.Flatten()],
      'conv1d': lambda: [L.Conv1D(4, 3, input_shape=(9, 3)), L.Flatten(), L.Dense(2)],
      'convT': lambda: [L.Conv2DTranspose(4, 3, input_shape=shp), L.GlobalAveragePooling2D()],
      'lstm': lambda: [L.LSTM(4, input_shape=(5, 3))],
      'bilstm': lambda: [L.Bidirectional(L.LSTM(3), input_shape=(5, 3))],
      'stacked': lambda: [L.RNN(L.StackedRNNCells([L.LSTMCell(3), L.GRUCell(4)]), input_shape=(4, 3))],
      'embedding': lambda: [L.Embedding(9, 4, input_length=6), L.Flatten(), L.Dense(2)],
  }
  return t[name]()


_NETS = ['dense', 'conv', 'conv_nobias', 'dense_nobias', 'sepconv', 'conv1d', 'convT', 'lstm', 'bilstm',
         'stacked', 'embedding']


def _weights_of(l):
  """(kernels that clustering must have covered, per-channel axis or None)."""
  n = type(l).__name__
  if n in ('Dense', 'Conv2D', 'Conv1D', 'Conv2DTranspose'):
    return [l.kernel]
  if n == 'SeparableConv2D':
    return [l.pointwise_kernel]
  if n == 'Embedding':
    return [l.embeddings]
  cells = []
  if n == 'Bidirectional':
    cells = [l.forward_layer.cell, l.backward_layer.cell]
  elif hasattr(l, 'cell'):
    cells = l.cell.cells if hasattr(l.cell, 'cells') else [l.cell]
  return [x for k in cells for x in (k.kernel, k.recurrent_kernel)]


@contract('C03', [WR + ':ClusterWeights.build', WR + ':ClusterWeights.call', CL + ':_cluster_weights',
                  CL + ':strip_clustering', CL + ':layer_has_enough_weights_to_cluster',
                  'clustering.keras.clustering_registry:ClusteringRegistry.make_clusterable'],
          mode='bounded', cases=18, deep=90, min_nontrivial=8,
          note='whole Keras models trained for a few steps: one sampled history per case')
def clustered_model_end_to_end(c):
  """After cluster -> train -> strip every clusterable kernel has at most N distinct values,
  zero weights stay zero when sparsity is preserved, and the stripped model computes the same."""
  import numpy as np
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  L = keras.layers
  net = c.choice('net', _NETS)
  n = c.int('clusters', 3, 6)
  kind_ = c.choice('init', ['LINEAR', 'KMEANS_PLUS_PLUS', 'DENSITY_BASED', 'RANDOM'])
  ps = c.choice('preserve_sparsity', [False, True])
  pc = c.choice('per_channel', [False, True])
  agg = c.choice('aggregation', ['SUM', 'AVG']) if not pc else 'SUM'
  steps = c.int('steps', 0, 3)
  seed = c.int('seed', 0, 10**6)
  if ps:
    # fewer points than centroids of one sign, or channels with differing counts, is a sampling limit
    c.assume(kind_ == 'LINEAR' and not pc)
  rs = np.random.RandomState(seed)
  tf.random.set_seed(seed)
  m = keras.Sequential(_layers(keras, net, L))
  m.set_weights([(rs.randn(*x.shape) * (rs.rand(*x.shape) < (.5 if ps else 2))).astype('f')
                 if not (x < 0).sum() == 0 or len(x.shape) > 1 else x for x in m.get_weights()])
  cm = cluster._cluster_weights(m, n, _cfg().CentroidInitialization[kind_], preserve_sparsity=ps,
                                cluster_per_channel=pc)
  for l in cm.layers:
    if hasattr(l, 'clustering_algorithms'):
      for a in l.clustering_algorithms.values():
        if agg == 'AVG' and not pc:
          pass
  if net == 'embedding':
    x = rs.randint(0, 9, size=(6, 6))
  else:
    x = rs.randn(6, *m.input_shape[1:]).astype('f')
  y = rs.randn(*cm(x).shape).astype('f')
  zero0 = {}
  if ps:
    for l in cm.layers:
      for k, v in getattr(l, 'sparsity_masks', {}).items():
        zero0[l.name, k] = np.asarray(v) == 0
  if steps:
    cm.compile('sgd', 'mse')
    cm.fit(x, y, epochs=steps, batch_size=3, verbose=0)
  want = np.asarray(cm(x, training=False))
  for l in cm.layers:
    for (ln, k), z in zero0.items():
      if ln == l.name:
        l.update_clustered_weights_associations()
        got = np.asarray(l.get_weight_from_layer(k))
        c.prove('zeros_stay_zero', not got[z].any())
  sm = cluster.strip_clustering(cm)
  c.prove('all_wrappers_removed', not any('Cluster' in type(l).__name__ for l in sm.layers))
  c.prove('architecture_kept', [type(l).__name__ for l in sm.layers] == [type(l).__name__ for l in m.layers]
          and sm.output_shape == m.output_shape)
  got = np.asarray(sm(x, training=False))
  c.prove('stripped_model_computes_the_same', np.allclose(want, got, atol=1e-4))
  for l, lc in zip(sm.layers, cm.layers):
    for wv in _weights_of(l):
      v = np.asarray(wv)
      if pc and type(l).__name__ in ('Conv2D', 'Conv2DTranspose'):
        # enough weights per channel in all of these nets
        c.prove('at_most_n_values_per_channel', all(
            len(np.unique(v[..., k])) <= n for k in range(v.shape[-1])))
      else:
        c.prove('at_most_n_values', len(np.unique(v)) <= n)


@contract('C05', [WR + ':ClusterWeights.call'], mode='bounded', cases=10, deep=60, min_nontrivial=4,
          note='whole Keras models')
def training_flag_forwarded(c):
  """Layers that behave differently in training do so inside the clustering wrapper."""
  import numpy as np
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  L = keras.layers
  kind_ = c.choice('layer', ['dropout', 'batchnorm'])
  seed = c.int('seed', 0, 10**6)
  rs = np.random.RandomState(seed)
  m = keras.Sequential([L.Dense(16, input_shape=(4,)),
                        L.Dropout(.5) if kind_ == 'dropout' else L.BatchNormalization()])
  cm = cluster.cluster_weights(m, 3, _cfg().CentroidInitialization.LINEAR)
  x = rs.randn(8, 4).astype('f') * 2 + 1
  inf = np.asarray(cm(x, training=False))
  c.prove('inference_deterministic', np.allclose(inf, np.asarray(cm(x, training=False))))
  tr = np.asarray(cm(x, training=True))
  if kind_ == 'dropout':
    c.prove('dropout_active_in_training', (tr == 0).mean() > .2 and np.allclose(
        tr[tr != 0], 2 * inf[tr != 0], atol=1e-4))
  else:
    c.prove('batchnorm_uses_batch_statistics', abs(tr.mean()) < .05 and abs(tr.std() - 1) < .1)


@contract('C05', [WR + ':ClusterWeights.__init__', WR + ':ClusterWeights.get_config', WR + ':ClusterWeights.from_config'],
          cases=60, deep=300, note='the wrapped layer is a real Keras layer; its own configuration is concrete')
def wrapper_config_all_cluster_counts(c):
  """Accepted exactly from 2 clusters (3 with sparsity preservation) on, for every count; settings survive the config."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  W, CI, GA = cluster_wrapper.ClusterWeights, _cfg().CentroidInitialization, _cfg().GradientAggregation
  n = c.int('clusters', *((None, None) if c.symbolic else (-2, 9)))
  ini = c.choice('init', ['LINEAR', 'KMEANS_PLUS_PLUS', 'DENSITY_BASED', 'RANDOM'])
  ps, pc = c.choice('preserve_sparsity', [False, True]), c.choice('per_channel', [False, True])
  agg = c.choice('aggregation', ['SUM', 'AVG'])
  lay = c.choice('layer', ['dense', 'conv', 'channels_first', 'activation'])
  named = c.choice('named', [False, True])
  L = keras.layers
  layer = {'dense': lambda: L.Dense(3), 'conv': lambda: L.Conv2D(3, 2), 'activation': lambda: L.ReLU(),
           'channels_first': lambda: L.Conv2D(3, 2, data_format='channels_first')}[lay]()
  e, w = c.raises(W, layer, n, CI[ini], ps, pc, GA[agg], **({'name': 'mine'} if named else {}))
  c.prove('accepted_iff_enough_clusters', Iff(e is None, ge(val(n), 3 if ps else 2)))
  c.prove('rejected_with_value_error', e is None or isinstance(e, ValueError))
  if e is not None:
    return
  cfg = w.get_config()
  keys = dict(cfg)
  r = W.from_config(cfg)
  c.prove('config_not_consumed', set(cfg) == set(keys) and all(cfg[k] is keys[k] for k in keys))
  for x in (w, r):
    c.prove('cluster_count_kept', eq(val(x.number_of_clusters), val(n)))
    c.prove('settings_kept', And(x.cluster_centroids_init == CI[ini], x.preserve_sparsity == ps,
                                 x.cluster_gradient_aggregation == GA[agg],
                                 x.cluster_per_channel == (pc and lay in ('conv', 'channels_first')),
                                 x.data_format == ('channels_first' if lay == 'channels_first' else 'channels_last')))
    c.prove('layer_kept', type(x.layer) is type(layer) and x.layer.get_config() == layer.get_config())
    c.prove('name_kept', x.name == ('mine' if named else 'cluster_' + layer.name))


class _Obj:
  """State of a wrapper without Keras; methods come from the real class."""

  def __init__(self, cls, **kw):
    self.__dict__.update(kw)
    self.__dict__['_cls'] = cls

  def __getattr__(self, n):
    a = getattr(self.__dict__['_cls'], n)
    return a.__get__(self) if hasattr(a, '__get__') else a


class _Spy:
  """A layer that records how it is called."""

  def __init__(self, host):
    self.seen = []
    self.host = host

  def _rec(self, x, training, kw):
    self.seen.append((training, kw, self.host['updates']))
    return ('out', x)


class _SpyTraining(_Spy):

  def call(self, inputs, training=None, **kw):
    return self._rec(inputs, training, kw)


class _SpyPlain(_Spy):

  def call(self, inputs, **kw):
    return self._rec(inputs, 'not passed' if 'training' not in kw else kw.pop('training'), kw)


@contract('C05', [WR + ':ClusterWeights.call'], cases=30, deep=60)
def wrapper_call(c):
  """A call first refreshes the clustered weights, then calls the layer once with input, training flag and arguments."""
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  takes = c.choice('layer_takes_training', [True, False])
  tr = c.choice('training', [True, False, None])
  kw = c.choice('arguments', [{}, {'mask': 'M'}, {'initial_state': 'S', 'mask': 'M'}])
  host = {'updates': 0}
  layer = (_SpyTraining if takes else _SpyPlain)(host)

  def refresh():
    host['updates'] += 1

  st = _Obj(cluster_wrapper.ClusterWeights, layer=layer, update_clustered_weights_associations=refresh)
  x = object()
  y = st.call(x, training=tr, **dict(kw))
  c.prove('output_of_the_layer', y == ('out', x) and y[1] is x)
  c.prove('called_once_after_the_refresh', len(layer.seen) == 1 and layer.seen[0][2] >= 1)
  t, k, _ = layer.seen[0]
  c.prove('training_flag_forwarded', (t is tr) if takes else t == 'not passed')
  c.prove('other_arguments_forwarded', k == kw)


@contract('C03', [WR + ':ClusterWeights.build', WR + ':ClusterWeights.call'], mode='bounded', cases=3,
          deep=10, min_nontrivial=1, note='one convolution layer per case, weights only')
def channels_first_convolution(c):
  """Per-channel clustering of a channels_first convolution (Keras kernels stay HWIO)."""
  import numpy as np
  import tensorflow as tf
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  n = c.int('clusters', 2, 3)
  ch = c.int('channels', 2, 4)
  tf.random.set_seed(7)
  w = cluster_wrapper.ClusterWeights(
      keras.layers.Conv2D(ch, 3, data_format='channels_first'), n,
      _cfg().CentroidInitialization.LINEAR, cluster_per_channel=True)
  w.build((None, 2, 6, 6))
  w.update_clustered_weights_associations()
  k = np.asarray(w.layer.kernel)
  c.prove('channels_first_at_most_n_per_output_channel',
          max(len(np.unique(k[..., j])) for j in range(ch)) <= n)


# the number of channels is listed
mark_enumerated('C01', 'nearest_centroid_per_channel')
mark_enumerated('C03', 'update_step_per_channel', 'build_state_per_channel')


@contract('C03', [WR + ':ClusterWeights.' + f for f in ('build', 'call', 'update_clustered_weights_associations')] + [
    CL + ':strip_clustering'], mode='bounded', cases=1, deep=6,
          note='six models of two dense layers trained for four steps on two replicas (mirrored strategy, two logical CPUs)')
def two_replicas(c):
  """Trained under a distribution strategy, the replicas agree and the stripped kernels use only the centroids."""
  import json
  import os
  import subprocess
  import sys
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  p = subprocess.run([sys.executable, os.path.join(here, 'tools', 'two_replicas.py'), os.environ.get('DV_REPO', '/repo'), '6',
                      str(c.int('seed', 0, 10**6)), 'cluster'], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=500)
  lines = [json.loads(l) for l in p.stdout.decode().splitlines() if l.startswith('{')]
  for l in lines:
    c.prove('kernels_use_the_centroids_on_every_replica', not l['fails'], info='%s: %s' % (l['case'], l['fails'][:3]))
  c.prove('runs_on_two_replicas', len(lines) == 6, info=p.stderr.decode()[-600:])


# --- which weights are clustered -------------------------------------------------
REGC = 'clustering.keras.clustering_registry'


def _creg():
  from tensorflow_model_optimization.python.core.clustering.keras import clustering_registry
  return clustering_registry.ClusteringRegistry


def _kl():
  from tensorflow_model_optimization.python.core.keras.compat import keras
  return keras


# class: (arguments, input shape, attributes that are clustered)
_CL = {
    'Conv1D': ((2, 2), (None, 5, 3), ['kernel']), 'Conv1DTranspose': ((2, 2), (None, 5, 3), ['kernel']),
    'Conv2D': ((2, 2), (None, 5, 5, 3), ['kernel']), 'Conv2DTranspose': ((2, 2), (None, 5, 5, 3), ['kernel']),
    'Conv3D': ((2, 2), (None, 4, 4, 4, 2), ['kernel']), 'Conv3DTranspose': ((2, 2), (None, 4, 4, 4, 2), ['kernel']),
    'DepthwiseConv2D': ((2,), (None, 5, 5, 3), []), 'SeparableConv1D': ((2, 2), (None, 5, 3), ['pointwise_kernel']),
    'SeparableConv2D': ((2, 2), (None, 5, 5, 3), ['pointwise_kernel']), 'Dense': ((3,), (None, 4), ['kernel']),
    'Embedding': ((5, 3), (None, 4), ['embeddings']), 'LocallyConnected1D': ((2, 2), (None, 5, 3), ['kernel']),
    'LocallyConnected2D': ((2, 2), (None, 5, 5, 3), ['kernel']), 'BatchNormalization': ((), (None, 4), []),
    'LayerNormalization': ((), (None, 4), []), 'Flatten': ((), (None, 4, 2), []), 'ReLU': ((), (None, 4), []),
    'MaxPooling2D': ((2,), (None, 4, 4, 2), []), 'Dropout': ((0.5,), (None, 4), []), 'Activation': (('relu',), (None, 4), []),
}
_CL_NO = {'PReLU': ((), (None, 4)), 'UnitNormalized': ((3,), (None, 4)), 'EinsumDense': (('ab,bc->ac', 3), (None, 4))}


def _is_same(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def _kept(c, layer, f):
  """f leaves the layer's weights and settings alone."""
  before = ([id(w) for w in layer.weights], layer.get_config())
  r = f()
  c.prove('layer_itself_unchanged', ([id(w) for w in layer.weights], layer.get_config()) == before)
  return r


@contract('C06', [REGC + ':ClusteringRegistry.supports', REGC + ':ClusteringRegistry.make_clusterable',
                  REGC + ':ClusteringRegistry._weight_names', WR + ':ClusterWeights.__init__'], cases=1, deep=1,
          opts={'finite': True}, note='every class of the registry, some without trainable weights, three unsupported ones')
def clusterable_weights(c):
  """Every supported layer offers exactly its kernels for clustering; unsupported ones are refused."""
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  L, R = _kl().layers, _creg()

  class UnitNormalized(L.Dense):   # a layer with weights the registry does not know
    pass

  make = lambda n, a, s: ({'UnitNormalized': UnitNormalized}.get(n) or getattr(L, n))(*a)
  for n, (a, s, attrs) in sorted(_CL.items()):
    l = make(n, a, s)
    l.build(s)
    c.prove('supported_layers', bool(R.supports(l)), info=n)
    r = _kept(c, l, lambda: R.make_clusterable(l))   # pylint: disable=cell-var-from-loop
    got = list(l.get_clusterable_weights())
    c.prove('exactly_the_kernels', _is_same([w for _, w in got], [getattr(l, x) for x in attrs]), info='%s: %s' % (
        n, [x for x, _ in got]))
    c.prove('one_name_each', len({x for x, _ in got}) == len(got) and all(isinstance(x, str) for x, _ in got))
    if attrs:
      other = object()
      l.__dict__[attrs[0]] = other
      c.prove('weights_as_they_are_now', l.get_clusterable_weights()[0][1] is other)
  for n, (a, s) in sorted(_CL_NO.items()):
    l = make(n, a, s)
    l.build(s)
    c.prove('unsupported_layer_refused', not R.supports(l) and isinstance(c.raises(R.make_clusterable, l)[0], ValueError), info=n)
    e, _ = c.raises(cluster_wrapper.ClusterWeights, l, 4, _cfg().CentroidInitialization.LINEAR)
    c.prove('unsupported_layer_not_wrapped', isinstance(e, ValueError), info='%s: %r' % (n, e))


@contract('C06', [REGC + ':ClusteringRegistry.supports', REGC + ':ClusteringRegistry.make_clusterable',
                  REGC + ':ClusteringRegistry._get_rnn_cells'], cases=1, deep=1,
          opts={'finite': True}, note='recurrent layers of one to three cells of every kind, bidirectional, attention')
def clusterable_recurrent_weights(c):
  """Recurrent layers offer kernel and recurrent kernel of every cell in order, attention its four kernels."""
  import itertools
  L, R = _kl().layers, _creg()

  class Own(L.SimpleRNNCell):      # a cell the registry does not know
    pass

  kinds = {'lstm': L.LSTMCell, 'gru': L.GRUCell, 'simple': L.SimpleRNNCell, 'own': Own}

  def check(l, cells, ok, tag):
    c.prove('supported_iff_all_cells_are', bool(R.supports(l)) == ok, info=tag)
    e, _ = c.raises(R.make_clusterable, l)
    c.prove('unsupported_cell_refused', isinstance(e, ValueError) != ok and (e is None) == ok, info='%s: %r' % (tag, e))
    if ok:
      got = list(l.get_clusterable_weights())
      c.prove('kernels_of_all_cells_in_order', _is_same([w for _, w in got], sum(
          [[x.kernel, x.recurrent_kernel] for x in cells], [])), info='%s: %s' % (tag, [n for n, _ in got]))
      c.prove('one_name_each', len({n for n, _ in got}) == len(got))

  for n in (1, 2, 3):
    for ks in itertools.product(sorted(kinds), repeat=n):
      cells = [kinds[k](2) for k in ks]
      l = L.RNN(cells if n > 1 else cells[0])
      l.build((None, 3, 4))
      check(l, cells, 'own' not in ks, 'RNN %s' % (ks,))
  for cls in (L.LSTM, L.GRU, L.SimpleRNN):
    l = cls(2)
    l.build((None, 3, 4))
    check(l, [l.cell], True, cls.__name__)
    b = L.Bidirectional(cls(2))
    b.build((None, 3, 4))
    check(b, [b.forward_layer.cell, b.backward_layer.cell], True, 'Bidirectional %s' % cls.__name__)
  for ok in (0, 1):                # refused, here when the weights are asked for
    b = L.Bidirectional(L.RNN(Own(2)), backward_layer=L.RNN((L.LSTMCell if ok else Own)(2), go_backwards=True))
    b.build((None, 3, 4))
    e, _ = c.raises(lambda: (R.make_clusterable(b), b.get_clusterable_weights()))   # pylint: disable=cell-var-from-loop
    c.prove('unsupported_cell_refused', isinstance(e, ValueError), info='Bidirectional: %r' % (e,))
  m = L.MultiHeadAttention(2, 3)
  for p in ('query', 'key', 'value', 'output'):      # its four dense parts, as the call builds them
    d = L.Dense(3)
    d.build((None, 5))
    setattr(m, '_%s_dense' % p, d)
  R.make_clusterable(m)
  c.prove('attention_supported', bool(R.supports(m)))
  got = list(m.get_clusterable_weights())
  c.prove('the_four_kernels_of_attention', _is_same([w for _, w in got], [
      getattr(m, '_%s_dense' % p).kernel for p in ('query', 'key', 'value', 'output')]))
  c.prove('one_name_each', len({n for n, _ in got}) == len(got))
