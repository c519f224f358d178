"""Contracts: weight compression (schedules, layer wrappers, algorithms)."""
from dv.api import *  # noqa
from dv import ops

KC = 'common.keras.compression.'
SC = KC + 'schedules'
OP = KC + 'internal.optimize'
AL = KC + 'algorithm'
WC, BO = KC + 'algorithms.weight_clustering', KC + 'algorithms.bias_only'
SS, DS, PS = (KC + 'algorithms.' + n for n in ('same_training_and_inference', 'different_training_and_inference',
                                               'periodical_update_and_scheduling'))


def _mod(name):
  import importlib
  return importlib.import_module('tensorflow_model_optimization.python.core.' + name)


# --- schedule ----------------------------------------------------------------
def _sch(c):
  sy = c.symbolic
  begin = c.int('begin', 0, None if sy else 30)
  steps = c.int('decay_steps', 1, None if sy else 40)
  s0, s1 = c.real('start', -9, 9), c.real('end', -9, 9)
  power = c.choice('exponent', [1.0, 2, 3, 'any', 'defaults'])
  if power == 'defaults':     # documented: from step 0, exponent 1
    return _mod(SC).PolynomialDecay(s0, steps, s1), 0, val(steps), val(s0), val(s1), 1.0
  known = power if power != 'any' else None
  if known is None:
    power = c.real('exponent_value', 0, 8, lo_strict=True)
  t = _mod(SC).PolynomialDecay(s0, steps, s1, begin, power)
  return t, val(begin), val(steps), val(s0), val(s1), known


def _at(c, name, begin):
  if c.symbolic:
    return c.tensor(name, [], 'int64')
  if c.bool('python_step_' + name):
    return c.int(name, int(begin) - 6, int(begin) + 60)
  return c.tensor(name, [], 'int32', gen=lambda r, n: [int(begin) + r.randint(-6, 60)])


@contract('K01', [SC + ':PolynomialDecay.__init__', SC + ':PolynomialDecay.__call__',
                  SC + ':PolynomialDecay._after_begin_step', SC + ':PolynomialDecay._during_decay'],
          cases=250, deep=2500)
def compression_schedule(c):
  """start before the window, end after it, the documented polynomial inside, never outside [start, end]."""
  sch, b, d, s0, s1, p = _sch(c)
  step = _at(c, 'step', b)
  v = sch(step)
  x, t = val(v), val(step)
  c.prove('scalar', len(dims(v)) == 0)
  c.prove('start_value_until_begin', Implies(le(t, b), eq(x, s0)))
  c.prove('end_value_from_end_on', Implies(ge(t, b + d), eq(x, s1)))
  c.prove('within_endpoints', And(ge(x, minz(s0, s1)), le(x, maxz(s0, s1))))
  if p is not None:
    q = 1 - (toreal(t - b) / toreal(d) if c.symbolic else (t - b) / d)
    e = q
    for _ in range(int(p) - 1):
      e = e * q
    c.prove('documented_polynomial', Implies(And(ge(t, b), le(t, b + d)), eq(x, s1 + (s0 - s1) * e)))


@contract('K01', [SC + ':PolynomialDecay.__call__', SC + ':PolynomialDecay._during_decay'], cases=150, deep=1500)
def compression_schedule_monotone(c):
  sch, b, _, s0, s1, _ = _sch(c)
  t1, t2 = _at(c, 'step1', b), _at(c, 'step2', b)
  c.assume(le(val(t1), val(t2)))
  x, y = val(sch(t1)), val(sch(t2))
  c.prove('moves_towards_the_end_value', And(Implies(le(s0, s1), le(x, y)), Implies(ge(s0, s1), ge(x, y))))


@contract('K01', [SC + ':PolynomialDecay.__call__'], cases=40, deep=300, mode='bounded')
def compression_schedule_dtype(c):
  """The value has the requested type, for Python, int32 and int64 steps, eagerly and in a graph."""
  import tensorflow as tf
  dt = c.choice('dtype', ['float32', 'int32', 'float16', 'float64', 'int64'])
  st = c.choice('step_type', ['int32', 'int64', 'python'])
  graph = c.bool('graph')
  sch = _mod(SC).PolynomialDecay(8, 10, 2, 5, dtype=tf.as_dtype(dt))
  for s in (0, 5, 10, 15, 20):
    t = s if st == 'python' else tf.constant(s, st)
    v = tf.function(sch)(t) if graph else sch(t)
    c.prove('dtype', v.dtype == tf.as_dtype(dt))
    want = 8 if s <= 5 else 2 if s >= 15 else 2 + 6 * (15 - s) / 10
    c.prove('value', abs(float(v) - want) < (1e-2 if 'float' in dt else 1))


# --- weights of the wrapped layers ------------------------------------------------
def _algo(c, which, n_train, n_comp, order='layer'):
  """A compression algorithm of n_train training weights adding up to the weight and n_comp compressed ones."""
  A = _mod(AL)

  class Sum(A.WeightCompressor):

    def get_compressible_weights(self, l):
      return [getattr(l, w) for w in which if getattr(l, w, None) is not None]

    def init_training_weights(self, w):
      from tensorflow_model_optimization.python.core.keras.compat import keras
      for k in range(n_train):
        part = w * (1. / n_train)
        self.add_training_weight(name='t%d' % k, shape=w.shape, dtype=w.dtype,
                                 initializer=keras.initializers.Constant(part) if not c.symbolic else
                                 (lambda shape=None, dtype=None, p=part: p))

    def project_training_weights(self, *t):
      r = t[0]
      for x in t[1:]:
        r = r + x
      return r

    def compress_training_weights(self, *t):
      r = self.project_training_weights(*t)
      return [r * (1. / n_comp) for _ in range(n_comp)]

    def decompress_weights(self, *t):
      return self.project_training_weights(*t)

  return Sum()


class _L:
  pass


@contract('K02', [OP + ':_map_to_training_weights', OP + ':_map_to_inference_weights', OP + ':_find',
                  AL + ':WeightCompressor.add_training_weight'], cases=60, deep=500)
def weight_lists(c):
  """The weight lists: the algorithm's weights in the order of the compressible weights, then all others."""
  n = c.choice('weights', [2, 1, 3])
  n_train, n_comp = c.choice('training_weights', [2, 1]), c.choice('compressed_weights', [1, 2])
  order = [[0], [n - 1], list(range(n)), list(range(n))[::-1], []][c.choice('compressed', [0, 1, 2, 3, 4])]
  sizes = [c.dim('d%d' % k, 1, 4) for k in range(n)]
  ws = [c.var('w%d' % k, [sizes[k]]) for k in range(n)]
  alg = _algo(c, (), n_train, n_comp)
  layer = _L()
  layer.weights = ws
  comp = [ws[k] for k in order]
  got = get(_mod(OP), '_map_to_training_weights')(alg, layer, comp)
  rest = [k for k in range(n) if k not in order]
  want = [(k, n_train) for k in order for _ in range(n_train)] + [(k, 1) for k in rest]
  c.prove('one_entry_per_weight', len(got) == len(want))
  for j, (k, f) in enumerate(want):
    c.prove('entry_%d_is_its_weight' % j, And(same_shape(got[j], ws[k]), c.forall(
        [sizes[k]], lambda i, j=j, k=k, f=f: eq(el(got[j], i), el(snapshot(ws[k]), i) * (1. / f)))))
  tensors = {'w%d' % k: [c.tensor('t%d_%d' % (k, m), [sizes[k]]) for m in range(n_train)] for k in order}
  flat = [t for k in order for t in tensors['w%d' % k]]
  others = [c.tensor('o%d' % k, [sizes[k]]) for k in rest]
  inf = get(_mod(OP), '_map_to_inference_weights')(flat + others, alg, tensors)
  c.prove('one_entry_per_inference_weight', len(inf) == n_comp * len(order) + len(rest))
  for j, k in enumerate([k for k in order for _ in range(n_comp)]):
    t = tensors['w%d' % k]
    c.prove('compressed_%d_from_its_training_weights' % j, c.forall([sizes[k]], lambda i, j=j, t=t: eq(
        el(inf[j], i), sum(el(x, i) for x in t) * (1. / n_comp))))
  for j, o in enumerate(others):
    c.prove('other_weight_%d_kept' % j, c.forall([sizes[rest[j]]], lambda i, j=j, o=o: eq(
        el(inf[n_comp * len(order) + j], i), el(o, i))))


@contract('K02', [AL + ':WeightCompressor.update_training_weight', AL + ':WeightCompressor.init_update_ops',
                  AL + ':WeightCompressor.get_update_ops'], cases=60, deep=400)
def training_weight_updates(c):
  """update_training_weight assigns exactly the variable behind the given tensor; unknown tensors are rejected."""
  d = c.dim('d', 1, 4)
  vs = [c.var('v%d' % k, [d]) for k in range(3)]
  old = [snapshot(v) for v in vs]
  ts = [v.read_value() for v in vs]
  alg = _algo(c, (), 1, 1)
  alg.init_update_ops(list(zip(ts, vs)))
  k = c.choice('which', [0, 1, 2])
  x = c.tensor('x', [d])
  alg.update_training_weight(ts[k], x)
  for j in range(3):
    now = snapshot(vs[j])
    c.prove('assigned' if j == k else 'others_untouched', c.forall([d], lambda i, j=j, now=now: eq(
        el(now, i), el(x, i) if j == k else el(old[j], i))))
  c.prove('one_update_recorded', len(alg.get_update_ops()) == 1)
  e, _ = c.raises(alg.update_training_weight, x, x)
  c.prove('unknown_tensor_rejected', isinstance(e, ValueError))
  alg.init_update_ops([])
  c.prove('updates_start_afresh', len(alg.get_update_ops()) == 0)


def _klayer(keras, kind_, ub):
  L = keras.layers
  return {'Dense': lambda: (L.Dense(4, use_bias=ub, activation='relu'), (5,)),
          'Conv2D': lambda: (L.Conv2D(4, 3, use_bias=ub, strides=2), (6, 6, 3)),
          'Conv1D': lambda: (L.Conv1D(4, 3, use_bias=ub), (6, 3)),
          'DepthwiseConv2D': lambda: (L.DepthwiseConv2D(3, use_bias=ub), (6, 6, 3)),
          'BatchNormalization': lambda: (L.BatchNormalization(), (6, 3)),
          'Flatten': lambda: (L.Flatten(), (3, 3))}[kind_]()


@contract('K02', [OP + ':create_layer_for_training', OP + ':create_layer_for_inference',
                  OP + ':_TrainingWrapper', OP + ':_InferenceWrapper'], mode='bounded', cases=45, deep=400,
          note='whole Keras layers with sampled weights')
def compressed_layers(c):
  """Training layer = original layer; inference layer = trained layer; nothing shared, compressed weights gone."""
  import numpy as np
  from tensorflow_model_optimization.python.core.keras.compat import keras
  kind_ = c.choice('layer', ['Dense', 'Conv2D', 'Conv1D', 'DepthwiseConv2D', 'BatchNormalization', 'Flatten'])
  ub = c.choice('use_bias', [True, False])
  which = c.choice('compressed', [('kernel',), ('bias',), ('kernel', 'bias'), ('bias', 'kernel'), ()])
  nt, nc = c.choice('training_weights', [1, 2, 3]), c.choice('compressed_weights', [1, 2])
  rs = np.random.RandomState(c.int('seed', 0, 10**6))
  layer, shape = _klayer(keras, kind_, ub)
  m = keras.Sequential([keras.Input(shape), layer])
  rnd_w = lambda l: l.set_weights([np.abs(rs.randn(*w.shape)) for w in l.get_weights()])
  rnd_w(layer)
  x = rs.randn(3, *shape).astype('f')
  w0 = layer.get_weights()
  want = np.asarray(m(x))
  alg = _algo(c, which, nt, nc)
  A = _mod(AL)
  t = keras.models.clone_model(m, clone_function=lambda l: A.create_layer_for_training(l, alg))
  close = lambda a, b: np.allclose(np.asarray(a), np.asarray(b), atol=1e-4)
  c.prove('training_layer_computes_the_same', close(t(x), want))
  n = sum(1 for k in which if kind_ in ('Dense', 'Conv2D', 'Conv1D') and (k == 'kernel' or ub) or
          kind_ == 'DepthwiseConv2D' and k == 'bias' and ub)
  c.prove('compressed_weights_replaced', len(t.weights) == len(w0) + n * (nt - 1))
  rnd_w(t)
  trained = np.asarray(t(x))
  tw = t.get_weights()
  c.prove('original_untouched', close(m(x), want) and all((a == b).all() for a, b in zip(w0, layer.get_weights())))
  i = keras.models.clone_model(t, clone_function=lambda l: A.create_layer_for_inference(l, alg))
  c.prove('inference_layer_computes_the_same', close(i(x), trained))
  c.prove('compressed_weights_counted', len(i.weights) == len(w0) + n * (nc - 1))
  rnd_w(i)
  c.prove('training_layer_untouched', all((a == b).all() for a, b in zip(tw, t.get_weights())) and close(t(x), trained))


# --- algorithms --------------------------------------------------------------------
def _reprs(alg, w):
  alg.weight_reprs = []
  alg.init_training_weights(w)
  return alg.weight_reprs


def _init_of(r):
  return r.kwargs['initializer'].get_config()['value']


@contract('K03', [WC + ':WeightClustering.init_training_weights', WC + ':WeightClustering.decompress_weights',
                  WC + ':WeightClustering.project_training_weights', WC + ':WeightClustering.__init__'],
          cases=60, deep=500)
def weight_clustering_algorithm(c):
  """The two training weights decode to every weight's nearest centroid."""
  rank = c.choice('rank', [2, 4, 3])
  n = c.choice('clusters', [2, 4])
  shape = [c.dim('d%d' % k, 1, 3) for k in range(rank)]
  if not c.symbolic:
    sz = 1
    for d in shape:
      sz *= d
    c.assume(sz >= n)
  w = c.tensor('w', shape)
  alg = _mod(WC).WeightClustering(n, _mod('clustering.keras.cluster_config').CentroidInitialization.LINEAR)
  if rank == 3:
    e, _ = c.raises(alg.init_training_weights, w)
    c.prove('other_ranks_rejected', isinstance(e, NotImplementedError))
    return
  r = _reprs(alg, w)
  c.prove('two_training_weights', len(r) == 2)
  cen, idx = _init_of(r[0]), _init_of(r[1])
  c.prove('as_many_centroids_as_clusters', And(len(dims(cen)) == 1, eq(dims(cen)[0], n)))
  c.prove('declared_shapes', And([len(list(a.kwargs['shape'])) == len(dims(b)) for a, b in zip(r, (cen, idx))]))
  out = alg.decompress_weights(cen, idx)
  pro = alg.project_training_weights(cen, idx)
  c.prove('shape_kept', And(same_shape(out, w), same_shape(pro, w)))
  c.prove('training_uses_the_decompressed_weight', c.forall(shape, lambda *i: eq(el(out, *i), el(pro, *i))))
  c.prove('every_weight_is_a_centroid', c.forall(shape, lambda *i: Or([
      eq(el(out, *i), el(cen, k)) for k in range(n)])))
  c.prove('no_centroid_is_closer', c.forall(shape, lambda *i: And([
      le(absz(el(w, *i) - el(out, *i)), absz(el(w, *i) - el(cen, k))) for k in range(n)])))
  cen2 = c.tensor('trained', [n])
  out2 = alg.decompress_weights(cen2, idx)
  c.prove('follows_the_trained_centroids', c.forall(shape, lambda *i: And([
      Implies(eq(el(idx, *i), k), eq(el(out2, *i), el(cen2, k))) for k in range(n)])))


@contract('K03', [BO + ':BiasOnly.init_training_weights', BO + ':BiasOnly.decompress_weights',
                  BO + ':BiasOnly.project_training_weights', BO + ':BiasOnly.get_compressible_weights'],
          cases=60, deep=500)
def bias_only_algorithm(c):
  n = c.dim('n', 1, 6)
  b = c.tensor('b', [n])
  alg = _mod(BO).BiasOnly()
  r = _reprs(alg, b)
  c.prove('two_training_weights', len(r) == 2)
  mean, shp = _init_of(r[0]), _init_of(r[1])
  out, pro = alg.decompress_weights(mean, shp), alg.project_training_weights(mean, shp)
  c.prove('shape_kept', And(same_shape(out, b), same_shape(pro, b)))
  want = val(ops.OPS['reduce_mean'](b)) if c.symbolic else float(b.numpy().mean())
  c.prove('every_bias_is_the_mean', c.forall([n], lambda i: And(eq(el(out, i), want), eq(el(pro, i), want))))
  from contracts.quantization import _bare
  from tensorflow_model_optimization.python.core.keras.compat import keras
  for k in ('Dense', 'Conv2D', 'Flatten', 'BatchNormalization'):
    has = k in ('Dense', 'Conv2D')
    l = _bare(keras, k, bias=b, kernel=None)
    g = alg.get_compressible_weights(l)
    c.prove('the_bias_is_compressed', len(g) == (1 if has else 0) and all(x is b for x in g))
    c.prove('nothing_without_a_bias', len(alg.get_compressible_weights(_bare(keras, k, bias=None, kernel=b))) == 0)


_SVDS = {'same': SS, 'different': DS, 'periodical': PS}


def _svd_shape(c):
  rank = c.choice('tensor_rank', [2, 4])
  return [c.dim('d%d' % k, 1, 5) for k in range(rank)]


def _truncated(c, w, shape, r):
  """Sum of the r leading singular triplets of the (batched) matrix."""
  if c.symbolic:
    s, u, v = ops.OPS['svd'](w)
    return lambda *i: ops.sum_term(lambda k: u.at(*i[:-1], k) * (s.at(*i[:-2], k) * v.at(*i[:-2], i[-1], k)),
                                   [r], 'R', ops._cells([r]))
  import numpy as np
  a = w.numpy()
  u, s, vt = np.linalg.svd(a, full_matrices=False)
  b = np.matmul(u[..., :r] * s[..., None, :r], vt[..., :r, :])
  return lambda *i: float(b[tuple(int(j) for j in i)])


def _prefix_rank(c, shape, rank):
  """min(rank, rows, columns)."""
  m = minz(dimz(shape[-2], c), dimz(shape[-1], c))
  return minz(m, val(rank))


def dimz(d, c):
  return zi(d) if c.symbolic else d


@contract('K03', [SS + ':SVD.init_training_weights', SS + ':SVD.decompress_weights', SS + ':SVD.project_training_weights',
                  DS + ':SVD.init_training_weights', DS + ':SVD.compress_training_weights', DS + ':SVD.decompress_weights',
                  DS + ':SVD.project_training_weights', PS + ':SVD.compress_training_weights',
                  PS + ':SVD.decompress_weights'], cases=120, deep=900,
          opts={'canary_ms': 1500})
def svd_algorithms(c):
  """The factors multiply to the sum of the `rank` leading singular triplets (the whole weight at full rank)."""
  kind_ = c.choice('algorithm', list(_SVDS))
  shape = _svd_shape(c)
  rank = c.int('rank', 1, None if c.symbolic else 6)
  w = c.tensor('w', shape)
  alg = _mod(_SVDS[kind_]).SVD(rank)
  if kind_ == 'same':
    r = _reprs(alg, w)
    c.prove('two_training_weights', len(r) == 2)
    u, sv = (_init_of(x) for x in r)
    pro = alg.project_training_weights(u, sv)
  else:
    extra = []
    if kind_ == 'different':
      r = _reprs(alg, w)
      c.prove('the_weight_is_trained', len(r) == 1)
      x = _init_of(r[0])
      pro = alg.project_training_weights(x)
      for t in (x, pro):
        c.prove('training_uses_the_weight', And(same_shape(t, w), c.forall(shape, lambda *i, t=t: eq(
            el(t, *i), el(w, *i)))))
    else:
      extra = [0]
    u, sv = alg.compress_training_weights(w, *extra)
    pro = None
  out = alg.decompress_weights(u, sv)
  k = _prefix_rank(c, shape, rank)
  c.prove('factor_shapes', And(eq(dims(u)[-1], k), eq(dims(sv)[-2], k)))
  c.prove('shape_kept', same_shape(out, w))
  kk = dims(u)[-1]
  best = _truncated(c, w, shape, kk)
  c.prove('best_approximation', c.forall(shape, lambda *i: _close(c, el(out, *i), best(*i))))
  if kind_ == 'same':
    c.prove('training_uses_the_product', c.forall(shape, lambda *i: _close(c, el(pro, *i), best(*i))))
  c.prove('full_rank_is_lossless', Implies(And(ge(val(rank), dimz(shape[-2], c))), c.forall(
      shape, lambda *i: _close(c, el(out, *i), el(w, *i)))))
  c.prove('full_rank_is_lossless_columns', Implies(And(ge(val(rank), dimz(shape[-1], c))), c.forall(
      shape, lambda *i: _close(c, el(out, *i), el(w, *i)))))


@contract('K03', [PS + ':SVD.project_training_weights', PS + ':SVD.init_training_weights', PS + ':SVD.__init__'],
          cases=60, deep=500, opts={'canary_ms': 1500})
def periodical_svd_step(c):
  """One training step: the step counter advances by one; outside the update grid the weight stays; on it, after
  the warm-up, the weight becomes its best approximation of the target rank; at step 0 it keeps full rank."""
  shape = _svd_shape(c)
  sy = c.symbolic
  rank, freq, warm = (c.int(n, 1, None if sy else h) for n, h in (('rank', 5), ('update_freq', 4), ('warmup', 9)))
  when = c.choice('when', ['after_warmup', 'at_zero', 'off_grid', 'warming'])
  alg = _mod(PS).SVD(rank, freq, warm)
  wt = c.tensor('w', shape)
  r = _reprs(alg, wt)
  c.prove('trains_the_weight_and_a_step', len(r) == 2 and _init_of(r[1]) == 0)
  c.prove('starts_from_the_weight', c.forall(shape, lambda *i: eq(el(_init_of(r[0]), *i), el(wt, *i))))
  if sy:
    step = c.var('step', [], 'int32')
    c.assume(ge(val(step), 0))
  else:
    step = c.var('step', [], 'int32', gen=lambda r, n: [0 if when == 'at_zero' else r.randint(0, 24)])
  s, f, m, q = (val(x) for x in (step, freq, warm, rank))
  on = eq(imod(s, f), 0)
  k = _prefix_rank(c, shape, rank)
  full = _prefix_rank(c, shape, 10**9)
  c.assume({'after_warmup': And(on, ge(s, m)), 'at_zero': And(eq(s, 0), le(k, full), le(q, full)),
            'off_grid': Not(on), 'warming': And(on, Not(ge(s, m)), not sy)}[when])
  w = c.var('weight', shape)
  w0, s0 = snapshot(w), s
  rd = lambda v: v.read_value()
  tw, ts = rd(w), rd(step)
  alg.init_update_ops([(tw, w), (ts, step)])
  out = alg.project_training_weights(tw, ts)
  w1 = snapshot(w)
  c.prove('step_advances_by_one', eq(val(snapshot(step)), s0 + 1))
  c.prove('forward_pass_uses_the_weight', c.forall(shape, lambda *i: eq(el(out, *i), el(w0, *i))))
  if when == 'off_grid':
    c.prove('weight_stays', c.forall(shape, lambda *i: eq(el(w1, *i), el(w0, *i))))
  elif when == 'at_zero':
    c.prove('full_rank_at_the_start', c.forall(shape, lambda *i: _close(c, el(w1, *i), el(w0, *i))))
  elif when == 'after_warmup':
    if sy:
      best = _truncated(c, w0, shape, k)
    else:
      best = _truncated(c, tw, shape, k)
    c.prove('target_rank_after_warmup', c.forall(shape, lambda *i: _close(c, el(w1, *i), best(*i))))
  else:
    import numpy as np
    # the rank moves from full to the target in proportion to the steps
    r = (int(full) * (int(m) - int(s)) + int(q) * int(s)) / int(m)
    lo, hi = min(int(np.floor(r)), int(full)), min(int(np.ceil(r)), int(full))
    c.prove('rank_falls_gradually', any(np.allclose(w1, np.vectorize(lambda *i: b(*i))(
        *np.indices(w1.shape)), atol=1e-4) for b in (_truncated(c, tw, shape, t) for t in range(lo, hi + 1))))


def _close(c, a, b):
  return eq(a, b) if c.symbolic else abs(a - b) < 1e-4
