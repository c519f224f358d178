"""Contracts: collaborative optimisation (sparsity- and cluster-preserving quantization)."""
import types
from dv.api import *  # noqa
from dv import ops
from dv import tens
from contracts.quantization import QO, _mod, _tfm, fq, _range_clauses, _same, _state, Host, _bare, _eqf, _setting
from contracts.clustering import _alg, _cfg, _distinct, _dist, zi_

PP = 'quantization.keras.collab_opts.prune_preserve.prune_preserve_quantize_registry'
CP = 'quantization.keras.collab_opts.cluster_preserve.cluster_preserve_quantize_registry'
CU = 'quantization.keras.collab_opts.cluster_preserve.cluster_utils'


def _holes(r, n):
  """Weights with zeros in them."""
  p = r.choice([0.0, 0.5, 0.8])
  return [0.0 if r.random() < p else round(r.uniform(-2, 2), 2) for _ in range(n)]


def _wshape(c, conv=False):
  r = 4 if conv else c.choice('rank', [2, 1, 3])
  return [c.dim('d%d' % k, 1, 3) for k in range(r)]


def _quantizer_of(c, m, stem, *args):
  """(quantizer, bits, per_axis, symmetric, narrow)."""
  k = c.choice('quantizer', ['general', 'dense', 'conv'])
  if k == 'general':
    b, pa, sym, nar = _setting(c, bits=(8, 4))
    return getattr(m, stem + 'DefaultWeightsQuantizer')(b, pa, sym, nar, *args), b, pa, sym, nar
  conv = k == 'conv'
  q = getattr(m, stem + 'Default8Bit%sWeightsQuantizer' % ('Conv' if conv else ''))(*args)
  return q, 8, conv, True, True


@contract('Q09', [PP + ':PrunePreserveDefaultWeightsQuantizer.__call__',
                  PP + ':PrunePreserveDefault8BitConvWeightsQuantizer'], cases=120, deep=800)
def pruned_weights_stay_pruned(c):
  """The quantised weight is the fake quantisation of weight * mask; masked positions come out as zero."""
  c.memo['fq_zero'] = True
  q, b, pa, sym, nar = _quantizer_of(c, _mod(PP), 'PrunePreserve')
  shape = _wshape(c, pa)
  x = c.tensor('w', shape)
  mask = c.tensor('mask', shape, gen=lambda r, k: [float(r.random() < .6) for _ in range(k)])
  if c.symbolic:
    c.add_univ(shape, lambda *i: Or(mask.at(*i) == 0, mask.at(*i) == 1), '0/1 mask')
  mn, mx = _state(c, pa, shape[-1])
  training = c.choice('training', [True, False])
  ch = [shape[-1]] if pa else []
  g = lambda t: (lambda *i: el(t, *i)) if pa else (lambda *i: val(t))
  m0, M0 = snapshot(mn), snapshot(mx)
  if c.symbolic:
    if pa:
      c.add_univ(ch, lambda i: And(g(m0)(i) <= 0, g(M0)(i) >= 0), 'stored range contains zero')
    else:
      c.assume(And(le(g(m0)(), 0), ge(g(M0)(), 0)))
  y = q(x, training, {'min_var': mn, 'max_var': mx, 'sparsity_mask': mask})
  m1, M1 = snapshot(mn), snapshot(mx)
  xm = x * mask
  if training:
    _range_clauses(c, xm, shape, m1, M1, b, pa, sym, nar)
  else:
    c.prove('range_untouched', c.forall(ch, lambda *i: And(eq(g(m1)(*i), g(m0)(*i)), eq(g(M1)(*i), g(M0)(*i)))))
  c.prove('fake_quantised_masked_weight', _same(c, y, fq(c, xm, m1, M1, b, nar, pa), shape))
  c.prove('masked_positions_are_zero', c.forall(shape, lambda *i: Implies(
      eq(el(mask, *i), 0, 0), eq(el(y, *i), 0, 0))))


@contract('Q09', [PP + ':PrunePreserveDefaultWeightsQuantizer.build',
                  PP + ':PrunePreserveDefaultWeightsQuantizer._build_sparsity_mask',
                  PP + ':PrunePreserveDefault8BitConvWeightsQuantizer.build'], cases=60, deep=300)
def sparsity_mask_of_the_layer(c):
  """build: the mask is one exactly at the layer's non-zero weights; the range is the quantizer's own."""
  q, b, pa, sym, nar = _quantizer_of(c, _mod(PP), 'PrunePreserve')
  shape = _wshape(c, pa)
  w = c.tensor('w', shape, gen=_holes)
  name = c.choice('name', ['kernel', 'pointwise_kernel'])
  h = Host(c)
  h.layer = types.SimpleNamespace(**{name: w})
  v = q.build(shape if c.symbolic else _tfm().TensorShape(shape), name, h)
  mask = v['sparsity_mask']
  c.prove('mask_shape', same_shape(mask, w))
  c.prove('one_exactly_at_nonzero_weights', c.forall(shape, lambda *i: eq(
      el(mask, *i), If(eq(el(w, *i), 0, 0), 0.0, 1.0), 0)))
  c.prove('range_per_channel', len(dims(v['min_var'])) == len(dims(v['max_var'])) == (1 if pa else 0))


def _callee(c):
  """LastValueQuantize by its contract (discharged under Q01 and Q02 for every input): records the calls."""
  calls = []

  def spec(inputs, min_var, max_var, per_channel=False, init_min=None, init_max=None, name_scope='', reuse=None,
           is_training=True, num_bits=8, narrow_range=False, symmetric=False):
    v = inputs.cur if hasattr(inputs, 'cur') else inputs
    out = tens.fresh_tensor('quantised', list(v.shape_), 'float32')
    calls.append((v, min_var, max_var, per_channel, is_training, num_bits, narrow_range, symmetric, out))
    return out

  if c.symbolic:
    c.stub(_mod(QO), 'LastValueQuantize', spec, 'LastValueQuantize: by its contract (Q01, Q02)')
  return calls


def _quantised_as(c, calls, y, x, shape, mn, mx, mn0, mx0, training, b, pa, sym, nar):
  """y is what LastValueQuantize gives for x with this range state and these settings."""
  if calls:
    v, a, z, p, t, nb, n_, s_, out = calls[-1]
    c.prove('quantised_with_its_own_settings', len(calls) == 1 and y is out and a is mn and z is mx and
            (bool(p), bool(t), nb, bool(n_), bool(s_)) == (pa, training, b, nar, sym))
    c.prove('quantised_value', _same(c, v, x, shape))
    return
  m1, M1 = snapshot(mn), snapshot(mx)
  if training:
    _range_clauses(c, x, shape, m1, M1, b, pa, sym, nar)
  else:
    c.prove('range_untouched', And(_same(c, m1, mn0), _same(c, M1, mx0)))
  c.prove('fake_quantised_value', _same(c, y, fq(c, x, m1, M1, b, nar, pa), shape))


# --- clusters ---------------------------------------------------------------------
@contract('Q09', [CP + ':get_unique'], cases=60, deep=400)
def unique_values(c):
  """get_unique: all distinct values, once each, and where they are."""
  shape = [c.dim('d%d' % k, 1, 4) for k in range(c.choice('rank', [2, 1, 3, 4]))]
  w = c.tensor('w', shape, gen=lambda r, n: [r.choice([-1.5, 0.0, 0.25, 2.0, -0.5]) for _ in range(n)])
  u, idx = _mod(CP).get_unique(w)
  n = dims(u)[0]
  c.prove('index_shape', same_shape(idx, w))
  c.prove('indexed_value_is_the_weight', c.forall(shape, lambda *i: And(
      ge(el(idx, *i), 0), el(idx, *i) < zi_(c, n), eq(el(u, el(idx, *i)), el(w, *i), 0))))
  c.prove('values_are_distinct', c.forall([n, n], lambda i, j: Or(
      i == j, Not(eq(el(u, i), el(u, j), 0)))))


@contract('Q09', [CP + ':get_centroids', CP + ':get_unique'], cases=60, deep=300, mode='bounded',
          note='convolutions of one to three output channels with one to three distinct values each, sides of up to 2')
def centroids_reproduce_the_weights(c):
  """get_centroids: looking up the centroids (those of the output channel) gives the weights back, exactly."""
  from tensorflow_model_optimization.python.core.keras.compat import keras
  L = keras.layers
  conv = c.choice('convolution', [True, False])
  ch = c.choice('channels', [1, 2, 3])
  shape = [c.dim('d%d' % k, 1, 2 if conv else 4) for k in range(3 if conv else 1)] + [ch]

  def gen(r, n):
    # channels with one to three values each
    v = [r.sample([0.0, 1.0, -0.5, 2.0], r.randint(1, 3)) for _ in range(ch)]
    return [r.choice(v[k % ch]) for k in range(n)]

  w = c.tensor('w', shape, gen=gen)
  layer = types.SimpleNamespace(layer=L.Conv2D(ch, 2) if conv else L.Dense(ch))
  cen, n, at, per = _mod(CP).get_centroids(layer, w, 'channels_last')
  c.prove('per_channel_only_for_convolutions', conv or not per)
  c.prove('one_position_per_weight', And(len(dims(at)) == len(shape), *[eq(a, b) for a, b in zip(dims(at), shape)]))
  num = val(n)
  c.prove('number_of_centroids', And(len(dims(cen)) == (2 if per else 1), eq(dims(cen)[-1], num), eq(dims(cen)[0], ch if per else num)))
  if per:
    for k in range(ch):
      c.prove('weights_of_every_channel', c.forall(shape[:-1], lambda *i: And(
          ge(el(at, *i, k), 0), el(at, *i, k) < num, eq(_row(cen, k, el(at, *i, k)), el(w, *i, k)))))
  else:
    c.prove('weights', c.forall(shape, lambda *i: And(ge(el(at, *i), 0), el(at, *i) < num, eq(_row(cen, None, el(at, *i)), el(w, *i)))))


def _row(t, k, i):
  i = i if isz(i) else int(i)
  return el(t, i) if k is None else el(t, k, i)

def _cluster_state(c, q, shape, per_channel, ps):
  ch = shape[-1] if per_channel else None
  n = c.dim('clusters', 2, 5)
  w = c.var('kernel', shape)
  ow = c.var('original', shape)
  cen = c.var('centroids', [ch, n] if per_channel else [n], gen=_distinct)
  idx = c.var('pulling', shape, 'int64', gen=lambda r, k: [0] * k)
  mask = c.tensor('mask', shape, gen=lambda r, k: [float(r.random() < .6) for _ in range(k)])
  z = c.tensor('zero_idx', [ch] if per_channel else [], 'int64', gen=lambda r, k: [r.randint(0, 1) for _ in range(k)])
  if per_channel:
    c.assume(And([And(ge(el(z, k), 0), el(z, k) < zi_(c, n)) for k in range(ch)]))
  else:
    c.assume(And(ge(val(z), 0), val(z) < zi_(c, n)))
  if c.symbolic:
    c.add_univ(shape, lambda *i: Or(mask.at(*i) == 0, mask.at(*i) == 1), '0/1 mask')
    for k in range(ch or 1):
      c.index(el(z, k) if per_channel else val(z))
  oh = (ops.OPS['one_hot'](z, n) if c.symbolic else _tfm().one_hot(z, n))
  A = _alg()
  cls = A.ClusteringAlgorithmPerChannel if per_channel else A.ClusteringAlgorithm
  alg = cls(cen, data_format='channels_last')
  m = _mod(CP)
  st = {m.CLUSTER_CENTROIDS: cen, m.PULLING_INDICES: idx, m.ORIGINAL_WEIGHTS: ow, m.WEIGHT_NAME: 'kernel',
        m.CLUSTERING_IMPL: alg, m.CENTROIDS_MASK: (1.0 - oh) if ps else None}
  if ps:
    st[m.SPARSITY_MASK] = mask
  return st, w, ow, cen, idx, mask, z, n, ch


@contract('Q09', [CP + ':ClusterPreserveDefaultWeightsQuantizer.__call__'], cases=120, deep=800,
          opts={'max_paths': 600},
          note='per-channel clustering: channel counts 1..2 (the real loop is unrolled), other sizes unbounded')
def clusters_survive_a_training_call(c):
  """Training: the kernel becomes the nearest-centroid lookup of the (masked) original weights, pruned
  positions become zero, and its fake quantisation with its own range is returned. Inference: nothing moves."""
  per_channel = c.choice('per_channel', [False, True])
  ps = c.choice('preserve_sparsity', [True, False])
  training = c.choice('training', [True, False])
  m = _mod(CP)
  if per_channel:
    shape = [c.dim('d%d' % k, 1, 3) for k in range(3)] + [c.choice('channels', [2, 1])]
    q, pa = m.ClusterPreserveDefault8BitConvWeightsQuantizer(ps), True
  else:
    shape = [c.dim('d%d' % k, 1, 4) for k in range(2)]
    q, pa = m.ClusterPreserveDefault8BitWeightsQuantizer(ps), False
  st, w, ow, cen, idx, mask, z, n, ch = _cluster_state(c, q, shape, per_channel, ps)
  mn, mx = _state(c, pa, shape[-1])
  st.update(min_var=mn, max_var=mx)
  w0, ow0, c0, i0, m0, M0 = [snapshot(v) for v in (w, ow, cen, idx, mn, mx)]
  calls = _callee(c)
  y = q(w, training, st)
  w1, ow1, c1, i1, m1, M1 = [snapshot(v) for v in (w, ow, cen, idx, mn, mx)]
  row = (lambda k, i: (i[3], k)) if per_channel else (lambda k, i: (k,))
  cd = [ch, n] if per_channel else [n]
  same = lambda a, b, d: c.forall(d, lambda *i: eq(el(a, *i), el(b, *i), 0) if d else eq(val(a), val(b), 0))
  if not training:
    c.prove('inference_changes_nothing', And(same(w1, w0, shape), same(ow1, ow0, shape), same(c1, c0, cd),
                                             same(i1, i0, shape), same(m1, m0, dims(mn)), same(M1, M0, dims(mn))))
    _quantised_as(c, calls, y, w0, shape, mn, mx, m0, M0, False, 8, pa, True, True)
    return
  eff = (lambda *i: el(ow0, *i) * el(mask, *i)) if ps else (lambda *i: el(ow0, *i))
  c.prove('original_weights_only_masked', c.forall(shape, lambda *i: eq(el(ow1, *i), eff(*i), 0)))
  c.prove('weight_is_a_centroid', c.forall(shape, lambda *i: And(
      ge(el(i1, *i), 0), el(i1, *i) < zi_(c, n), eq(el(w1, *i), el(c1, *row(el(i1, *i), i)), 0))))
  c.prove('nearest_centroid', c.forall(shape + [n], lambda *i: le(
      _dist(eff(*i[:-1]), el(w1, *i[:-1])), _dist(eff(*i[:-1]), el(c1, *row(i[-1], i))))))
  if ps:
    hit = (lambda i: eq(i[1], el(z, i[0]))) if per_channel else (lambda i: eq(i[0], val(z)))
    c.prove('zero_centroid_pinned', c.forall(cd, lambda *i: eq(
        el(c1, *i), If(hit(i), 0.0, el(c0, *i)), 0)))
    c.prove('pruned_positions_are_zero', c.forall(shape, lambda *i: Implies(
        eq(el(mask, *i), 0, 0), eq(el(w1, *i), 0, 0))))
  else:
    c.prove('centroids_untouched', same(c1, c0, cd))
  _quantised_as(c, calls, y, w1, shape, mn, mx, m0, M0, True, 8, pa, True, True)


@contract('Q09', [CP + ':ClusterPreserveDefaultWeightsQuantizer.__call__'], cases=60, deep=400)
def without_clusters(c):
  """A layer with too many distinct values: the weight itself, masked when sparsity is preserved."""
  c.memo['fq_zero'] = True
  ps = c.choice('preserve_sparsity', [True, False])
  training = c.choice('training', [True, False])
  q, b, pa, sym, nar = _quantizer_of(c, _mod(CP), 'ClusterPreserve', ps)
  shape = _wshape(c, pa)
  x = c.var('w', shape)
  mask = c.tensor('mask', shape, gen=lambda r, k: [float(r.random() < .6) for _ in range(k)])
  mn, mx = _state(c, pa, shape[-1])
  st = {'min_var': mn, 'max_var': mx}
  if ps:
    st[_mod(CP).SPARSITY_MASK] = mask
  x0 = snapshot(x)
  y = q(x, training, st)
  m1, M1 = snapshot(mn), snapshot(mx)
  xm = x0 * mask if ps and training else x0
  c.prove('weight_untouched', _same(c, snapshot(x), x0, shape))
  c.prove('quantised', _same(c, y, fq(c, xm, m1, M1, b, nar, pa), shape))
  if ps and training:
    c.prove('masked_positions_are_zero', c.forall(shape, lambda *i: Implies(
        eq(el(mask, *i), 0, 0), eq(el(y, *i), 0, 0))))


# --- registries -------------------------------------------------------------------
def _weighted(keras, kind_):
  L = keras.layers
  l = {'dense': lambda: L.Dense(3), 'conv': lambda: L.Conv2D(3, 2), 'depthwise': lambda: L.DepthwiseConv2D(2),
       'relu': L.ReLU, 'flatten': L.Flatten, 'pool': L.AveragePooling2D, 'embedding': lambda: L.Embedding(4, 3),
       'bn': L.BatchNormalization, 'conv1d': lambda: L.Conv1D(3, 2), 'sep': lambda: L.SeparableConv2D(3, 2)}[kind_]()
  l.build((None, 4, 4, 3) if kind_ not in ('conv1d', 'dense', 'embedding') else (None, 4, 3))
  return l


@contract('Q09', [m + f for m, f in ((PP + ':PrunePreserveQuantizeRegistry.', 'supports'),
                                     (PP + ':PrunePreserveQuantizeRegistry.', 'apply_sparsity_preserve_quantize_config'),
                                     (PP + ':Default8bitPrunePreserveQuantizeRegistry.', 'get_quantize_config'),
                                     (CP + ':ClusterPreserveQuantizeRegistry.', 'supports'),
                                     (CP + ':ClusterPreserveQuantizeRegistry.', 'apply_cluster_preserve_quantize_config'),
                                     (CP + ':Default8bitClusterPreserveQuantizeRegistry.', 'get_quantize_config'))] + [
                                         CP + ':ClusterPreserveDefaultWeightsQuantizer._build_clusters', CP + ':get_centroids'],
          mode='bounded', cases=40, deep=120)
def registries_choose_preserving_quantizers(c):
  """Dense and Conv2D kernels get a preserving weight quantizer of their own (same bits and axis as without),
  all other configs stay as they are; unsupported layers and configs are rejected. Building it finds the
  clusters (and zeros) of that layer's kernel, whatever was built before."""
  import numpy as np
  from tensorflow_model_optimization.python.core.keras.compat import keras
  r8 = _mod('quantization.keras.default_8bit.default_8bit_quantize_registry')
  which = c.choice('registry', ['prune', 'cluster', 'both'])
  kind_ = c.choice('layer', ['dense', 'conv', 'depthwise', 'relu', 'flatten', 'pool', 'embedding', 'bn', 'conv1d', 'sep'])
  l = _weighted(keras, kind_)
  if which == 'prune':
    reg = _mod(PP).Default8bitPrunePreserveQuantizeRegistry()
    names = ('PrunePreserve',)
  else:
    reg = _mod(CP).Default8bitClusterPreserveQuantizeRegistry(which == 'both')
    names = ('ClusterPreserve',)
  sup = kind_ in ('dense', 'conv', 'depthwise', 'relu', 'flatten', 'pool')
  c.prove('supported_layers', bool(reg.supports(l)) == sup)
  apply = getattr(reg, 'apply_sparsity_preserve_quantize_config', None) or reg.apply_cluster_preserve_quantize_config
  if not sup:
    c.prove('unsupported_rejected', isinstance(c.raises(apply, l, r8.Default8BitQuantizeConfig(['kernel'], [], False))[0],
                                               ValueError))
    return
  plain = r8.Default8BitQuantizeRegistry().get_quantize_config(l)
  got = reg.get_quantize_config(l)
  c.prove('same_config_class', type(got) is type(plain))
  ws, ps_ = got.get_weights_and_quantizers(l), plain.get_weights_and_quantizers(l)
  c.prove('same_weights', [w is v for (w, _), (v, _) in zip(ws, ps_)] == [True] * len(ps_) and len(ws) == len(ps_))
  if kind_ in ('dense', 'conv'):
    q, p = ws[0][1], ps_[0][1]
    c.prove('preserving_quantizer', any(type(q).__name__.startswith(n) for n in names))
    c.prove('same_bits_and_axis', (q.num_bits, bool(q.per_axis), bool(q.symmetric), bool(q.narrow_range)) ==
            (p.num_bits, bool(p.per_axis), bool(p.symmetric), bool(p.narrow_range)))
    if which != 'prune':
      c.prove('sparsity_as_asked', bool(q.preserve_sparsity) == (which == 'both'))
      other = _weighted(keras, kind_)
      q2 = reg.get_quantize_config(other).get_weights_and_quantizers(other)[0][1]
      rs = np.random.RandomState(c.int('seed', 0, 999))
      l.kernel.assign(_clustered(rs, l.kernel.shape, 3, False, kind_ == 'conv'))
      other.kernel.assign(_clustered(rs, other.kernel.shape, 3, True, kind_ == 'conv'))
      built = []
      for qq, ll in ((q, l), (q2, other)):
        host = keras.layers.Wrapper(ll)
        built.append(qq.build(ll.kernel.shape, 'kernel', host))
      mask = _mod(CP).SPARSITY_MASK
      c.prove('sparsity_kept_where_there_is_some', mask not in built[0] and (mask in built[1]) == (which == 'both'))
      if which == 'both':
        c.prove('mask_of_the_nonzero_weights', bool(np.array_equal(
            np.asarray(built[1][mask]), (np.asarray(other.kernel) != 0).astype('f'))))
      for b, ll in zip(built, (l, other)):
        look = np.asarray(b[_mod(CP).CLUSTERING_IMPL].get_clustered_weight(
            b[_mod(CP).PULLING_INDICES], b[_mod(CP).ORIGINAL_WEIGHTS]))
        c.prove('clusters_reproduce_the_kernel', bool(np.array_equal(look, np.asarray(ll.kernel))))
    bad = r8.Default8BitQuantizeConfig(['kernel'], [], False) if kind_ == 'conv' else r8.Default8BitConvQuantizeConfig(
        ['kernel'], ['activation'], False)
    c.prove('unfit_config_rejected', isinstance(c.raises(apply, l, bad)[0], ValueError))
  else:
    c.prove('quantizers_as_without', [type(q) for _, q in ws] == [type(q) for _, q in ps_])
    c.prove('config_unchanged', got == plain)


@contract('Q09', [CP + ':get_centroids'], mode='bounded', cases=4, deep=8, min_nontrivial=0)
def channels_first_convolution(c):
  """A Conv2D computing channels_first, clustered per output channel (Keras kernels are always HWIO)."""
  import numpy as np
  from tensorflow_model_optimization.python.core.keras.compat import keras
  out, kw = c.choice('filters', [2, 3]), c.choice('kernel_width', [2, 3])
  l = keras.layers.Conv2D(out, (3, kw), data_format='channels_first')
  l.build((None, 4, 6, 6))
  rs = np.random.RandomState(c.int('seed', 0, 999))
  l.kernel.assign(_clustered(rs, l.kernel.shape, 3, False, True))
  reg = _mod(CP).Default8bitClusterPreserveQuantizeRegistry(False)
  q = reg.get_quantize_config(l).get_weights_and_quantizers(l)[0][1]

  def look():
    b = q.build(l.kernel.shape, 'kernel', keras.layers.Wrapper(l))
    return np.asarray(b[_mod(CP).CLUSTERING_IMPL].get_clustered_weight(
        b[_mod(CP).PULLING_INDICES], b[_mod(CP).ORIGINAL_WEIGHTS]))

  e, got = c.raises(look)
  c.prove('channels_first_clusters_are_found', e is None and bool(np.array_equal(got, np.asarray(l.kernel))))


# --- whole models -----------------------------------------------------------------
def _clustered(rs, shape, k, holes, per_channel):
  """A kernel with k distinct values (per output channel), one of them zero if holes."""
  import numpy as np
  def one(sh):
    v = np.sort(rs.choice(np.r_[-16:0, 1:17], size=k, replace=False) / 8.0)
    if holes:
      v[0] = 0.0
    n = int(np.prod(sh))
    i = np.r_[np.arange(k), rs.randint(0, k, size=max(0, n - k))][:n]
    rs.shuffle(i)
    return v[i].reshape(sh)
  if per_channel:
    return np.stack([one(shape[:-1]) for _ in range(shape[-1])], -1).astype('f')
  return one(shape).astype('f')


_CNETS = ['dense2', 'conv_dense', 'conv_bn_relu', 'dw']


def _cnet(keras, net):
  L = keras.layers
  return {
      'dense2': lambda: [L.Dense(6, activation='relu', input_shape=(5,)), L.Dense(4), L.Dense(3)],
      'conv_dense': lambda: [L.Conv2D(3, 3, input_shape=(6, 6, 2)), L.Flatten(), L.Dense(3)],
      'conv_bn_relu': lambda: [L.Conv2D(3, 3, input_shape=(6, 6, 2)), L.BatchNormalization(), L.ReLU(),
                               L.Conv2D(2, 2), L.Flatten(), L.Dense(3)],
      'dw': lambda: [L.DepthwiseConv2D(2, input_shape=(5, 5, 2)), L.Conv2D(3, 2), L.Flatten(), L.Dense(4)],
  }[net]()


@contract('Q09', [PP + ':PrunePreserveDefaultWeightsQuantizer', CP + ':ClusterPreserveDefaultWeightsQuantizer._build_clusters',
                  CP + ':get_centroids', CU + ':strip_clustering_cqat',
                  'quantization.keras.quantize:quantize_apply'],
          mode='bounded', cases=10, deep=100, min_nontrivial=6,
          note='whole Keras models trained for a few steps: one sampled history per case')
def preserved_through_training(c):
  """Quantization-aware training of a pruned / clustered model: in every Dense and Conv2D kernel zeros stay
  zero, the number of distinct values (per output channel of a convolution) does not grow, layers without
  zeros or with too many values do not disturb others; stripping keeps outputs and removes the helpers."""
  import numpy as np
  tf = _tfm()
  from tensorflow_model_optimization.python.core.keras.compat import keras
  from tensorflow_model_optimization.python.core.quantization.keras import quantize
  mode = c.choice('mode', ['cluster', 'both', 'prune'])
  net = c.choice('net', _CNETS)
  k = c.int('clusters', 3, 6)
  steps = c.int('steps', 1, 3)
  dense_layer = c.choice('layer_without_zeros', [None, 0, 1])
  seed = c.int('seed', 0, 10**6)
  rs = np.random.RandomState(seed)
  tf.random.set_seed(seed)
  m = keras.Sequential(_cnet(keras, net))
  holes = mode != 'cluster'
  j = 0
  for l in m.layers:
    if type(l).__name__ in ('Dense', 'Conv2D'):
      conv = type(l).__name__ == 'Conv2D'
      w = l.get_weights()
      if mode == 'prune':
        w[0] = rs.randn(*w[0].shape).astype('f') * (rs.rand(*w[0].shape) < .5 if j != dense_layer else 1)
      else:
        w[0] = _clustered(rs, w[0].shape, k, holes and j != dense_layer, conv)
      l.set_weights(w)
      j += 1
  s = (_mod('quantization.keras.collab_opts.prune_preserve.default_8bit_prune_preserve_quantize_scheme')
       .Default8BitPrunePreserveQuantizeScheme() if mode == 'prune' else
       _mod('quantization.keras.collab_opts.cluster_preserve.default_8bit_cluster_preserve_quantize_scheme')
       .Default8BitClusterPreserveQuantizeScheme(mode == 'both'))
  x = rs.randn(12, *m.input_shape[1:]).astype('f')
  y = rs.randn(12, m.output_shape[-1]).astype('f')
  q = quantize.quantize_apply(quantize.quantize_annotate_model(m), s)
  q.compile(keras.optimizers.legacy.SGD(0.02) if hasattr(keras.optimizers, 'legacy') else 'sgd', 'mse')
  before = [_kernel(l) for l in q.layers if _kernelled(l)]
  q.fit(x, y, batch_size=6, epochs=steps, verbose=0)
  # the weights the optimiser wrote last get into the kernel with the next training call
  q(x, training=True)
  after = [_kernel(l) for l in q.layers if _kernelled(l)]
  want = np.asarray(q(x, training=False))
  used = [np.asarray(l.layer.kernel) for l in q.layers if _kernelled(l)]
  c.prove('every_kernel_considered', len(used) == len(before) >= 2)
  for b, a, u in zip(before, after, used):
    if holes:
      c.prove('zeros_stay_zero', not u[b == 0].any())
    if mode != 'prune':
      if b.ndim == 4:
        c.prove('values_per_channel_do_not_grow', all(
            len(np.unique(t[..., i])) <= len(np.unique(b[..., i])) for i in range(b.shape[-1]) for t in (a, u)))
      else:
        c.prove('values_do_not_grow', all(len(np.unique(t)) <= len(np.unique(b)) for t in (a, u)))
  moved = any(not np.allclose(a, b) for a, b in zip(after, before))
  c.prove('training_moved_the_weights', moved)
  if mode == 'prune':
    return
  st = _mod(CU).strip_clustering_cqat(q)
  c.prove('stripped_model_computes_the_same', np.allclose(np.asarray(st(x, training=False)), want, atol=1e-5))
  c.prove('helpers_removed', not any(n in v.name for l in st.layers for v in l.weights for n in (
      'cluster_centroids_tf', 'ori_weights_vars_tf', 'pulling_indices_tf')))


def _kernelled(l):
  return type(getattr(l, 'layer', None)).__name__ in ('Dense', 'Conv2D')


def _kernel(l):
  import numpy as np
  return np.array([v for v in l.trainable_weights if v.name.endswith('/kernel:0')][0])


@contract('Q09', [CU + ':strip_clustering_cqat', CU + ':_type_model'], cases=60, deep=200, opts={'finite': True},
          note='every subset of the helper and other variables of one wrapped layer of five classes')
def strip_one_layer(c):
  """Stripping one layer removes exactly its helper variables; other layers and other objects are left or rejected."""
  tf = _tfm()
  from tensorflow_model_optimization.python.core.keras.compat import keras
  L = keras.layers
  strip = _mod(CU).strip_clustering_cqat
  what = c.choice('what', ['dense', 'conv', 'depthwise', 'activation', 'plain', 'not_a_layer'])
  if what == 'not_a_layer':
    e, _ = c.raises(strip, c.choice('object', [None, 3, 'dense', [], L.Dense]))
    c.prove('rejected', isinstance(e, ValueError))
    return
  inner = {'dense': lambda: L.Dense(2), 'conv': lambda: L.Conv2D(2, 1), 'depthwise': lambda: L.DepthwiseConv2D(2),
           'activation': lambda: L.ReLU(), 'plain': lambda: L.Dense(2)}[what]()
  layer = inner if what == 'plain' else L.Wrapper(inner)
  have = lambda names, tr: [tf.Variable(1.0, name=n, trainable=tr) for n in names if c.choice('has_' + n, [True, False])]
  layer._trainable_weights = have(['bias', 'cluster_centroids_tf', 'ori_weights_vars_tf', 'gamma'], True)
  layer._non_trainable_weights = have(['kernel_min', 'pulling_indices_tf', 'optimizer_step'], False)
  t, n = list(layer._trainable_weights), list(layer._non_trainable_weights)
  if what in ('dense', 'conv'):
    t = [v for v in t if v.name.split(':')[0] in ('bias', 'gamma')]
    n = [v for v in n if v.name.split(':')[0] in ('kernel_min', 'optimizer_step')]
  r = strip(layer)
  c.prove('same_layer', r is layer and (what == 'plain' or r.layer is inner))
  same = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
  c.prove('exactly_the_helpers_are_gone', same(r._trainable_weights, t) and same(r._non_trainable_weights, n))
