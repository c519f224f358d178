"""Contracts: layout transforms, the model transformer, quantize_apply and the fixed range helpers."""
import collections
import types
from dv.api import *  # noqa
from contracts.quantization import _mod, _bits_pair, _is_setting, QZ, QL, QW, QA, QC, R8, RN, C8, CN

T8 = 'quantization.keras.default_8bit.default_8bit_transforms'
TN = 'quantization.keras.experimental.default_n_bit.default_n_bit_transforms'
L8 = 'quantization.keras.default_8bit.default_8bit_quantize_layout_transform'
LN = 'quantization.keras.experimental.default_n_bit.default_n_bit_quantize_layout_transform'
MT = 'quantization.keras.graph_transformations.model_transformer'
TR = 'quantization.keras.graph_transformations.transforms'
QQ = 'quantization.keras.quantize'
UT = 'quantization.keras.utils'


def _both(names, fn='replacement'):
  return [m + ':%s.%s' % (n, fn) for m in (T8, TN) for n in names]


def _setup(c):
  nb = c.choice('n_bit', [False, True])
  bw, ba = _bits_pair(c, nb)
  mk = (lambda n: getattr(_mod(TN), n)(num_bits_weight=bw, num_bits_activation=ba)) if nb else (
      lambda n: getattr(_mod(T8), n)())
  return nb, bw, ba, mk, _mod(CN if nb else C8)


def _keras():
  return _mod('keras.compat').keras


def _node(layer, weights=None, inputs=(), config=None, **meta):
  d = _mod(UT).serialize_layer(layer, use_legacy_format=True)
  d['name'] = layer.name
  d['inbound_nodes'] = []
  return _mod(TR).LayerNode(d, weights, list(inputs), dict(meta, quantize_config=config))


def _record(n):
  """What a node consists of, to compare with later."""
  import copy
  return (n, n.layer['class_name'], copy.deepcopy(n.layer['config']), dict(n.metadata), dict(n.weights),
          list(n.input_layers))


def _kept(rec, config=True, meta=True):
  n, k, cf, md, w, inp = rec
  return (n.layer['class_name'] == k and (not config or n.layer['config'] == cf) and
          (not meta or all(n.metadata.get(a) is b for a, b in md.items()) and set(n.metadata) == set(md)) and
          list(n.weights) == list(w) and all(_equal(n.weights[a], w[a]) for a in w) and
          len(n.input_layers) == len(inp) and all(a is b for a, b in zip(n.input_layers, inp)))


def _equal(a, b):
  if a is b:
    return True
  import numpy as np
  import tensorflow as tf
  if not all(isinstance(x, (np.ndarray, tf.Tensor)) for x in (a, b)):
    return False      # symbolic
  return np.array_equal(np.asarray(a), np.asarray(b))


def _same(c, a, b):
  """Same shape and elements."""
  if not c.symbolic:
    return _equal(a, b)
  return And(len(dims(a)) == len(dims(b)), *([And(*[eq(x, y) for x, y in zip(dims(a), dims(b))]), c.forall(
      dims(b), lambda *i: eq(el(a, *i), el(b, *i)))] if len(dims(a)) == len(dims(b)) else []))


def _no_activation(cf):
  """The serialised activation is the one that is never quantised."""
  a = cf['activation']
  return a.get('class_name') == 'NoOpActivation' if isinstance(a, dict) else a == 'NoOpActivation'


def _quantises_nothing(cfg, layer=None):
  return (cfg is not None and list(cfg.get_weights_and_quantizers(layer)) == [] and
          list(cfg.get_activations_and_quantizers(layer)) == [] and list(cfg.get_output_quantizers(layer)) == [])


def _only_output(cfg, ba):
  """Exactly the output is quantised, with the activation bits."""
  if cfg is None:
    return False
  o = list(cfg.get_output_quantizers(None))
  return And(list(cfg.get_weights_and_quantizers(None)) == [] and list(cfg.get_activations_and_quantizers(None)) == [],
             len(o) == 1, *[And(isinstance(q, _mod(QZ).MovingAverageQuantizer), _is_setting(q, ba, False, False, False))
                            for q in o])


def _own(k='own'):
  Base = _mod(QC).QuantizeConfig

  class Own(Base):
    """Somebody's own config."""

    def get_weights_and_quantizers(self, layer):
      return []

    def get_activations_and_quantizers(self, layer):
      return []

    def set_quantize_weights(self, layer, quantize_weights):
      pass

    def set_quantize_activations(self, layer, quantize_activations):
      pass

    def get_output_quantizers(self, layer):
      return ['Q']

    def get_config(self):
      return {}

  return Own()


_FOLD = ['BatchNormQuantize', 'BatchNormReLUQuantize', 'BatchNormActivationQuantize']


@contract('Q11', _both(['Conv2D' + f for f in _FOLD] + ['Conv2DReshape' + f for f in _FOLD] + ['Dense' + f for f in _FOLD]),
          cases=150, deep=800, opts={'max_paths': 3000})
def batch_norm_patterns(c):
  """Nothing is quantised between the layer and the end of the pattern; weights and all else stay."""
  nb, _, ba, mk, C = _setup(c)
  keras = _keras()
  L = keras.layers
  pre = c.choice('layer', ['Conv2D', 'Conv2DReshape', 'Dense'])
  tail = c.choice('tail', _FOLD)
  custom = c.choice('custom_config_of', ['none', 'layer', 'batch_norm', 'relu'])
  if custom == 'relu' and tail == _FOLD[0]:
    raise Skip()
  t = mk(pre + tail)
  if pre == 'Dense':
    l0 = L.Dense(3, name='l')
  else:
    l0 = c.choice('conv', [L.Conv2D(3, 2, name='l'), L.DepthwiseConv2D(2, name='l')])
  n = c.dim('n', 1, 4)
  ker = c.tensor('kernel', [2, 2, n, 3] if pre != 'Dense' else [n, 3])
  own = lambda w: _own() if custom == w else None
  a = _node(l0, collections.OrderedDict([('kernel:0', ker)]), config=own('layer'))
  rs = [_node(L.Lambda(abs, name='sepconv1d_squeeze_1'), inputs=[a], config=C.NoOpQuantizeConfig())] if (
      'Reshape' in pre) else []
  g = c.tensor('gamma', [3])
  b = _node(c.choice('norm', [L.BatchNormalization, L.SyncBatchNormalization if hasattr(L, 'SyncBatchNormalization')
                              else L.BatchNormalization])(name='bn'),
            collections.OrderedDict([('gamma:0', g)]), [rs[0] if rs else a], own('batch_norm'))
  r = []
  if tail != _FOLD[0]:
    r = [_node(L.ReLU(6., name='r') if 'ReLU' in tail else L.Activation('relu', name='r'), None, [b], own('relu'))]
  ra, rb, rr, rq = _record(a), _record(b), [_record(x) for x in r], [_record(x) for x in rs]
  head = r[0] if r else b
  out = t.replacement(head)
  c.prove('same_head', out is head)
  if custom != 'none':
    c.prove('custom_configs_are_respected', _kept(ra) and _kept(rb) and all(map(_kept, rr + rq)))
    return
  c.prove('the_activation_is_not_quantised', _no_activation(a.layer['config']))
  c.prove('rest_of_the_layer_kept', _kept(ra, config=False) and
          {k: v for k, v in a.layer['config'].items() if k != 'activation'} ==
          {k: v for k, v in ra[2].items() if k != 'activation'})
  c.prove('batch_norm_kept', _kept(rb, meta=False))
  c.prove('layers_in_between_kept', all(map(_kept, rr + rq)))
  cfg = b.metadata['quantize_config']
  if r:
    c.prove('nothing_between_batch_norm_and_relu', _quantises_nothing(cfg))
  else:
    c.prove('quantised_after_batch_norm', _only_output(cfg, ba))


@contract('Q11', _both(['LayerReLUQuantize', 'LayerReluActivationQuantize']), cases=60, deep=200)
def relu_patterns(c):
  """Nothing is quantised between a layer and the ReLU it feeds; a user's own config of that layer is respected."""
  _, _, _, mk, _ = _setup(c)
  L = _keras().layers
  t = mk(c.choice('tail', ['LayerReLUQuantize', 'LayerReluActivationQuantize']))
  mkl = {'Add': lambda: L.Add(name='l'), 'Conv2D': lambda: L.Conv2D(3, 2, name='l'),
         'DepthwiseConv2D': lambda: L.DepthwiseConv2D(2, name='l'), 'Dense': lambda: L.Dense(3, name='l')}
  k = c.choice('layer', sorted(mkl))
  custom = c.choice('custom_config_of', ['none', 'layer', 'relu'])
  a = _node(mkl[k](), collections.OrderedDict([('kernel:0', c.tensor('w', [c.dim('n', 1, 4)]))]),
            config=_own() if custom == 'layer' else None)
  r = _node(c.choice('relu', [L.ReLU, lambda name: L.Activation('relu', name=name)])(name='r'), None, [a],
            _own() if custom == 'relu' else None)
  ra, rr = _record(a), _record(r)
  out = t.replacement(r)
  c.prove('same_head', out is r)
  c.prove('relu_kept', _kept(rr))
  c.prove('layer_kept', _kept(ra, meta=False))
  if custom == 'layer':
    c.prove('custom_config_is_respected', _kept(ra))
  else:
    cfg = a.metadata['quantize_config']
    c.prove('nothing_before_the_relu', cfg is not None and list(cfg.get_output_quantizers(None)) == [] and
            list(cfg.get_activations_and_quantizers(None)) == [])


@contract('Q11', _both(['LayerReLUQuantize', 'LayerReluActivationQuantize']), cases=10, deep=20, mode='bounded')
def relu_keeps_kernel_quantised(c):
  """The kernel of a layer that feeds a ReLU is quantised like any other kernel."""
  _, _, _, mk, _ = _setup(c)
  L = _keras().layers
  layer = c.choice('layer', [L.Conv2D(3, 2, name='l'), L.DepthwiseConv2D(2, name='l'), L.Dense(3, name='l')])
  layer.build((None, 4, 4, 3) if 'Conv' in type(layer).__name__ else (None, 3))
  a = _node(layer)
  mk(c.choice('tail', ['LayerReLUQuantize', 'LayerReluActivationQuantize'])).replacement(_node(L.ReLU(), None, [a]))
  cfg = a.metadata['quantize_config']
  c.prove('kernel_stays_quantised', cfg is None or len(cfg.get_weights_and_quantizers(layer)) == 1)


_FEED = ['Dense', 'Conv2D', 'ReLU', 'MaxPooling2D', 'own', 'output', 'kernel_and_output', 'nothing', 'Concatenate',
         'QuantizeLayer']


@contract('Q11', _both(['ConcatTransform'] + ['ConcatTransform%dInputs' % k for k in (3, 4, 5, 6)]) +
          _both(['ConcatTransform'], '_disable_output_quantize'), cases=200, deep=1500, opts={'max_paths': 3000})
def concatenate_patterns(c):
  """The inputs of a Concatenate lose their output quantizers, its result is quantised once."""
  nb, bw, ba, mk, C = _setup(c)
  keras = _keras()
  L = keras.layers
  if c.symbolic:   # all pairs in the last two positions, and every kind in the first position of longer ones
    n = c.choice('inputs', [2, 3, 6])
    kinds = [c.choice('k%d' % i, _FEED) for i in range(2)]
    kinds = kinds + [kinds[0]] * (n - 2)
  else:
    n = c.choice('inputs', [2, 3, 4, 5, 6])
    kinds = [c.choice('k%d' % i, _FEED) for i in range(n)]
  t = mk('ConcatTransform' + ('' if n == 2 else '%dInputs' % n))
  pre = 'DefaultNBit' if nb else 'Default8Bit'
  bits = dict(num_bits_weight=bw, num_bits_activation=ba) if nb else {}
  feeds, before = [], []
  mks = {'Dense': lambda k: L.Dense(2, name=k), 'Conv2D': lambda k: L.Conv2D(2, 2, name=k),
         'ReLU': lambda k: L.ReLU(name=k), 'MaxPooling2D': lambda k: L.MaxPooling2D(name=k),
         'Concatenate': lambda k: L.Concatenate(name=k), 'QuantizeLayer': lambda k: _mod(QL).QuantizeLayer(
             None, name=k)}
  for i, k in enumerate(kinds):
    cfg = {'own': lambda: _own(), 'output': lambda: getattr(C, pre + 'OutputQuantizeConfig')(**bits),
           'kernel_and_output': lambda: getattr(_mod(RN if nb else R8), pre + 'QuantizeConfig')(
               ['kernel'], [], True, **bits),
           'nothing': lambda: C.NoOpQuantizeConfig()}.get(k, lambda: None)()
    f = _node(mks.get(k, mks['Dense'])('f%d' % i), None, config=cfg)
    if k == 'QuantizeLayer':
      f.metadata = {}
    feeds.append(f)
    before.append((cfg, f.layer['class_name']))
  custom = c.bool('custom_config_of_the_concatenate') if not c.symbolic else c.choice('custom_concat', [False, True])
  own = _own() if custom else None
  h = _node(L.Concatenate(name='c'), None, feeds, own)
  out = t.replacement(h)
  c.prove('same_head', out is h)
  c.prove('same_inputs_in_order', len(h.input_layers) == n and all(a is b for a, b in zip(h.input_layers, feeds)))
  if custom:
    c.prove('custom_config_is_respected', h.metadata['quantize_config'] is own)
  else:
    c.prove('result_is_quantised_once', _only_output(h.metadata['quantize_config'], ba))
  for k, f, (cfg, cls) in zip(kinds, feeds, before):
    c.prove('layer_class_kept', f.layer['class_name'] == cls)
    if k == 'QuantizeLayer':
      c.prove('input_not_quantised_before', 'quantizer' in f.metadata and f.metadata['quantizer'] is None)
      continue
    now = f.metadata['quantize_config']
    if k == 'Concatenate':
      c.prove('inner_concatenate_not_quantised', _quantises_nothing(now))
      continue
    c.prove('no_output_quantizer', now is not None and list(now.get_output_quantizers(None)) == [])
    if cfg is not None:
      c.prove('own_config_stays', now is cfg)
    if k in ('output', 'kernel_and_output', 'ReLU'):
      c.prove('disabled_for_good', now.get_config().get('quantize_output') is False)
    if k in ('Dense', 'Conv2D', 'kernel_and_output'):
      layer = type('X', (), dict(kernel='W', activation='A'))()
      g = now.get_weights_and_quantizers(layer)
      c.prove('kernel_stays_quantised', And(len(g) == 1, *[_is_setting(
          q, bw, k == 'Conv2D', True, True) for _, q in g]))


@contract('Q11', _both(['InputLayerQuantize']), cases=30, deep=100)
def input_pattern(c):
  """An input is followed by a layer quantising it per tensor with the activation bits."""
  ba = c.choice('bits', [8] + list(range(2, 17)))    # Keras serialises them, so not symbolic
  nb = c.choice('n_bit', [False, True])
  if not nb and ba != 8:
    raise Skip()
  mk = (lambda n: getattr(_mod(TN), n)(3, ba)) if nb else lambda n: getattr(_mod(T8), n)()
  keras = _keras()
  i = _node(keras.layers.InputLayer((3,), name='i'))
  r = _record(i)
  out = mk('InputLayerQuantize').replacement(i)
  c.prove('fed_by_the_input', len(out.input_layers) == 1 and out.input_layers[0] is i and _kept(r))
  c.prove('quantize_layer', out.layer['class_name'] == 'QuantizeLayer')
  q = out.layer['config']['quantizer']
  c.prove('quantizer', And(q['class_name'] == 'AllValuesQuantizer', q['config']['num_bits'] == ba, not any(
      q['config'][k] for k in ('per_axis', 'symmetric', 'narrow_range'))))
  c.prove('names_differ', out.layer['config']['name'] != 'i')


def _sep_cfg(c, dilations):
  keras = _keras()
  dil = c.choice('dilation', dilations)
  return dict(
      filters=c.choice('filters', [1, 4]), strides=c.choice('strides', [1, 2]) if dil == 1 else 1, dilation_rate=dil,
      padding=c.choice('padding', ['valid', 'same']), depth_multiplier=c.choice('depth_multiplier', [1, 3]),
      use_bias=c.choice('use_bias', [True, False]), activation=c.choice('activation', [None, 'relu']),
      trainable=c.choice('trainable', [True, False])), keras


@contract('Q11', _both(['SeparableConvQuantize']), cases=80, deep=300, opts={'max_paths': 2000})
def separable_conv_split(c):
  """SeparableConv2D = DepthwiseConv2D then 1x1 Conv2D with its weights, options and activation."""
  _, _, _, mk, _ = _setup(c)
  o, keras = _sep_cfg(c, [1, (1, 2), (2, 1)])
  sep = keras.layers.SeparableConv2D(kernel_size=(2, 3), name='s', depthwise_regularizer='l2', pointwise_regularizer='l1',
                                     bias_constraint='non_neg', pointwise_constraint='max_norm',
                                     depthwise_constraint='unit_norm', **o)
  ch, f = c.dim('channels', 1, 4), c.dim('f', 1, 4)
  ws = [c.tensor('depthwise', [2, 3, ch, o['depth_multiplier']]), c.tensor('pointwise', [1, 1, ch, f])]
  names = ['depthwise_kernel:0', 'pointwise_kernel:0']
  if o['use_bias']:
    ws.append(c.tensor('bias', [f]))
    names.append('bias:0')
  custom = c.choice('custom', [False, True])
  n = _node(sep, collections.OrderedDict(zip(names, ws)), config=_own() if custom else None)
  r = _record(n)
  cf = r[2]
  out = mk('SeparableConvQuantize').replacement(n)
  if custom:
    c.prove('custom_config_is_respected', out is n and _kept(r))
    return
  c.prove('two_layers', out.layer['class_name'] == 'Conv2D' and len(out.input_layers) == 1 and
          out.input_layers[0].layer['class_name'] == 'DepthwiseConv2D' and not out.input_layers[0].input_layers)
  d = out.input_layers[0]
  c.prove('both_are_to_be_quantised', all(x.metadata.get('quantize_config', 0) is None for x in (d, out)))
  dc, pc = d.layer['config'], out.layer['config']
  c.prove('depthwise_options', all(dc[k] == cf[k] for k in (
      'kernel_size', 'strides', 'padding', 'depth_multiplier', 'data_format', 'dilation_rate', 'depthwise_regularizer',
      'depthwise_constraint', 'trainable')) and not dc['use_bias'] and dc['activation'] == 'linear')
  c.prove('pointwise_options', all(pc[k] == cf[j] for k, j in (
      ('filters', 'filters'), ('data_format', 'data_format'), ('activation', 'activation'), ('use_bias', 'use_bias'),
      ('kernel_regularizer', 'pointwise_regularizer'), ('bias_regularizer', 'bias_regularizer'), (
          'kernel_constraint', 'pointwise_constraint'), ('bias_constraint', 'bias_constraint'),
      ('activity_regularizer', 'activity_regularizer'), ('trainable', 'trainable'))) and
          tuple(pc['kernel_size']) == (1, 1) and tuple(pc['strides']) == (1, 1))
  c.prove('weights_split', list(d.weights) == ['depthwise_kernel:0'] and list(out.weights) == [
      'kernel:0', 'bias:0'][:len(ws) - 1] and True)
  for a, b in zip(list(d.weights.values()) + list(out.weights.values()), ws):
    c.prove('weight_values', _same(c, a, b))


@contract('Q11', _both(['SeparableConv1DQuantize']), cases=80, deep=300, opts={'max_paths': 2000})
def separable_conv1d_mapping(c):
  """SeparableConv1D = SeparableConv2D on a height of one with the same weights and options."""
  _, _, _, mk, _ = _setup(c)
  o, keras = _sep_cfg(c, [1, 2])
  causal = c.choice('causal', [False, True])
  custom = c.choice('custom', [False, True])
  o['padding'] = 'causal' if causal else o['padding']
  sep = keras.layers.SeparableConv1D(kernel_size=3, name='s', depthwise_regularizer='l2', pointwise_regularizer='l1',
                                     bias_constraint='non_neg', **o)
  ch, f = c.dim('channels', 1, 4), c.dim('f', 1, 4)
  m = o['depth_multiplier']
  ws = [c.tensor('depthwise', [3, ch, m]), c.tensor('pointwise', [1, ch, f])]
  names = ['depthwise_kernel:0', 'pointwise_kernel:0']
  if o['use_bias']:
    ws.append(c.tensor('bias', [f]))
    names.append('bias:0')
  if not c.symbolic:
    ws = [w.numpy() for w in ws]
  n = _node(sep, collections.OrderedDict(zip(names, ws)), config=_own() if custom else None)
  r = _record(n)
  cf = r[2]
  t = mk('SeparableConv1DQuantize')
  if custom:
    c.prove('custom_config_is_respected', t.replacement(n) is n and _kept(r))
    return
  e, out = c.raises(t.replacement, n)
  if causal:
    c.prove('causal_rejected', isinstance(e, ValueError))
    return
  c.prove('accepted', e is None)
  s = out.input_layers[0] if len(out.input_layers) == 1 else None
  x = s.input_layers[0] if s is not None and len(s.input_layers) == 1 else None
  c.prove('three_layers', x is not None and out.layer['class_name'] == 'Lambda' and
          s.layer['class_name'] == 'SeparableConv2D' and x.layer['class_name'] == 'Lambda' and not x.input_layers)
  c.prove('only_the_convolution_is_quantised', s.metadata.get('quantize_config', 0) is None and all(
      _quantises_nothing(q.metadata.get('quantize_config')) for q in (out, x)))
  q = s.layer['config']
  c.prove('options', all(q[k] == cf[k] for k in (
      'filters', 'padding', 'data_format', 'depth_multiplier', 'activation', 'use_bias', 'depthwise_regularizer',
      'pointwise_regularizer', 'bias_regularizer', 'activity_regularizer', 'depthwise_constraint',
      'pointwise_constraint', 'bias_constraint', 'trainable')) and tuple(q['kernel_size']) == (1, 3) and
          q['strides'][1] == cf['strides'][0] and q['dilation_rate'][1] == cf['dilation_rate'][0])
  w = list(s.weights.values())
  c.prove('number_of_weights', list(s.weights) == names and len(w) == len(ws) and not out.weights and not x.weights)
  c.prove('weight_shapes', And(*[len(dims(a)) == len(dims(b)) + (1 if k < 2 else 0) for k, (a, b) in enumerate(zip(w, ws))]))
  c.prove('weight_values', And(
      c.forall([3, ch, m], lambda i, j, k: eq(el(w[0], 0, i, j, k), el(ws[0], i, j, k))),
      c.forall([ch, f], lambda j, k: eq(el(w[1], 0, 0, j, k), el(ws[1], 0, j, k))),
      *([c.forall([f], lambda k: eq(el(w[2], k), el(ws[2], k)))] if o['use_bias'] else [])))


# --- whole models ------------------------------------------------------------------
def _rand(rs, m):
  import numpy as np
  for l in m.layers:
    l.set_weights([np.abs(rs.randn(*w.shape)) * .5 + .5 if 'variance' in v.name else rs.randn(*w.shape)
                   for v, w in zip(l.weights, l.get_weights())])


def _block_net(c, keras, rs):
  """A random network of the blocks the transforms know, with branches, merges and several consumers."""
  L = keras.layers
  two = c.choice('inputs', [1, 1, 2, 3])      # those that nothing uses are left out
  inn = c.choice('input_names', [['in0', 'in1', 'in2'], ['z', 'm', 'a'], ['in2', 'in0', 'in1']])
  ins = [keras.Input((5, 5, 2), name=inn[k]) for k in range(two)]
  conv = lambda act=None: (L.Conv2D(2, c.choice('ksize%d' % len(log), [1, 2]), padding='same', use_bias=False,
                                    activation=act))
  relu = lambda k: L.ReLU() if k else L.Activation('relu')
  live, log = list(ins), []
  def take():
    return live[c.int('pick%d_%d' % (len(log), take.n), 0, 9, gen=lambda r: r.choice(
        [len(live) - 1] * 2 + [r.randrange(9)])) % len(live)]
  take.n = 0
  kinds = ['conv', 'conv_bn', 'conv_bn_relu', 'conv_bn_act', 'conv_relu', 'conv_act', 'dw_bn_relu', 'sep', 'sep_bn_relu',
           'pool', 'avg', 'relu', 'add', 'add_relu', 'concat', 'concat', 'concat3', 'conv_tanh', 'drop', 'dense_bn_relu',
           'dense_bn']
  branches = c.choice('branches', [0, 2, 2, 3])     # 0: anything; else so many blocks are merged at the end
  for b in range(c.int('blocks', 1, 6, gen=lambda r: r.randint(2, 6)) if not branches else branches + 1):
    last = branches and b == branches
    k = c.choice('block%d' % len(log), kinds if not branches else ['concat', 'add_relu', 'concat'] if last else [
        k for k in kinds if not k.startswith(('add', 'concat'))])
    k = 'concat3' if branches == 3 and k == 'concat' else k
    log.append(k)
    take.n = 0
    x = live[-1] if last else ins[0] if branches else take()
    if k.startswith(('add', 'concat')):
      xs = [x]
      for j in range(2 if k == 'concat3' else 1):
        take.n = j + 1
        y = live[-2 - j] if last else take()
        if any(y is z for z in xs):
          y = conv()(y)
        xs.append(y)
      if k == 'add_relu' or k == 'add':
        xs = [y if y.shape[-1] == 2 else conv()(y) for y in xs]
      y = (L.Add() if 'add' in k else L.Concatenate())(xs)
      if k == 'add_relu':
        y = relu(c.bool('r%d' % len(log)))(y)
    elif k in ('pool', 'avg'):
      y = (L.MaxPooling2D if k == 'pool' else L.AveragePooling2D)(1)(x)
    elif k == 'relu':
      y = relu(c.bool('r%d' % len(log)))(x)
    elif k == 'drop':
      y = L.Dropout(.5)(x)
    else:
      p = k.split('_')
      y = {'conv': conv, 'dw': lambda: L.DepthwiseConv2D(2, padding='same', use_bias=False), 'sep': lambda:
           L.SeparableConv2D(2, 2, padding='same', use_bias='bn' not in k, depth_multiplier=2), 'dense': lambda:
           L.Dense(2, use_bias=False)}[p[0]]() if 'tanh' not in k else conv('tanh')
      y = y(x)
      for q in p[1:]:
        y = {'bn': L.BatchNormalization, 'relu': L.ReLU, 'act': lambda: L.Activation('relu'),
             'tanh': lambda: L.Dropout(.1)}[q]()(y)
    live.append(y)
  used = lambda t: any(t is i for l in keras.Model(ins, live).layers if not isinstance(l, L.InputLayer)
                       for n in l._inbound_nodes for i in _flat(n.input_tensors))  # pylint: disable=protected-access
  ends = [t for t in live if not used(t)]
  outs = [t for t in ends if not any(t is i for i in ins)]
  if not outs:
    outs = [live[-1]]
  if any(o is i for o in outs for i in ins):
    raise Skip()
  for k, i in enumerate(i for i in ins if not used(i)):
    y = conv()(i)
    how = c.choice('rest%d' % k, ['output', 'add', 'concat'])
    if how == 'output' or how == 'add' and outs[0].shape[-1] != 2:
      outs.append(y)
    else:
      outs[0] = (L.Add() if how == 'add' else L.Concatenate())([outs[0], y])
  if c.bool('head'):
    outs[0] = L.Dense(2, activation='softmax')(L.Flatten()(outs[0]))
  m = keras.Model([i for i in ins], outs)
  if any(not l._outbound_nodes for l in m.layers if isinstance(l, L.InputLayer)):  # pylint: disable=protected-access
    raise Skip()
  _rand(rs, m)
  return m


def _flat(x):
  return list(x) if isinstance(x, (list, tuple)) else [x]


class _Placement:
  """How many fake quantisations each layer of a model has to have, by the documented rules.

  cand: names of the annotated layers (None: all); own: names of those with a config of the user.
  """

  def __init__(self, m, cand=None, own=()):
    self.m, self.own = m, set(own)
    nodes = set(id(n) for ns in m._nodes_by_depth.values() for n in ns)
    ib = lambda l: [n for n in l._inbound_nodes if id(n) in nodes]
    flat = lambda x: list(x.values()) if isinstance(x, dict) else _flat(x)
    self.inp = {l.name: [p for n in ib(l) for p in (flat(n.inbound_layers) if not n.call_kwargs or len(flat(
        n.inbound_layers)) > 1 else [t._keras_history.layer for t in n.keras_inputs])] for l in m.layers}
    outs = [o._keras_history.layer.name for o in m.outputs]
    self.cons = {l.name: [d for d in m.layers if any(p is l for p in self.inp[d.name])] for l in m.layers}
    self.uses = {l.name: len(self.cons[l.name]) + outs.count(l.name) for l in m.layers}
    kind = self.kind
    self.cand = set(l.name for l in m.layers) if cand is None else set(cand) | set(
        l.name for l in m.layers if kind(l) == 'InputLayer' and any(d.name in cand for d in self.cons[l.name]))
    # a layer outside that is the only input of an annotated one has its output quantised
    self.feeds = set(self.inp[l.name][0].name for l in m.layers if l.name in self.cand and len(
        self.inp[l.name]) == 1) - self.cand

  def kind(self, l):
    return type(l).__name__

  def kern(self, l):
    return self.kind(l) in ('Dense', 'Conv2D', 'DepthwiseConv2D', 'SeparableConv2D', 'SeparableConv1D')

  def is_relu(self, l):
    return self.kind(l) == 'ReLU' or self.kind(l) == 'Activation' and l.activation.__name__ == 'relu'

  def only_feeds(self, l):
    """The annotated layer that is the only consumer."""
    d = self.cons[l.name][0] if self.uses[l.name] == 1 and self.cons[l.name] else None
    return d if d is not None and d.name in self.cand else None

  def foldable(self, l):
    """A kernel layer whose only consumer is a batch normalisation."""
    n = self.only_feeds(l)
    return (l.name in self.cand and self.kern(l) and l.activation.__name__ == 'linear' and n is not None and
            self.kind(n) == 'BatchNormalization' and not {l.name, n.name} & self.own)

  def concat_rule(self, l):
    ps = self.inp[l.name]
    return (l.name in self.cand and self.kind(l) == 'Concatenate' and 2 <= len(ps) <= 6 and
            len(set(p.name for p in ps)) == len(ps) and all(self.uses[p.name] == 1 and p.name in self.cand for p in ps))

  def default_output(self, l):
    """Quantisations of the output of a layer that no rule is about."""
    k = self.kind(l)
    if self.kern(l) and not k.startswith('Separable') or k in ('ReLU', 'Add', 'AveragePooling2D', 'Concatenate'):
      return 1
    return 1 if self.is_relu(l) else 0

  def expected(self, l):
    """Allowed numbers (weights and outputs together)."""
    k, n = self.kind(l), self.only_feeds(l)
    if l.name not in self.cand:
      return {self.default_output(l) if l.name in self.feeds and k != 'InputLayer' else 0}
    into_concat = n is not None and self.concat_rule(n)
    if l.name in self.own:
      return {(1 if self.kern(l) else 0) + (0 if into_concat else 1)}      # the kernel and the output; see _mine
    w = 1 if self.kern(l) else 0
    if k == 'InputLayer':
      return {0 if into_concat else 1}
    if k in ('MaxPooling2D', 'Dropout', 'Flatten'):
      return {0}
    extra = 2 if k.startswith('Separable') else 0     # the depthwise half: kernel and activation
    if self.foldable(l):
      return {w + extra}
    if k == 'BatchNormalization':
      if n is not None and self.is_relu(n) and n.name not in self.own:
        return {0}
      return {0 if into_concat else 1}
    if (self.kern(l) or k == 'Add') and n is not None and self.is_relu(n):
      return {extra, w + extra}    # KNOWN FINDING: the kernel is left alone as well
    if self.kern(l):
      return {w + 1 + extra}       # through its activation
    return {0 if into_concat else 1}

  def supported(self):
    return all(self.kind(l) != 'BatchNormalization' or l.name not in self.cand or l.name in self.own or self.foldable(
        self.inp[l.name][0]) for l in self.m.layers)


def _fake_quants(tf, q, xs):
  """Number of fake quantisations per layer name in the graph that computes the model."""
  fn = tf.function(lambda *a: q(list(a) if len(a) > 1 else a[0], training=False))
  g = fn.get_concrete_function(*[tf.constant(x) for x in xs]).graph
  n = {}
  for o in g.get_operations():
    if o.type.startswith('FakeQuantWithMinMax'):
      for part in o.name.split('/')[1:]:
        if any(part == l.name for l in q.layers):
          n[part] = n.get(part, 0) + 1
          break
      else:
        n['?'] = n.get('?', 0) + 1
  return n


class _NoFakeQuant:
  """Fake quantisation replaced by the identity, to see the function underneath."""

  def __enter__(self):
    import tensorflow as tf
    self.old = []
    for m in (tf.quantization, tf.compat.v1.quantization, tf.compat.v2.quantization if hasattr(
        tf.compat.v2, 'quantization') else tf.quantization):
      for n in ('fake_quant_with_min_max_vars', 'fake_quant_with_min_max_vars_per_channel'):
        self.old.append((m, n, getattr(m, n)))
        setattr(m, n, lambda inputs, *a, **k: inputs)

  def __exit__(self, *a):
    for m, n, f in reversed(self.old):
      setattr(m, n, f)


def _scheme(nb, bw=4, ba=6):
  if nb:
    return _mod('quantization.keras.experimental.default_n_bit.default_n_bit_quantize_scheme').DefaultNBitQuantizeScheme(
        num_bits_weight=bw, num_bits_activation=ba)
  return _mod('quantization.keras.default_8bit.default_8bit_quantize_scheme').Default8BitQuantizeScheme()


def _outs(y):
  import numpy as np
  return [np.asarray(a) for a in _flat(y)]


def _close(a, b, tol=1e-3):
  import numpy as np
  return len(a) == len(b) and all(x.shape == y.shape and np.allclose(x, y, atol=tol, rtol=tol) for x, y in zip(a, b))


_WHOLE = [m + ':Default%sQuantizeLayoutTransform.apply' % n for m, n in ((L8, '8Bit'), (LN, 'NBit'))] + _both(
    ['ConcatTransform', 'SeparableConvQuantize', 'InputLayerQuantize', 'Conv2DBatchNormReLUQuantize',
     'DenseBatchNormReLUQuantize', 'LayerReLUQuantize'])


@contract('Q11', _WHOLE + _both(['SeparableConv1DQuantize', 'Conv2DReshapeBatchNormReLUQuantize']), cases=25, deep=250,
          mode='bounded', note='whole quantised models of sampled blocks; quantisations counted in the traced graph')
def quantised_models(c):
  """Without the quantisations the model computes what it did; every tensor is quantised as often as documented."""
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  rs = np.random.RandomState(c.int('seed', 0, 10 ** 6))
  nb = c.choice('n_bit', [False, True])
  m = _block_net(c, keras, rs)
  P = _Placement(m)
  Q = _mod(QQ)
  xs = [rs.randn(2, *i.shape[1:]).astype('f') for i in m.inputs]
  arg = xs if len(xs) > 1 else xs[0]
  y0 = _outs(m(arg))
  with Q.quantize_scope():
    e, q = c.raises(lambda: Q.quantize_apply(Q.quantize_annotate_model(m), _scheme(nb)))
  if not P.supported():
    c.prove('lone_batch_norm_rejected', isinstance(e, RuntimeError))
    return
  c.prove('accepted', e is None, info=repr(e))
  with _NoFakeQuant():
    c.prove('same_function_underneath', _close(_outs(q(arg, training=False)), y0))
  c.prove('original_untouched', _close(_outs(m(arg)), y0, 0))
  n = _fake_quants(tf, q, xs)
  c.prove('every_quantisation_attributed', '?' not in n)
  rest = dict(n)
  sep = []
  for l in m.layers:
    ex = P.expected(l)
    if P.kind(l).startswith('Separable'):
      sep.append(ex)
      continue
    if P.kind(l) == 'InputLayer':
      continue
    c.prove('quantised_as_documented', rest.pop('quant_' + l.name, 0) in ex, info='%s %s %s' % (l.name, n, ex))
  ins = [P.expected(l) for l in m.layers if P.kind(l) == 'InputLayer']
  lo, hi = (sum(f(e) for e in sep + ins) for f in (min, max))
  c.prove('inputs_and_split_layers_quantised_as_documented', lo <= sum(rest.values()) <= hi, info='%s %s' % (rest, (lo, hi)))


@contract('Q11', _WHOLE[:2] + _both(['SeparableConvQuantize', 'SeparableConv1DQuantize', 'Conv2DReshapeBatchNormQuantize',
                                     'Conv2DReshapeBatchNormReLUQuantize', 'Conv2DReshapeBatchNormActivationQuantize']),
          cases=25, deep=200, mode='bounded', note='whole separable convolution models')
def separable_models(c):
  """A quantised separable convolution computes the original one when the quantisations are taken out."""
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  L = keras.layers
  rs = np.random.RandomState(c.int('seed', 0, 10 ** 6))
  if hasattr(keras.__internal__, 'enable_unsafe_deserialization'):
    keras.__internal__.enable_unsafe_deserialization()      # as the documentation of Lambda layers asks
  nb, one = c.choice('n_bit', [False, True]), c.choice('one_d', [True, False])
  tail = c.choice('tail', ['', 'bn', 'bn_relu', 'bn_act', 'relu'])
  ub = 'bn' not in tail and c.bool('use_bias')
  st, dil = c.choice('strides_dilation', [(1, 1), (2, 1), (1, 2)])
  seq = c.bool('sequential')
  mk = lambda: (L.SeparableConv1D if one else L.SeparableConv2D)(
      c.choice('filters', [1, 3]), c.choice('kernel', [1, 2, 3]), strides=st, dilation_rate=dil, use_bias=ub,
      padding=c.choice('padding', ['valid', 'same']), depth_multiplier=c.choice('multiplier', [1, 2]),
      activation='tanh' if not tail and c.bool('tanh') else None)
  layers = [mk()] + {'': [], 'bn': ['b'], 'bn_relu': ['b', 'r'], 'bn_act': ['b', 'a'], 'relu': ['r']}[tail]
  layers = [{'b': L.BatchNormalization, 'r': L.ReLU, 'a': lambda: L.Activation('relu')}[l]() if isinstance(
      l, str) else l for l in layers]
  if c.bool('twice'):
    layers = layers + [L.Dropout(.1), (L.SeparableConv1D if one else L.SeparableConv2D)(2, 1)]
  shape = (7, 2) if one else (7, 6, 2)
  if seq:
    m = keras.Sequential([keras.Input(shape)] + layers)
  else:
    i = keras.Input(shape)
    x = i
    for l in layers:
      x = l(x)
    m = keras.Model(i, x)
  _rand(rs, m)
  x = rs.randn(2, *shape).astype('f')
  y0 = _outs(m(x))
  Q = _mod(QQ)
  with Q.quantize_scope():
    q = Q.quantize_apply(Q.quantize_annotate_model(m), _scheme(nb))
  with _NoFakeQuant():
    c.prove('same_function_underneath', _close(_outs(q(x, training=False)), y0))
  n = _fake_quants(tf, q, [x])
  # the input; two kernels, the depthwise activation, and one at the end of the pattern
  w = 1 + 4 + (4 if len(layers) > 2 and isinstance(layers[-2], L.Dropout) else 0)
  want = {w}
  if tail == 'relu':      # KNOWN FINDING: the kernel is left alone; 1D: the squeezing separates them, both quantised
    want = {w + 1} if one else {w, w - 1}
  c.prove('number_of_quantisations', sum(n.values()) in want, info='%s %s' % (n, want))


# --- the model transformer ----------------------------------------------------------
def _toy_layers(keras):
  L = keras.layers

  class Scaled(L.Layer):
    """A layer with a tensor keyword argument."""

    def call(self, x, other=None):
      return x if other is None else x - 0.5 * other

  class Mixed(L.Layer):
    """A layer with a dictionary of inputs."""

    def call(self, d):
      return d['a'] - 2. * d['b']

  return {'Scaled': Scaled, 'Mixed': Mixed}


def _toy_net(c, keras, toys, rs):
  """Random functional (DAG) or sequential model of small layers, all tensors of width 3."""
  L = keras.layers
  act = lambda k: c.choice('act%d' % k, ['linear', 'relu', 'linear', 'tanh'])
  if c.choice('kind', ['functional', 'functional', 'sequential']) == 'sequential':
    ls = [keras.Input((3,))] if c.bool('explicit_input') else []
    n = c.int('n', 1, 6)
    for k in range(n):
      t = c.choice('t%d' % k, ['dense', 'dense', 'relu', 'bn', 'drop'])
      kw = {} if ls else {'input_shape': (3,)}
      ls.append({'dense': lambda **z: L.Dense(3, activation=act(k), use_bias=c.bool('b%d' % k), **z), 'relu': L.ReLU,
                 'bn': L.BatchNormalization, 'drop': lambda **z: L.Dropout(.3, **z)}[t](**kw))
    m = keras.Sequential(ls)
  else:
    ins = [keras.Input((3,)) for _ in range(c.choice('inputs', [1, 2]))]
    live = list(ins)
    shared = L.Dense(3, name='shared')
    shared_used = 0
    for k in range(c.int('n', 1, 8, gen=lambda r: r.randint(2, 8))):
      pick = lambda j: live[c.int('p%d_%d' % (k, j), 0, 20, gen=lambda r: r.choice([len(live) - 1, r.randrange(20)])) % len(live)]
      t = c.choice('t%d' % k, ['dense', 'dense', 'relu', 'bn', 'concat', 'concat', 'sub', 'add', 'scaled', 'mixed', 'shared', 'drop',
                                    'dense_relu', 'dense_relu'])
      x = pick(0)
      if t in ('concat', 'sub', 'add', 'scaled', 'mixed'):
        y = pick(1)
        if t == 'concat':
          live.append(L.Dense(3, use_bias=False)(L.Concatenate()([x, y])) if c.bool('cd%d' % k) else L.Dense(
              3, activation=act(k))(L.Concatenate()([x, y])))
        elif t in ('sub', 'add'):
          live.append((L.Subtract if t == 'sub' else L.Add)()([x, y]))
        elif t == 'scaled':
          live.append(toys['Scaled']()(x, other=y))
        else:
          live.append(toys['Mixed']()({'a': x, 'b': y}))
      else:
        if t == 'shared':
          shared_used += 1
        if t == 'dense_relu':
          x = L.Dense(3)(x)
          live.append(x)
          t = 'relu'
        live.append({'dense': lambda: L.Dense(3, activation=act(k), use_bias=c.bool('b%d' % k)), 'relu': L.ReLU, 'bn':
                     L.BatchNormalization, 'drop': lambda: L.Dropout(.3), 'shared': lambda: shared}[t]()(x))
    outs = [live[-1]] + [t for k, t in enumerate(live[len(ins):-1]) if c.bool('out_%d' % k)][:c.choice('extra', [1, 2, 3])]
    if c.bool('swap'):
      outs.reverse()
    m = keras.Model(ins, outs if len(outs) > 1 or c.bool('list') else outs[0])
    m = m if all(any(i is t for l in m.layers for n in l._inbound_nodes for t in _flat(  # pylint: disable=protected-access
        n.input_tensors if not isinstance(n.input_tensors, dict) else list(n.input_tensors.values())) +
                     [v for v in (n.call_kwargs or {}).values()])
                 for i in ins) else None
    if m is None or any(t is i for t in outs for i in ins):
      raise Skip()
  _rand(rs, m)
  return m


def _toy_transforms(keras, seen):
  """Transforms that keep the function."""
  tr = _mod(TR)
  import copy
  P, N = tr.LayerPattern, tr.LayerNode

  class Renamed(tr.Transform):
    """Dense without activation -> the same layer under another name."""

    def pattern(self):
      return P('Dense', config={'activation': 'linear', 'name': '(?!.*_new$).*'})

    def replacement(self, node):
      seen.append(('Renamed', node.layer['config']['name'], []))
      l = copy.deepcopy(node.layer)
      l['config']['name'] = l['name'] = l['config']['name'] + '_new'
      return N(l, node.weights, [], dict(node.metadata, renamed=True), names_and_weights=node.names_and_weights)

  class Split(tr.Transform):
    """Dense + relu inside -> Dense, ReLU layer."""

    def pattern(self):
      return P('Dense', config={'activation': 'relu'})

    def replacement(self, node):
      seen.append(('Split', node.layer['config']['name'], []))
      l = copy.deepcopy(node.layer)
      n = l['config']['name']
      l['config'].update(name=n + '_lin', activation='linear')
      l['name'] = n + '_lin'
      r = keras.layers.ReLU(name=n + '_relu')
      rc = _mod(UT).serialize_layer(r, use_legacy_format=True)
      rc['name'] = r.name
      return N(rc, metadata={'half': 2}, input_layers=[N(l, node.weights, [], {'half': 1},
                                                         names_and_weights=node.names_and_weights)])

  class Fused(tr.Transform):
    """ReLU of a Dense without activation -> Dense with relu."""

    def pattern(self):
      return P('ReLU', inputs=[P('Dense', config={'activation': 'linear'})])

    def replacement(self, node):
      d = node.input_layers[0]
      seen.append(('Fused', node.layer['config']['name'], [d.layer['config']['name']]))
      l = copy.deepcopy(d.layer)
      l['config'].update(name=node.layer['config']['name'] + '_fused', activation='relu')
      l['name'] = l['config']['name']
      return N(l, d.weights, [], {'fused': True}, names_and_weights=d.names_and_weights)

  class Cat(tr.Transform):
    """A Concatenate and whatever feeds it, renamed."""

    def pattern(self):
      return P('Concatenate', config={'name': '(?!.*_cat$).*'}, inputs=[P('Dense|ReLU|Add|Subtract|InputLayer'.replace('|', '$|^')), P('.*')])

    def replacement(self, node):
      seen.append(('Cat', node.layer['config']['name'], [i.layer['config']['name'] for i in node.input_layers]))
      l = copy.deepcopy(node.layer)
      l['config']['name'] = l['name'] = l['config']['name'] + '_cat'
      return N(l, node.weights, node.input_layers, {'cat': len(node.input_layers)})

  class Noted(tr.Transform):
    """Only the metadata of a batch normalisation changes."""

    def pattern(self):
      return P('BatchNormalization')

    def replacement(self, node):
      seen.append(('Noted', node.layer['config']['name'], []))
      node.metadata['noted'] = True
      return node

  return {'Renamed': Renamed, 'Split': Split, 'Fused': Fused, 'Cat': Cat, 'Noted': Noted}


@contract('Q06', [MT + ':ModelTransformer.%s' % f for f in (
    'transform', '_find_pattern', '_match_layer_with_inputs', '_match_layer', '_is_match_supported',
    '_replace_functional', '_replace_sequential', '_get_consuming_layers', '_get_output_consumers',
    '_get_inbound_layer_names', '_get_keras_layer_weights', '_set_layer_weights')], cases=300, deep=1500, mode='bounded',
          note='whole models: random graphs of up to 8 layers')
def transformed_models(c):
  """Function-preserving transforms keep the model's function; only matching candidates change; originals stay."""
  import numpy as np
  keras = _keras()
  rs = np.random.RandomState(c.int('seed', 0, 10 ** 6))
  toys = _toy_layers(keras)
  m = _toy_net(c, keras, toys, rs)
  seq = isinstance(m, keras.Sequential)
  seen = []
  T = _toy_transforms(keras, seen)
  which = c.choice('transforms', [['Renamed'], ['Split'], ['Fused'], ['Cat'], ['Noted'], ['Fused', 'Renamed'],
                                  ['Split', 'Renamed', 'Noted'], ['Cat', 'Fused'], ['Renamed', 'Cat', 'Noted'], []])
  ts = [T[k]() for k in which]
  for t in ts:
    t.custom_objects = lambda: dict(toys)
  names = [l.name for l in m.layers]
  cand = None
  if c.choice('candidates', ['all', 'some']) == 'some':
    cand = {n for k, n in enumerate(names) if c.bool('cand_%d' % k)}
    if not cand:
      raise Skip()
  meta = {n: {'note': k} for k, n in enumerate(names) if c.bool('meta_%d' % k)}
  xs = [rs.randn(3, 3).astype('f') for _ in m.inputs]
  arg = xs if len(xs) > 1 else xs[0]
  y0 = _outs(m(arg))
  w0 = [np.array(w) for w in m.get_weights()]
  meta0 = {k: dict(v) for k, v in meta.items()}
  cls = {l.name: type(l).__name__ for l in m.layers}
  wl = {l.name: l.get_weights() for l in m.layers}
  G = _Placement(m) if not seq else None
  cand0 = None if cand is None else set(cand)
  with keras.utils.custom_object_scope(toys):
    new, md = _mod(MT).ModelTransformer(m, ts, cand, meta).transform()
  c.prove('same_kind_of_model', isinstance(new, keras.Sequential) == seq)
  c.prove('same_function', _close(_outs(new(arg)), y0, 1e-5))
  c.prove('original_untouched', all(np.array_equal(a, b) for a, b in zip(m.get_weights(), w0)) and
          [l.name for l in m.layers] == names and meta == meta0 and _close(_outs(m(arg)), y0, 0))
  old = {l.name for l in m.layers}
  c.prove('new_model_shares_no_layer', not any(a is b for a in m.layers for b in new.layers))
  # every replacement started from candidates of the original or from new layers
  for k, head, inputs in seen:
    for n in [head] + inputs:
      c.prove('only_candidates_are_replaced', cand0 is None or n in cand0 or n not in old, info=n)
    if k == 'Fused' and G is not None and inputs[0] in old and head in old:
      c.prove('inner_layers_have_one_consumer', G.uses[inputs[0]] == 1)
    if k == 'Cat' and G is not None and head in old and all(i in old for i in inputs):
      c.prove('inputs_in_the_order_of_the_layer', inputs == [p.name for p in G.inp[head]], info='%s %s' % (
          inputs, [p.name for p in G.inp[head]]))
  left = {l.name: l for l in new.layers}
  # what had to be replaced
  gone = set()
  def single(l):
    return G is None or len(l._inbound_nodes) <= 1 or sum(  # pylint: disable=protected-access
        1 for ns in m._nodes_by_depth.values() for n in ns if n.layer is l) <= 1  # pylint: disable=protected-access
  may = lambda n: cand0 is None or n in cand0
  order = list(m.layers)
  before = lambda l: (order[order.index(l) - 1] if order.index(l) else None) if seq else (
      G.inp[l.name][0] if len(G.inp[l.name]) == 1 else None)
  for l in m.layers:
    k = cls[l.name]
    if not may(l.name) or not single(l):
      continue
    a = getattr(getattr(l, 'activation', None), '__name__', '')
    if k == 'Dense' and a == 'relu' and 'Split' in which:
      gone.add(l.name)
    if k == 'Dense' and a == 'linear' and 'Renamed' in which:
      gone.add(l.name)
    p = before(l)
    if (k == 'ReLU' and 'Fused' in which and p is not None and cls.get(p.name) == 'Dense' and may(p.name) and single(p) and
        p.activation.__name__ == 'linear' and (seq or G.uses[p.name] == 1)):
      gone |= {l.name, p.name}
  c.prove('every_match_is_replaced', not (gone & set(left)), info=sorted(gone & set(left)))
  if not (set(which) & {'Cat', 'Fused'}):
    for l in m.layers:
      if l.name not in gone and cls[l.name] != 'InputLayer':
        c.prove('other_layers_are_kept', l.name in left and type(left[l.name]).__name__ == cls[l.name] and all(
            np.array_equal(a, b) for a, b in zip(left[l.name].get_weights(), wl[l.name])), info=l.name)
  for n in left:
    if n in meta0 and not ('Noted' in which and cls.get(n) == 'BatchNormalization'):
      c.prove('metadata_of_kept_layers', md.get(n) == meta0[n], info=n)
    if n.endswith('_new'):
      c.prove('metadata_of_replacements', md.get(n, {}).get('renamed') is True)
    if n.endswith('_fused'):
      c.prove('metadata_of_replacements', md.get(n) == {'fused': True})
    if n.endswith(('_lin', '_relu')) and 'Renamed' not in which and 'Fused' not in which:
      c.prove('metadata_of_replacements', md.get(n) == {'half': 1 if n.endswith('_lin') else 2})
    if 'Noted' in which and cls.get(n) == 'BatchNormalization' and may(n) and single(m.get_layer(n)):
      c.prove('metadata_of_replacements', md.get(n) == dict(meta0.get(n, {}), noted=True))
  c.prove('no_metadata_of_removed_layers', set(md) <= set(left))


# --- quantize_annotate / quantize_apply -----------------------------------------------
def _mine(keras):
  """A config of the user: kernels with 5 bits, the output with 7, only once."""
  Base, Z = _mod(QC).QuantizeConfig, _mod(QZ)

  class Mine(Base):

    def _attr(self, layer):
      a = 'depthwise_kernel' if 'Depthwise' in type(layer).__name__ else 'kernel'
      return a if hasattr(layer, a) else None

    def get_weights_and_quantizers(self, layer):
      a = self._attr(layer)
      return [(getattr(layer, a), Z.LastValueQuantizer(5, False, True, True))] if a else []

    def get_activations_and_quantizers(self, layer):
      return []

    def set_quantize_weights(self, layer, quantize_weights):
      if quantize_weights:
        setattr(layer, self._attr(layer), quantize_weights[0])

    def set_quantize_activations(self, layer, quantize_activations):
      pass

    def get_output_quantizers(self, layer):
      return [Z.MovingAverageQuantizer(7, False, False, False)]

    def get_config(self):
      return {}

  return Mine


_APPLY = [QQ + ':' + f for f in ('quantize_apply', 'quantize_annotate_model', 'quantize_annotate_layer', 'quantize_model',
                                 'quantize_scope')]


@contract('Q07', _APPLY + [QW + ':QuantizeWrapperV2.build', 'quantization.keras.quantize_annotate:QuantizeAnnotate'],
          cases=30, deep=300, mode='bounded', note='whole models of sampled blocks, sampled annotations')
def annotated_models(c):
  """Exactly the annotated layers are quantised, with the config asked for; weights, function and originals stay."""
  import os
  import tempfile
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  rs = np.random.RandomState(c.int('seed', 0, 10 ** 6))
  nb = c.choice('n_bit', [False, True])
  m = _block_net(c, keras, rs)
  Q = _mod(QQ)
  Mine = _mine(keras)
  Ann = _mod('quantization.keras.quantize_annotate').QuantizeAnnotate
  layers = [l for l in m.layers if not isinstance(l, keras.layers.InputLayer)]
  how = c.choice('how', ['model', 'some', 'some', 'custom', 'custom_then_model'])
  sep = lambda l: 'Separable' in type(l).__name__
  own = {l.name for l in layers if 'custom' in how and not sep(l) and c.choice('own_' + type(l).__name__, [
      False, True, True]) and c.choice('own%d' % layers.index(l), [True, False])}
  ann = {l.name for l in layers if how in ('model', 'custom_then_model') or c.choice('ann%d' % layers.index(l), [
      True, True, False])} | own
  if how == 'some':
    ann -= {l.name for l in layers if sep(l)}     # splitting renames them, kept to the other cases
  if not ann:
    raise Skip()
  xs = [rs.randn(2, *i.shape[1:]).astype('f') for i in m.inputs]
  arg = xs if len(xs) > 1 else xs[0]
  y0 = _outs(m(arg))
  w0 = [np.array(w) for w in m.get_weights()]
  names = [l.name for l in m.layers]
  prefix = c.choice('prefix', ['quant_', 'abc_', '', None])
  P = _Placement(m, ann, own)
  with Q.quantize_scope({'Mine': Mine}):
    first = own if how == 'custom_then_model' else ann
    if how == 'model':
      a = Q.quantize_annotate_model(m)
    else:
      a = keras.models.clone_model(m, clone_function=lambda l: Q.quantize_annotate_layer(
          l, Mine() if l.name in own else None) if l.name in first else l.__class__.from_config(l.get_config()))
      a.set_weights(w0)
      if how == 'custom_then_model':
        a = Q.quantize_annotate_model(a)
    inner = lambda l: l.layer if isinstance(l, Ann) else l
    c.prove('annotations', {inner(l).name for l in a.layers if isinstance(l, Ann)} == ann and all(
        (type(l.quantize_config).__name__ == 'Mine') == (l.layer.name in own) and (
            l.layer.name in own or l.quantize_config is None) for l in a.layers if isinstance(l, Ann)))
    c.prove('annotating_keeps_the_function', how == 'model' or _close(_outs(a(arg)), y0, 1e-5))
    if how == 'model':
      a.set_weights(w0)
    wa = [np.array(w) for w in a.get_weights()]
    e, q = c.raises(lambda: Q.quantize_apply(a, _scheme(nb), quantized_layer_name_prefix=prefix))
  if not P.supported():
    c.prove('unsupported_layer_rejected', isinstance(e, RuntimeError), info=repr(e))
    return
  c.prove('accepted', e is None, info=repr(e))
  pre = prefix or ''
  with _NoFakeQuant():
    c.prove('same_function_underneath', _close(_outs(q(arg, training=False)), y0))
  n = _fake_quants(tf, q, xs)
  W = _mod(QW).QuantizeWrapper
  ql = {l.name: l for l in q.layers}
  for l in layers:
    if sep(l):
      continue
    ex = P.expected(l)
    wrapped = l.name in ann or l.name in P.feeds and P.kind(l) != 'BatchNormalization'
    nm = (pre if wrapped else '') + l.name
    c.prove('exactly_the_annotated_layers_are_wrapped', nm in ql and isinstance(ql[nm], W) == wrapped, info=nm)
    c.prove('quantised_as_annotated', n.get(nm, 0) in ex, info='%s %s %s' % (nm, n, ex))
    c.prove('given_config_is_used', (wrapped and type(ql[nm].quantize_config).__name__ == 'Mine') == (l.name in own))
    if not wrapped:
      c.prove('other_layers_have_the_same_weights', all(np.array_equal(p, r) for p, r in zip(
          ql[nm].get_weights(), l.get_weights())))
  c.prove('originals_untouched', [l.name for l in m.layers] == names and all(
      np.array_equal(p, r) for p, r in zip(m.get_weights(), w0)) and all(np.array_equal(
          p, r) for p, r in zip(a.get_weights(), wa)) and _close(_outs(m(arg)), y0, 0))
  yq = _outs(q(arg, training=False))
  for v in q.trainable_variables:
    v.assign(v + 1.)
  c.prove('weights_are_copies', all(np.array_equal(p, r) for p, r in zip(m.get_weights(), w0)) and all(
      np.array_equal(p, r) for p, r in zip(a.get_weights(), wa)))
  for v in q.trainable_variables:
    v.assign(v - 1.)
  into = [l for l in layers if l.name in own and P.only_feeds(l) is not None and P.concat_rule(P.only_feeds(l))]
  # KNOWN FINDING, see own_config_before_concatenate
  if not into and c.choice('save', [False, True]):
    for _ in range(2):
      q(arg, training=True)
    yq = _outs(q(arg, training=False))
    with tempfile.TemporaryDirectory() as d:
      f = os.path.join(d, 'm.h5')
      q.save(f)
      with Q.quantize_scope({'Mine': Mine}):
        e, r = c.raises(lambda: keras.models.load_model(f))
    c.prove('saved_model_loads', e is None, info=repr(e))
    c.prove('loaded_model_computes_the_same', _close(_outs(r(arg, training=False)), yq, 1e-5))


@contract('Q07', _APPLY + _both(['ConcatTransform']), cases=4, deep=8, mode='bounded', note='one model')
def own_config_before_concatenate(c):
  """A saved model is loaded with the same quantizers, also where the layout removed one of the user's."""
  import os
  import tempfile
  import numpy as np
  keras = _keras()
  L, Q = keras.layers, _mod(QQ)
  Mine = _mine(keras)
  nb = c.choice('n_bit', [False, True])
  x = keras.Input((5, 5, 2))
  own = c.choice('own', ['relu', 'conv'])
  a = Q.quantize_annotate_layer(L.ReLU() if own == 'relu' else L.Conv2D(2, 1, padding='same'), Mine())(x)
  b = Q.quantize_annotate_layer(L.Conv2D(2, 1))(x)
  m = keras.Model(x, Q.quantize_annotate_layer(L.Concatenate())([a, b]))
  v = np.random.RandomState(0).randn(2, 5, 5, 2).astype('f')
  with Q.quantize_scope({'Mine': Mine}), tempfile.TemporaryDirectory() as d:
    q = Q.quantize_apply(m, _scheme(nb))
    q(v, training=True)
    f = os.path.join(d, 'm.h5')
    q.save(f)
    e, r = c.raises(lambda: keras.models.load_model(f))
    c.prove('loads_with_the_same_quantizers', e is None and np.allclose(r(v), q(v), atol=1e-5), info=repr(e))


@contract('Q07', _APPLY, cases=40, deep=80, mode='bounded', note='fixed list of wrong arguments')
def wrong_arguments(c):
  """What cannot be quantised is rejected with an error."""
  keras = _keras()
  L = keras.layers
  Q = _mod(QQ)

  class Sub(keras.Model):

    def call(self, x):
      return x

  class Strange(L.Layer):

    def call(self, x):
      return x * 2

  dense = lambda: L.Dense(2, input_shape=(3,))
  nested = keras.Sequential([keras.Sequential([dense()]), L.Dense(2)])
  nested.build((None, 3))
  cases = {
      'quantize_model(None)': (lambda: Q.quantize_model(None), ValueError),
      'quantize_model(subclassed)': (lambda: Q.quantize_model(Sub()), ValueError),
      'quantize_model(layer)': (lambda: Q.quantize_model(dense()), ValueError),
      'quantize_model(nested)': (lambda: Q.quantize_model(nested), ValueError),
      'annotate_model(None)': (lambda: Q.quantize_annotate_model(None), ValueError),
      'annotate_model(layer)': (lambda: Q.quantize_annotate_model(dense()), ValueError),
      'annotate_model(subclassed)': (lambda: Q.quantize_annotate_model(Sub()), ValueError),
      'annotate_layer(None)': (lambda: Q.quantize_annotate_layer(None), ValueError),
      'annotate_layer(model)': (lambda: Q.quantize_annotate_layer(keras.Sequential([dense()])), ValueError),
      'annotate_layer(number)': (lambda: Q.quantize_annotate_layer(3), ValueError),
      'annotate_layer(wrong config)': (lambda: Q.quantize_annotate_layer(dense(), {'a': 1}), ValueError),
      'apply(None)': (lambda: Q.quantize_apply(None), ValueError),
      'apply(layer)': (lambda: Q.quantize_apply(dense()), ValueError),
      'apply(subclassed)': (lambda: Q.quantize_apply(Sub()), ValueError),
      'apply(not annotated)': (lambda: Q.quantize_apply(keras.Sequential([dense()])), ValueError),
      'apply(not built)': (lambda: Q.quantize_apply(keras.Sequential([Q.quantize_annotate_layer(L.Dense(2))])), ValueError),
      'apply(unsupported layer)': (lambda: Q.quantize_apply(Q.quantize_annotate_model(
          keras.Sequential([dense(), L.PReLU()]))), RuntimeError),
      'apply(custom layer)': (lambda: _in_scope(Q, {'Strange': Strange}, lambda: Q.quantize_apply(
          Q.quantize_annotate_model(keras.Sequential([dense(), Strange()])))), RuntimeError),
      'apply(custom layer out of scope)': (lambda: Q.quantize_apply(Q.quantize_annotate_model(
          keras.Sequential([dense(), Strange()]))), (ValueError, RuntimeError)),
  }
  k = c.choice('case', sorted(cases))
  f, err = cases[k]
  e, _ = c.raises(f)
  c.prove('rejected', isinstance(e, err), info='%s %r' % (k, e))
  own = _own()
  w = Q.quantize_annotate_layer(dense(), own)
  c.prove('config_is_kept', w.quantize_config is own)


def _in_scope(Q, objs, f):
  with Q.quantize_scope(objs):
    return f()


# --- fixed ranges ---------------------------------------------------------------------
@contract('Q08', [QQ + ':' + f for f in ('fix_input_output_range', 'remove_input_range', '_nested_to_flatten_node_data_list',
                                         '_unwrap_first_input_name', '_wrap_fixed_range')] + [
                                             QC + ':FixedQuantizeConfig'], cases=45, deep=250, mode='bounded',
          note='whole models of sampled blocks')
def fixed_ranges(c):
  """Inputs and outputs use the given ranges (or inputs none), everything else is quantised as before."""
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  L = keras.layers
  rs = np.random.RandomState(c.int('seed', 0, 10 ** 6))
  nb = c.choice('n_bit', [False, True])
  if c.choice('sequential', [False, False, True]):
    m = keras.Sequential([L.Conv2D(2, 2, input_shape=(5, 5, 2), activation=c.choice('act', ['relu', None])), L.Flatten(),
                          L.Dense(3, activation=c.choice('last', [None, 'softmax', 'relu', 'tanh']))] +
                         c.choice('end', [[], [], [L.ReLU()], [L.Dropout(.1)]]))
    _rand(rs, m)
  else:
    m = _block_net(c, keras, rs)
  P = _Placement(m)
  if not P.supported():
    raise Skip()
  Q = _mod(QQ)
  bits, nar = c.choice('bits', [8, 4, 3]), c.choice('narrow', [False, True])
  ir = c.choice('input_range', [(0., 1.), (-1., 3.), (-2., 2.)])
  orr = c.choice('output_range', [(0., 1.), (-3., 1.), (0., 6.)])
  xs = [(4 * rs.randn(3, *i.shape[1:])).astype('f') for i in m.inputs]
  arg = xs if len(xs) > 1 else xs[0]
  with Q.quantize_scope():
    q = Q.quantize_apply(Q.quantize_annotate_model(m), _scheme(nb))
    f = Q.fix_input_output_range(q, bits, ir[0], ir[1], orr[0], orr[1], nar)
    r = Q.remove_input_range(q)
  short = lambda v: v.name.split('/')[-1]
  def copy(to):
    for l in to.layers:
      src = {short(v): v for v in q.get_layer(l.name).weights}
      for v in l.weights:
        if short(v) in src and v.shape == src[short(v)].shape:
          v.assign(src[short(v)])
  copy(f)
  copy(r)
  c.prove('same_layers', [l.name for l in f.layers] == [l.name for l in q.layers] == [l.name for l in r.layers])
  QLay, Z = _mod(QL).QuantizeLayer, _mod(QZ)
  ins = [l.name for l in q.layers if isinstance(l, QLay)]
  c.prove('inputs', len(ins) == len(m.inputs))
  for k in ins:
    z = f.get_layer(k).quantizer
    c.prove('fixed_input_quantizer', isinstance(z, Z.FixedQuantizer) and (z.num_bits, z.init_min, z.init_max, bool(
        z.narrow_range)) == (bits, ir[0], ir[1], nar))
    c.prove('no_input_quantizer', isinstance(r.get_layer(k).quantizer, Z.NoQuantizer))
  fq = lambda x, rng: tf.quantization.fake_quant_with_min_max_vars(x, rng[0], rng[1], bits, nar).numpy()
  ya = _outs(f(arg, training=False))
  xq = [fq(x, ir) for x in xs]
  c.prove('inputs_are_quantised_with_the_range', _close(_outs(f(xq if len(xq) > 1 else xq[0], training=False)), ya, 1e-4))
  nq, nf, nr = (_fake_quants(tf, z, xs) for z in (q, f, r))
  outs = [o._keras_history.layer.name for o in q.outputs]  # pylint: disable=protected-access
  for t, o in zip(ya, outs):
    l = q.get_layer(o)
    act = getattr(getattr(l, 'layer', None), 'activation', None)
    act = getattr(getattr(act, 'activation', act), '__name__', None)
    # softmax, sigmoid and tanh are quantised before, not after (QuantizeAwareActivation)
    if act not in ('softmax', 'tanh', 'sigmoid') and getattr(l, 'quantize_config', None) is not None and (
        l.quantize_config.get_output_quantizers(l.layer) or l.quantize_config.get_activations_and_quantizers(l.layer)):
      c.prove('outputs_are_quantised_with_the_range', np.allclose(fq(t, orr), t, atol=1e-5), info=o)
  for l in q.layers:
    k = l.name
    if k in ins:
      c.prove('input_quantised_once', nf.get(k, 0) == 1 and nr.get(k, 0) == 0, info='%s %s %s' % (k, nf, nr))
      continue
    c.prove('input_range_removal_touches_nothing_else', nr.get(k, 0) == nq.get(k, 0), info=k)
    if k not in outs:
      c.prove('inner_layers_keep_their_quantisation', nf.get(k, 0) == nq.get(k, 0), info=k)
  # with the input quantisation taken out of the original, both compute the same
  for k in ins:
    q.get_layer(k).quantizer = None
  c.prove('function_without_the_input_quantisation', _close(_outs(r(arg, training=False)), _outs(q(arg, training=False)), 1e-4))


class _RecordedModels:
  """keras.Model and Sequential build what a configuration says: their from_config is replaced by a recorder."""

  def __enter__(self):
    keras = _keras()
    self.built = []
    self.old = []
    for k in (keras.Model, keras.Sequential):
      own = k.__dict__.get('from_config')
      self.old.append((k, own))

      def rec(cfg, custom_objects=None, k=k):
        r = object()
        self.built.append((k.__name__, cfg, r))
        return r

      k.from_config = staticmethod(rec)
    return self

  def __exit__(self, *a):
    for k, own in self.old:
      if own is None:
        del k.from_config
      else:
        k.from_config = own


def _described(cfg, sequential=False, graph=True):
  """A model known only by its configuration."""
  import copy
  keras = _keras()
  cls = type('Described', (keras.Sequential if sequential else keras.Model,), {
      'get_config': lambda s: copy.deepcopy(cfg), '_is_graph_network': graph})
  return object.__new__(cls)


_RANGE_GRAPHS = {
    # name: (inputs, outputs, [(layer, quantised, [names of the layers it reads])])
    'chain': (['a'], ['d'], [('a', 0, []), ('q', 1, ['a']), ('c', 2, ['q']), ('d', 2, ['c'])]),
    'plain_output': (['a'], ['d'], [('a', 0, []), ('q', 1, ['a']), ('c', 2, ['q']), ('d', 0, ['c'])]),
    'inner_output': (['a'], ['c', 'd'], [('a', 0, []), ('q', 1, ['a']), ('c', 2, ['q']), ('d', 2, ['c'])]),
    'two_inputs': (['a', 'b'], ['d'], [('a', 0, []), ('b', 0, []), ('q', 1, ['a']), ('r', 1, ['b']), ('c', 2, ['q']),
                                       ('d', 2, ['c', 'r'])]),
    'two_of_each': (['a', 'b'], ['d', 'e', 'f'], [('b', 0, []), ('a', 0, []), ('r', 1, ['b']), ('q', 1, ['a']), (
        'c', 2, ['q', 'r']), ('e', 2, ['c']), ('d', 2, ['c']), ('f', 0, ['c', 'e'])]),
    'output_twice': (['a'], ['d', 'd'], [('a', 0, []), ('q', 1, ['a']), ('c', 2, ['q']), ('d', 2, ['c'])]),
    'shared': (['a', 'b'], ['d'], [('a', 0, []), ('b', 0, []), ('q', 1, ['a', 'b']), ('c', 2, ['q']), ('d', 2, ['c'])]),
}


def _range_config(graph, form):
  ins, outs, layers = _RANGE_GRAPHS[graph]
  ser = lambda q: _mod(UT).serialize_keras_object(q)
  Z = _mod(QZ)
  out = []
  for n, kind, reads in layers:
    cfg = {'name': n, 'trainable': True}
    if kind == 1:
      cfg['quantizer'] = ser(Z.AllValuesQuantizer(8, False, False, False))
    if kind == 2:
      cfg['quantize_config'] = ser(_mod(C8).Default8BitOutputQuantizeConfig() if n in 'ce' else _mod(
          R8).Default8BitQuantizeConfig(['kernel'], ['activation'], n == 'd'))
    # a layer used more than once has one entry per use
    nodes = [[[r, 0, 0, {}]] for r in reads] if graph == 'shared' else [[[r, 0, 0, {}] for r in reads]] if reads else []
    out.append({'class_name': 'QuantizeLayer' if kind == 1 else 'QuantizeWrapperV2' if kind == 2 else 'Other',
                'name': n, 'config': cfg, 'inbound_nodes': nodes})
  ref = lambda names: [[n, 0, 0] for n in names]
  wrap = {'list': ref, 'single': lambda names: ref(names)[0] if len(names) == 1 else ref(names),
          'dict': lambda names: {'k%d' % k: v for k, v in enumerate(ref(names))},
          'nested': lambda names: [ref(names)[0], {'rest': ref(names)[1:]}]}[form]
  return {'name': 'm', 'layers': out, 'input_layers': wrap(ins), 'output_layers': wrap(outs)}


def _is_fixed(z, bits, lo, hi, nar):
  if not isinstance(z, _mod(QZ).FixedQuantizer):
    return False
  return And(eq(val(z.num_bits), val(bits)), eq(val(z.init_min), val(lo)), eq(val(z.init_max), val(hi)), z.narrow_range is nar)


def _range_inputs(c):
  hi = None if c.symbolic else 16
  bits, nar = c.int('bits', 2, hi), c.choice('narrow', [False, True])
  return bits, c.real('input_min'), c.real('input_max'), c.real('output_min'), c.real('output_max'), nar


@contract('Q08', [QQ + ':' + f for f in ('fix_input_output_range', 'remove_input_range', '_nested_to_flatten_node_data_list',
                                         '_unwrap_first_input_name', '_wrap_fixed_range', '_is_functional_model',
                                         '_is_serialized_node_data')] + [QC + ':FixedQuantizeConfig.from_config'],
          cases=60, deep=300, opts={'max_paths': 400, 'finite': True},
          note='all ranges, bit widths; the connections of the model are one of 7 functional graphs x 4 nestings, or a '
               'sequence. Assumed: keras.Model / Sequential .from_config builds the model its argument describes')
def ranges_in_the_configuration(c):
  """Exactly the input quantizers and the output configs of the rebuilt model are replaced, with the ranges given."""
  import copy
  Q, Z, QCm = _mod(QQ), _mod(QZ), _mod(QC)
  de = _mod(UT).deserialize_keras_object
  bits, i0, i1, o0, o1, nar = _range_inputs(c)
  seq = c.choice('sequential', [False, True])
  if seq:
    cfg = _range_config('chain', 'list')
    if c.choice('plain_end', [False, True]):
      del cfg['layers'][-1]['config']['quantize_config']
    m = _described({'name': 'm', 'layers': cfg['layers']}, True)
    ins, outs, at = ['q'], ['d'], cfg['layers']
    before = {'name': 'm', 'layers': at}
  else:
    g = c.choice('graph', sorted(_RANGE_GRAPHS))
    before = _range_config(g, c.choice('nesting', ['list', 'single', 'dict', 'nested']))
    m = _described(before)
    first = _RANGE_GRAPHS[g][0]
    ins = [l for l, k, r in _RANGE_GRAPHS[g][2] if k == 1 and set(r) & set(first)]
    outs = _RANGE_GRAPHS[g][1]
  before = copy.deepcopy(before)
  remove = c.choice('remove', [False, True])
  with Q.quantize_scope(), _RecordedModels() as R:
    if remove:
      res = Q.remove_input_range(m)
    else:
      res = Q.fix_input_output_range(m, bits, i0, i1, o0, o1, nar)
    c.prove('one_model_is_built', len(R.built) == 1 and R.built[0][2] is res and R.built[0][0] == (
        'Sequential' if seq else 'Model'))
    cfg = R.built[0][1]
    c.prove('same_layers', [l['config']['name'] for l in cfg['layers']] == [l['config']['name'] for l in before['layers']])
    c.prove('same_inputs_outputs', all(cfg[k] == before[k] for k in before if k != 'layers') and set(cfg) == set(before))
    for l, b in zip(cfg['layers'], before['layers']):
      n = b['config']['name']
      c.prove('same_class_and_connections', set(l) == set(b) and all(l[k] == b[k] for k in b if k != 'config') and set(
          l['config']) == set(b['config']))
      for k in b['config']:
        new, old = l['config'][k], b['config'][k]
        if k == 'quantizer' and n in ins:
          z = de(new)
          c.prove('input_quantizer', isinstance(z, Z.NoQuantizer) if remove else _is_fixed(z, bits, i0, i1, nar))
        elif k == 'quantize_config' and n in outs and not remove:
          z = de(new)
          c.prove('output_config_fixed', isinstance(z, QCm.FixedQuantizeConfig))
          c.prove('output_range', And(_is_fixed(z.fixed_quantizer, bits, o0, o1, nar), eq(val(z.num_bits), val(bits)), eq(
              val(z.init_min), val(o0)), eq(val(z.init_max), val(o1)), z.narrow_range is nar))
          inner = de(old)
          c.prove('rest_of_the_output_config_kept', type(z.config) is type(inner) and z.config.__dict__.keys() == (
              inner.__dict__.keys()) and z.config.get_config() == inner.get_config())
        else:
          c.prove('everything_else_unchanged', new == old, info='%s %s' % (n, k))
    c.prove('model_itself_unchanged', m.get_config() == before)


@contract('Q08', [QQ + ':fix_input_output_range', QQ + ':remove_input_range'], cases=8, deep=8, opts={'finite': True},
          note='the sequence is one of two')
def ranges_of_unquantised_sequences(c):
  """A sequential model without an input quantizer is rejected, and nothing is built."""
  bits, i0, i1, o0, o1, nar = _range_inputs(c)
  cfg = _range_config('chain', 'list')
  del cfg['layers'][1]
  how = c.choice('how', ['dense_first', 'quantizer_later'])
  if how == 'quantizer_later':
    cfg['layers'].insert(2, _range_config('chain', 'list')['layers'][1])
  m = _described({'name': 'm', 'layers': cfg['layers']}, True)
  Q = _mod(QQ)
  with Q.quantize_scope(), _RecordedModels() as R:
    if c.choice('remove', [False, True]):
      e, _ = c.raises(Q.remove_input_range, m)
    else:
      e, _ = c.raises(Q.fix_input_output_range, m, bits, i0, i1, o0, o1, nar)
  c.prove('rejected', isinstance(e, ValueError) and not R.built)


@contract('Q08', [QC + ':FixedQuantizeConfig.' + f for f in (
    '__init__', 'get_weights_and_quantizers', 'set_quantize_weights', 'get_activations_and_quantizers',
    'set_quantize_activations', 'get_output_quantizers', 'get_config', 'from_config')] + [
        QZ + ':FixedQuantizer.get_config', QZ + ':FixedQuantizer.__call__', 'quantization.keras.quant_ops:FixedQuantize'],
          cases=60, deep=300, note='the wrapped config returns up to 3 weights, activations and outputs')
def fixed_config(c):
  """Weights as the wrapped config says; every activation and output gets the one fixed range; survives its config."""
  from contracts.quantization import fq, _same as same
  bits, lo, hi, nar = c.choice('bits', [8, 4, 3]), c.real('lo', -9, 0), c.real('hi', 0, 9, lo_strict=True), c.choice(
      'narrow', [False, True])
  F = _mod(QC).FixedQuantizeConfig
  nw, na, no = (c.choice(k, [0, 1, 2, 3]) for k in ('weights', 'activations', 'outputs'))
  layer, seen = object(), []
  ws, acts = [(object(), object()) for _ in range(nw)], [(object(), object()) for _ in range(na)]

  class Inner:

    def get_weights_and_quantizers(self, l):
      seen.append(l)
      return list(ws)

    def get_activations_and_quantizers(self, l):
      seen.append(l)
      return list(acts)

    def get_output_quantizers(self, l):
      seen.append(l)
      return [object() for _ in range(no)]

    def set_quantize_weights(self, l, w):
      seen.append((l, w))

    def set_quantize_activations(self, l, a):
      seen.append((l, a))

  inner = Inner()
  f = F(inner, bits, lo, hi, nar)
  c.prove('weights_as_before', list(f.get_weights_and_quantizers(layer)) == ws)
  a = f.get_activations_and_quantizers(layer)
  c.prove('same_activations', len(a) == na and all(p[0] is q[0] for p, q in zip(a, acts)))
  o = f.get_output_quantizers(layer)
  c.prove('same_number_of_outputs', len(o) == no)
  for z in [q for _, q in a] + list(o):
    c.prove('fixed_range', _is_fixed(z, bits, lo, hi, nar))
  w, v = object(), object()
  c.prove('asked_about_this_layer', all(l is layer for l in seen))
  del seen[:]
  f.set_quantize_weights(layer, w)
  f.set_quantize_activations(layer, v)
  c.prove('setting_goes_to_the_wrapped_config', len(seen) == 2 and seen[0][0] is layer and seen[0][1] is w and
          seen[1][0] is layer and seen[1][1] is v)
  shape = [c.dim('d0', 1, 3), c.dim('d1', 1, 3)]
  x = c.tensor('x', shape)
  y = f.fixed_quantizer(x, c.choice('training', [False, True]), {})
  c.prove('values_are_those_of_the_op', same(c, y, fq(c, x, lo, hi, bits, nar)))


@contract('Q08', [QC + ':FixedQuantizeConfig.get_config', QC + ':FixedQuantizeConfig.from_config',
                  QQ + ':_wrap_fixed_range', QZ + ':FixedQuantizer.get_config'], cases=40, deep=200,
          note='the wrapped config is one of four')
def fixed_config_round_trip(c):
  """A FixedQuantizeConfig read back has the same range, bits and wrapped config, and its source is not consumed."""
  hi = None if c.symbolic else 16
  bits, nar = c.int('bits', 2, hi), c.choice('narrow', [False, True])
  i0, i1 = c.real('lo'), c.real('hi')
  C = _mod(C8)
  k = c.choice('inner', ['out', 'dense', 'act', 'noop'])
  inner = {'out': lambda: C.Default8BitOutputQuantizeConfig(), 'noop': lambda: C.NoOpQuantizeConfig(),
           'dense': lambda: _mod(R8).Default8BitQuantizeConfig(['kernel'], ['activation'], False),
           'act': lambda: _mod(R8).Default8BitQuantizeConfig([], ['activation'], True)}[k]()
  F, Q, UTm = _mod(QC).FixedQuantizeConfig, _mod(QQ), _mod(UT)
  f = F(inner, bits, i0, i1, nar)
  with Q.quantize_scope():
    cfg = f.get_config()
    keys = dict(cfg)
    via = c.choice('via', ['config', 'serialised', 'wrap'])
    if via == 'config':
      g = F.from_config(cfg)
      c.prove('config_not_consumed', set(cfg) == set(keys) and all(cfg[a] is keys[a] for a in keys))
    elif via == 'serialised':
      g = UTm.deserialize_keras_object(UTm.serialize_keras_object(f))
    else:
      g = UTm.deserialize_keras_object(Q._wrap_fixed_range(UTm.serialize_keras_object(inner), bits, i0, i1, nar))
    c.prove('class_kept', type(g) is F)
    # the n-bit scheme has a NoOpQuantizeConfig of its own
    c.prove('wrapped_config_kept', type(g.config).__name__ == type(inner).__name__ and g.config.get_config() == inner.get_config())
    c.prove('range_kept', And(_is_fixed(g.fixed_quantizer, bits, i0, i1, nar), eq(val(g.num_bits), val(bits)), eq(
        val(g.init_min), val(i0)), eq(val(g.init_max), val(i1)), g.narrow_range is nar))
    z = UTm.deserialize_keras_object(UTm.serialize_keras_object(f.fixed_quantizer))
    c.prove('quantizer_round_trip', _is_fixed(z, bits, i0, i1, nar))


# --- annotations and quantize_apply for any scheme ------------------------------------
QAN = 'quantization.keras.quantize_annotate'


def _tagged():
  """Configs told apart by a tag."""
  Base = _mod(QC).QuantizeConfig

  class Tagged(Base):

    def __init__(self, tag):
      self.tag = tag

    def get_weights_and_quantizers(self, layer):
      return []

    def get_activations_and_quantizers(self, layer):
      return []

    def set_quantize_weights(self, layer, quantize_weights):
      pass

    def set_quantize_activations(self, layer, quantize_activations):
      pass

    def get_output_quantizers(self, layer):
      return []

    def get_config(self):
      return {'tag': self.tag}

  return Tagged


@contract('Q07', [QAN + ':QuantizeAnnotate.call'], cases=30, deep=60)
def annotation_passes_calls_through(c):
  """An annotated layer computes what the layer computes, with the same arguments and the training flag it takes."""
  from contracts.clustering import _Obj, _SpyTraining, _SpyPlain
  takes = c.choice('layer_takes_training', [True, False])
  given = c.choice('training_given', [True, False])
  tr = c.choice('training', [True, False, None])
  kw = c.choice('arguments', [{}, {'mask': 'M'}, {'initial_state': 'S', 'mask': 'M'}])
  layer = (_SpyTraining if takes else _SpyPlain)({'updates': 0})
  st = _Obj(_mod(QAN).QuantizeAnnotate, layer=layer)
  x = object()
  y = st.call(x, **dict(kw, training=tr) if given else dict(kw))
  c.prove('output_of_the_layer', y[0] == 'out' and y[1] is x and len(layer.seen) == 1)
  t, k, _ = layer.seen[0]
  c.prove('training_flag_as_taken', (t is (tr if given else None)) if takes else t == 'not passed')
  c.prove('other_arguments_forwarded', k == kw)


@contract('Q07', [QQ + ':quantize_annotate_layer', QAN + ':QuantizeAnnotate.' + '__init__', QAN + ':QuantizeAnnotate.get_config',
                  QAN + ':QuantizeAnnotate.from_config'], cases=40, deep=200,
          note='the layer is a real Keras layer of one of four classes')
def annotation_keeps_layer_and_config(c):
  """The annotation holds this layer and this config; read back from its configuration both are the same."""
  keras = _keras()
  L, Q, A = keras.layers, _mod(QQ), _mod(QAN).QuantizeAnnotate
  layer = c.choice('layer', ['dense', 'conv', 'lstm', 'relu'])
  layer = {'dense': lambda: L.Dense(3, activation='relu', name='n'), 'conv': lambda: L.Conv2D(2, 3, input_shape=(5, 5, 1)),
           'lstm': lambda: L.LSTM(2), 'relu': lambda: L.ReLU(4.)}[layer]()
  Tagged = _tagged()
  tag = c.real('tag')
  k = c.choice('config', ['none', 'own', 'fixed', 'default'])
  bits, i0, i1, o0, o1, nar = _range_inputs(c)
  with Q.quantize_scope({'Tagged': Tagged}):
    own = {'none': lambda: None, 'own': lambda: Tagged(tag), 'default': lambda: _mod(R8).Default8BitQuantizeConfig(
        ['kernel'], ['activation'], False), 'fixed': lambda: _mod(QC).FixedQuantizeConfig(
            Tagged(tag), bits, o0, o1, nar)}[k]()
    a = Q.quantize_annotate_layer(layer, own) if own is not None or c.choice('explicit', [0, 1]) else (
        Q.quantize_annotate_layer(layer))
    c.prove('this_layer_and_config', type(a) is A and a.layer is layer and a.quantize_config is own)
    if hasattr(layer, '_batch_input_shape'):
      c.prove('input_shape_of_the_layer', a._batch_input_shape == layer._batch_input_shape)  # pylint: disable=protected-access
    cfg = a.get_config()
    keys = dict(cfg)
    b = A.from_config(cfg)
    c.prove('configuration_not_consumed', set(cfg) == set(keys) and all(cfg[n] is keys[n] for n in keys))
    c.prove('same_layer', type(b) is A and type(b.layer) is type(layer) and b.layer.get_config() == layer.get_config() and (
        b.name == a.name))
    d = b.quantize_config
    c.prove('same_config_class', type(d) is type(own))
    if k == 'own':
      c.prove('same_config', eq(val(d.tag), val(tag)))
    elif k == 'fixed':
      c.prove('same_config', And(type(d.config) is Tagged, eq(val(d.config.tag), val(tag)), _is_fixed(
          d.fixed_quantizer, bits, o0, o1, nar)))
    elif k == 'default':
      c.prove('same_config', d.get_config() == own.get_config())
  for bad in (None, keras.Sequential([L.Dense(2)]), 3):
    e, _ = c.raises(Q.quantize_annotate_layer, bad)
    c.prove('only_layers', isinstance(e, ValueError))
  e, _ = c.raises(Q.quantize_annotate_layer, layer, c.choice('wrong_config', [{}, 'own', Tagged]))
  c.prove('only_configs', isinstance(e, ValueError))


@contract('Q07', [QQ + ':quantize_apply', QW + ':QuantizeWrapper.__init__', QC + ':OutputOnlyConfig'], cases=20, deep=60,
          opts={'max_paths': 1500, 'budget': 300, 'finite': True},
          note='real Keras models of three layers (a chain, a fork, a sequence); any annotations, any scheme: every answer of '
               'the registry, and a layout transform that may replace the config of a layer')
def apply_any_scheme(c):
  """Exactly the annotated layers are wrapped, with their own config, that of the layout or that of the registry."""
  import numpy as np
  keras = _keras()
  L, Q = keras.layers, _mod(QQ)
  Ann, W, Out = _mod(QAN).QuantizeAnnotate, _mod(QW).QuantizeWrapper, _mod(QC).OutputOnlyConfig
  Tagged = _tagged()
  graph = c.choice('graph', ['chain', 'fork', 'sequence'])
  names = ['p', 'q', 'r']
  kind = {n: c.choice(n, ['plain', 'annotated', 'own']) for n in names}
  if all(k == 'plain' for k in kind.values()):
    raise Skip()
  reads = {'q': 'p', 'r': 'p' if graph == 'fork' else 'q'}

  def mk(n):
    l = L.Dense(2, name=n)
    return l if kind[n] == 'plain' else Q.quantize_annotate_layer(l, Tagged('own ' + n) if kind[n] == 'own' else None)

  if graph == 'sequence':
    m = keras.Sequential([L.InputLayer((3,))] + [mk(n) for n in names])
  else:
    i = keras.Input((3,))
    t = {'p': mk('p')(i)}
    for n in 'qr':
      t[n] = mk(n)(t[reads[n]])
    m = keras.Model(i, t['r'] if graph == 'chain' else [t['q'], t['r']])
  rs = np.random.RandomState(0)
  m.set_weights([rs.randn(*w.shape).astype('f') for w in m.get_weights()])
  w0, layers0 = m.get_weights(), list(m.layers)
  answers, asked, seen = {}, [], []

  class Registry:

    def supports(self, layer):
      if layer.name not in answers:
        answers[layer.name] = c.choice('supports_' + layer.name, [True, False])
      return answers[layer.name]

    def get_quantize_config(self, layer):
      asked.append((layer.name, type(layer)))
      return Tagged('registry ' + layer.name)

  class Layout:

    def apply(self, model, layer_map):
      seen.append((model, {k: dict(v) for k, v in layer_map.items()}))
      for n in names:
        if kind[n] == 'annotated' and n == 'q' and c.choice('layout_sets', [False, True]):
          layer_map = dict(layer_map, **{n: {'quantize_config': Tagged('layout ' + n)}})
          kind[n] = 'layout'
      return model, layer_map

  class Scheme:

    def get_layout_transformer(self):
      return Layout()

    def get_quantize_registry(self):
      return Registry()

  prefix = c.choice('prefix', ['quant_', '', None]) if graph == 'chain' else 'abc_'
  with Q.quantize_scope({'Tagged': Tagged}):
    e, r = c.raises(Q.quantize_apply, m, Scheme(), quantized_layer_name_prefix=prefix)
  annotated = [n for n in names if kind[n] != 'plain']
  feeds = {reads[n] for n in annotated if n in reads} - set(annotated)
  c.prove('layout_sees_the_plain_model_once', len(seen) == 1 and not any(isinstance(l, Ann) for l in seen[0][0].layers) and
          [l.name for l in seen[0][0].layers if l.name in names] == names)
  info = seen[0][1]
  c.prove('layout_sees_the_annotations', {n for n in info if n in names} == set(annotated) and all(
      (info[n]['quantize_config'].tag == 'own ' + n) if kind[n] == 'own' else info[n]['quantize_config'] is None
      for n in annotated))
  c.prove('originals_untouched', len(m.layers) == len(layers0) and all(a is b for a, b in zip(m.layers, layers0)) and all(
      np.array_equal(a, b) for a, b in zip(m.get_weights(), w0)))
  if any(kind[n] == 'annotated' and not answers.get(n) for n in names):
    c.prove('unsupported_layer_is_an_error', isinstance(e, RuntimeError))
    return
  c.prove('accepted', e is None, info=repr(e))
  inner = {}
  for l in r.layers:
    if isinstance(l, W):
      inner[l.layer.name] = l
    elif l.name in names:
      inner[l.name] = l
  c.prove('same_layers', sorted(inner) == names)
  for n, l in sorted(inner.items()):
    k = kind[n]
    if k == 'plain' and not (n in feeds and answers.get(n)):
      c.prove('other_layers_are_not_wrapped', type(l) is L.Dense)
      base = l
    else:
      c.prove('annotated_layers_are_wrapped', isinstance(l, W) and l.name == (prefix or '') + n)
      q = l.quantize_config
      if k == 'plain':
        c.prove('only_the_output_of_a_feeding_layer', type(q) is Out and q.quantize_config.tag == 'registry ' + n)
      else:
        c.prove('config', type(q) is Tagged and q.tag == '%s %s' % ('registry' if k == 'annotated' else k, n))
      base = l.layer
    c.prove('same_layer', type(base) is L.Dense and base.get_config() == {
        x.name: x for x in (y.layer if isinstance(y, Ann) else y for y in layers0)}[n].get_config())
    old = [y for y in layers0 if n == (y.layer.name if isinstance(y, Ann) else y.name)][0].get_weights()
    new = {v.name.split('/')[-1]: v.numpy() for v in l.weights}
    c.prove('same_weights', np.array_equal(new['kernel:0'], old[0]) and np.array_equal(new['bias:0'], old[1]))
    if n in reads:
      p = l._inbound_nodes[-1].inbound_layers  # pylint: disable=protected-access
      c.prove('same_connections', getattr(p, 'layer', p).name == reads[n])


# --- the model transformer on every small graph ---------------------------------------
class _W:

  def __init__(self, name, value=None):
    self.name, self.value = name, value


class _ModelLayer:
  """A layer as the transformer sees it: name, weights."""

  def __init__(self, name, values):
    import numpy as np
    self.name = name
    self.weights = [_W('%s/%s' % (name, k)) for k in values]
    self._v = [np.array([v]) for v in values.values()]

  def get_weights(self):
    return list(self._v)

  def set_weights(self, values):
    for w, v in zip(self.weights, values):
      w.value = v


class _Recorder(_RecordedModels):
  """Additionally the built models have layers whose weights can be set."""

  def __enter__(self):
    super().__enter__()
    keras = _keras()
    for k in (keras.Model, keras.Sequential):

      def rec(cfg, custom_objects=None, k=k):
        r = types.SimpleNamespace(layers=[_ModelLayer(l['config']['name'], {} if l['class_name'] == 'InputLayer' else {
            'kernel:0': 0, 'bias:0': 0}) for l in cfg['layers']])
        self.built.append((k.__name__, cfg, r, custom_objects))
        return r

      k.from_config = staticmethod(rec)
    M = _mod(MT)
    self.oldK = M.K

    def batch_set_value(pairs):
      for w, v in pairs:
        w.value = v

    M.K = types.SimpleNamespace(batch_set_value=batch_set_value)
    return self

  def __exit__(self, *a):
    _mod(MT).K = self.oldK
    super().__exit__(*a)


def _layer_entry(name, cls, reads=None, **cfg):
  d = {'class_name': cls, 'name': name, 'config': dict(cfg, name=name)}
  if reads is not None:
    d['inbound_nodes'] = [[[r, 0, 0, {}] for r in reads]] if reads else []
  return d


def _term(cfg):
  """What the model computes: its outputs as terms over the original layers."""
  ls = {l['config']['name']: l for l in cfg['layers']}
  memo = {}

  def ev(n):
    if n not in memo:
      l = ls[n]
      args = tuple(ev(r[0]) for r in (l['inbound_nodes'][0] if l['inbound_nodes'] else []))
      if l['class_name'] == 'InputLayer':
        memo[n] = n
      else:
        for f in reversed(l['config'].get('of', [n])):
          args = ((f,) + args,)
        memo[n] = args[0]
    return memo[n]

  if 'output_layers' in cfg:
    return [ev(o[0]) for o in cfg['output_layers']]
  t = 'x'
  for l in cfg['layers']:
    if l['class_name'] != 'InputLayer':
      for f in reversed(l['config'].get('of', [l['config']['name']])):
        t = (f, t)
  return [t]


def _rewrites(TRm, log):
  """Transforms that rename, fuse, split or annotate what they match and say what the new layers stand for."""
  Pat, Node = TRm.LayerPattern, TRm.LayerNode

  def node(name, cls, old, inputs=(), **cfg):
    import numpy as np
    of = [f for o in old for f in o['config'].get('of', [o['config']['name']])]
    d = {'class_name': cls, 'name': name, 'config': dict(cfg, name=name, of=of)}
    log['new'][name] = {'kernel:0': np.array(['new ' + name]), 'bias:0': np.array([7])}
    return Node(d, collections.OrderedDict(log['new'][name]), list(inputs), {'meta': 'new ' + name})

  class T(TRm.Transform):

    def custom_objects(self):
      return {type(self).__name__: type(self)}

  class Fuse(T):
    """A over B -> one layer."""

    def pattern(self):
      return Pat('A', {}, [Pat('B')])

    def replacement(self, m):
      b = m.input_layers[0]
      log['calls'].append(('Fuse', m, [m, b]))
      return node(m.layer['config']['name'] + '_' + b.layer['config']['name'], 'F', [m.layer, b.layer])

  class Deep(T):
    """A over B over C -> A' over BC."""

    def pattern(self):
      return Pat('A', {}, [Pat('B', {}, [Pat('C')])])

    def replacement(self, m):
      b = m.input_layers[0]
      k = b.input_layers[0]
      log['calls'].append(('Deep', m, [m, b, k]))
      return node(m.layer['config']['name'] + '_', 'G', [m.layer], [node(b.layer['config']['name'] + '_', 'H', [
          b.layer, k.layer])])

  class Join(T):
    """A over (B, C): the two inputs get other names."""

    def pattern(self):
      return Pat('A', {'flag': 0}, [Pat('B'), Pat('C')])

    def replacement(self, m):
      b, k = m.input_layers
      log['calls'].append(('Join', m, [m, b, k]))
      return node('j' + m.layer['config']['name'], 'J', [m.layer], [
          node('j' + z.layer['config']['name'], 'K', [z.layer]) for z in (b, k)])

  class Both(T):
    """A layer of either class, in place."""

    def pattern(self):
      return Pat('B|C', {'flag': 1})

    def replacement(self, m):
      log['calls'].append(('Both', m, [m]))
      return node(m.layer['config']['name'], m.layer['class_name'], [m.layer], flag=2)

  class Turn(T):
    """C becomes a B of another name, which the other patterns may match."""

    def pattern(self):
      return Pat('C')

    def replacement(self, m):
      log['calls'].append(('Turn', m, [m]))
      return node('t' + m.layer['config']['name'], 'B', [m.layer])

  class Same(T):
    """Replaces a layer by itself."""

    def pattern(self):
      return Pat('C')

    def replacement(self, m):
      return m

  return {'Fuse': Fuse, 'Deep': Deep, 'Join': Join, 'Both': Both, 'Turn': Turn, 'Same': Same}


_CLASSES = {'Fuse': ('A', [('B', [])]), 'Deep': ('A', [('B', [('C', [])])]), 'Join': ('A', [('B', []), ('C', [])]),
            'Both': ('BC', []), 'Turn': ('C', [])}


def _spec_matches(cfg, which, cand):
  """Heads at which a pattern matches, said independently of the transformer."""
  ls = {l['config']['name']: l for l in cfg['layers']}
  uses = collections.Counter()
  for l in cfg['layers']:
    for n in {r[0] for node in l['inbound_nodes'] for r in node}:
      uses[n] += 1
  for o in cfg['output_layers']:
    uses[o[0]] += 1

  def ok(n, pat, head):
    l = ls[n]
    if cand and n not in cand or l['class_name'] not in tuple(pat[0]) or len(l['inbound_nodes']) > 1:
      return False
    if head and which == 'Join' and l['config'].get('flag') != 0 or which == 'Both' and l['config'].get('flag') != 1:
      return False
    if not head and uses[n] > 1:
      return False
    if not pat[1]:
      return True
    ins = [r[0] for r in l['inbound_nodes'][0]]
    return len(ins) == len(pat[1]) and all(ok(a, b, False) for a, b in zip(ins, pat[1]))

  return [n for n in ls if ok(n, _CLASSES[which], True)]


def _small_graphs(c):
  """Edges of all graphs of three layers over the inputs x and y; sampled larger ones in a concrete run."""
  r1 = [('x',), ('y', 'x')]
  r2 = [('x',), ('n1',), ('n1', 'x'), ('x', 'n1')]
  r3 = [('n1',), ('n2',), ('n1', 'n2'), ('n2', 'n1'), ('n2', 'x')]
  for a in r1:
    for b in r2:
      for d in r3:
        for o in (['n3'], ['n3', 'n1'], ['n2', 'n3'], ['n3', 'n3']):
          yield [a, b, d], o


@contract('Q06', [MT + ':ModelTransformer.%s' % f for f in (
    'transform', '_find_pattern', '_match_layer_with_inputs', '_match_layer', '_match_pattern', '_is_match_supported',
    '_get_input_layer_names', '_replace', '_replace_functional', '_remove_layers', '_get_leaf_layers', '_get_layer_names',
    '_get_consuming_layers', '_get_output_consumers', '_get_inbound_layer_names', '_get_keras_layer_weights',
    '_set_layer_weights', '_store_successful_match')], cases=40, deep=300, opts={'max_paths': 2000, 'budget': 300, 'finite': True},
          note='every functional graph of three layers of three classes over two inputs, with one or two outputs. Assumed: '
               'keras.Model.from_config builds what the configuration says')
def every_small_graph(c):
  """Matches are replaced until none is left, and the rewritten model computes the same composition of layers."""
  which = c.choice('transforms', [['Fuse'], ['Deep'], ['Join'], ['Both'], ['Deep', 'Fuse'], ['Both', 'Same'], ['Fuse', 'Turn']])
  cls = [c.choice('class%d' % k, ['A', 'B', 'C']) for k in range(3)]
  flags = [0, 1, 1] if which != ['Join'] else [c.choice('flag', [0, 1])] * 3
  cand = c.choice('candidates', [None, {'n1', 'n3'}])
  graphs = list(_small_graphs(c))
  if not c.symbolic:
    import random
    r = random.Random(c.int('seed', 0, 10 ** 6))
    graphs = r.sample(graphs, 5)
    for _ in range(20):
      n = r.randint(4, 8)
      edges, names = [], ['x', 'y']
      for k in range(n):
        edges.append(tuple(r.sample(names[-4:], r.choice([1, 1, 2]))))
        names.append('n%d' % (k + 1))
      graphs.append((edges, r.sample(names[2:], r.randint(1, 3))))
    cls = cls + [r.choice('AABBC') for _ in range(5)]
    flags = flags + [r.choice([0, 1]) for _ in range(5)]
    if cand is not None:
      cand = {'n%d' % (k + 1) for k in range(8) if k != 1}
  for edges, outs in graphs:
    _transform_one(c, which, cls, flags, cand, edges, outs)


@contract('Q06', [MT + ':ModelTransformer.%s' % f for f in (
    'transform', '_find_pattern', '_match_layer_with_inputs', '_match_layer', '_get_input_layer_names', '_replace',
    '_replace_sequential', '_remove_layers', '_set_layer_weights')], cases=40, deep=300, opts={'max_paths': 2000, 'finite': True},
          note='every sequence of four layers of three classes. Assumed: keras.Sequential.from_config builds what the '
               'configuration says')
def every_short_sequence(c):
  """The same for sequential models: matches are replaced in place, the rest keeps its order."""
  import itertools
  which = c.choice('transforms', [['Fuse'], ['Deep'], ['Both'], ['Deep', 'Fuse'], ['Both', 'Same'], ['Fuse', 'Turn'], []])
  cand = c.choice('candidates', [None, {'n1', 'n3', 'n4'}, {'n2', 'n3'}])
  first = c.choice('input_layer', [True, False])
  a, b = c.choice('a', ['A', 'B', 'C']), c.choice('b', ['A', 'B', 'C'])
  for rest in itertools.product('ABC', repeat=2):
    _transform_one(c, which, (a, b) + rest, [1, 0, 1, 1], cand, [('x',), ('n1',), ('n2',), ('n3',)], ['n4'], True, first)


def _chained(cfg):
  """The functional form of a sequence."""
  import copy
  out, last = [_layer_entry('x', 'InputLayer', [])], 'x'
  for l in copy.deepcopy(cfg['layers']):
    if l['class_name'] != 'InputLayer':
      out.append(dict(l, inbound_nodes=[[[last, 0, 0, {}]]]))
      last = l['config']['name']
  return {'name': cfg['name'], 'layers': out, 'input_layers': [['x', 0, 0]], 'output_layers': [[last, 0, 0]]}


def _transform_one(c, which, cls, flags, cand, edges, outs, seq=False, first_input=True):
  import copy
  M, TRm = _mod(MT), _mod(TR)
  names = ['n%d' % (k + 1) for k in range(len(edges))]
  cfg = {'name': 'm', 'layers': [_layer_entry(i, 'InputLayer', []) for i in 'xy'] + [
      _layer_entry(n, cl, list(e), flag=f, k=k) for k, (n, cl, e, f) in enumerate(zip(names, cls, edges, flags))],
         'input_layers': [['x', 0, 0], ['y', 0, 0]], 'output_layers': [[o, 0, 0] for o in outs]}
  if seq:
    cfg = {'name': 'm', 'layers': [l for l in cfg['layers'] if l['config']['name'] != 'y'][0 if first_input else 1:]}
    for l in cfg['layers']:
      del l['inbound_nodes']
  untouched = copy.deepcopy(cfg)
  before = _chained(cfg) if seq else untouched
  log = {'calls': [], 'new': {}}
  Ts = _rewrites(TRm, log)
  values = {n: {'kernel:0': k + 1, 'bias:0': 100 + k} for k, n in enumerate(names)}
  m = _described(cfg, seq)
  type(m).__setattr__ = object.__setattr__
  type(m).layers = [_ModelLayer(l, values.get(l, {})) for l in ([] if seq else ['x', 'y']) + names]
  meta = {n: {'meta': 'old ' + n} for n in names[1:]}
  meta0 = copy.deepcopy(meta)
  with _Recorder() as R:
    res, md = M.ModelTransformer(m, [Ts[k]() for k in which], None if cand is None else set(cand), meta).transform()
  info = '%s %s %s %s %s' % (which, cls[:len(edges)], edges, outs, cand)
  c.prove('one_model_is_built', len(R.built) == 1 and R.built[0][2] is res and R.built[0][0] == (
      'Sequential' if seq else 'Model') and all(R.built[0][3].get(k) is Ts[k] for k in which), info=info)
  out = R.built[0][1]
  if seq:
    c.prove('input_first', [l['class_name'] for l in out['layers']].count('InputLayer') == first_input and (
        not first_input or out['layers'][0]['class_name'] == 'InputLayer') and not any(
            l.get('inbound_nodes') for l in out['layers']), info=info)
    out = _chained(out)
  ls = {l['config']['name']: l for l in out['layers']}
  c.prove('layers_are_connected', len(ls) == len(out['layers']) and all(
      r[0] in ls for l in out['layers'] for node in l['inbound_nodes'] for r in node) and all(
          o[0] in ls for o in out['output_layers']), info=info)
  c.prove('same_function', _term(out) == _term(before), info=info)
  c.prove('inputs_and_outputs_stay', out['input_layers'] == before['input_layers'] and len(out['output_layers']) == len(
      outs) and out['name'] == 'm', info=info)
  removed = {n.layer['config']['name'] for _, _, ns in log['calls'] for n in ns}
  src = {l['config']['name']: l for l in before['layers']}
  c.prove('layers_not_matched_stay', all(
      n in ls and ls[n]['class_name'] == l['class_name'] and ls[n]['config'] == l['config'] for n, l in src.items()
      if n not in removed), info=info)
  c.prove('nothing_else_is_added', set(ls) <= set(src) | set(log['new']), info=info)
  c.prove('only_candidates', not cand or all(n in cand or n in log['new'] for n in removed), info=info)
  for t in which:
    if t == 'Same':
      continue
    c.prove('no_match_is_left', _spec_matches(out, t, cand and cand | set(log['new'])) == [], info=info)
  first = [h for t in which[:1] if t != 'Same' for h in _spec_matches(before, t, cand)]
  c.prove('replaced_where_it_matches', (not first or log['calls'][0][0] == which[0] and log['calls'][0][1].layer['config'][
      'name'] in first) and (bool(log['calls']) == any(_spec_matches(before, t, cand) for t in which if t != 'Same')), info=info)
  for _, _, ns in log['calls']:
    for n in ns:
      k = n.layer['config']['name']
      w = log['new'].get(k) if 'of' in n.layer['config'] else values[k]
      c.prove('the_transform_sees_weights_and_metadata', [list(n.weights[a]) for a in n.weights] == [
          list(v) if hasattr(v, '__len__') else [v] for v in w.values()] and n.metadata == (
              {'meta': 'new ' + k} if 'of' in n.layer['config'] else meta0.get(k, {})), info=info)
  for l in res.layers:
    if l.name in ('x', 'y'):
      continue
    new = 'of' in ls[l.name]['config']
    want = list(log['new'][l.name].values()) if new else list(values[l.name].values())
    c.prove('weights', all(list(w.value) == (list(v) if hasattr(v, '__len__') else [v]) for w, v in zip(l.weights, want)),
            info=info)
    c.prove('metadata', md.get(l.name) == ({'meta': 'new ' + l.name} if new else meta0.get(l.name)), info=info)
  c.prove('metadata_of_layers_only', set(md) <= set(ls), info=info)
  c.prove('originals_untouched', m.get_config() == untouched and meta == meta0, info=info)
