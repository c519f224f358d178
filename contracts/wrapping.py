"""Contracts: what every wrapper keeps of the layer it wraps."""
from dv.api import *  # noqa

WRAPPERS = {'pruning': ('sparsity.keras.pruning_wrapper', 'PruneLowMagnitude'),
            'clustering': ('clustering.keras.cluster_wrapper', 'ClusterWeights'),
            'quantization': ('quantization.keras.quantize_wrapper', 'QuantizeWrapper'),
            'quantization 2': ('quantization.keras.quantize_wrapper', 'QuantizeWrapperV2'),
            'annotation': ('quantization.keras.quantize_annotate', 'QuantizeAnnotate')}


def _mod(name):
  import importlib
  return importlib.import_module('tensorflow_model_optimization.python.core.' + name)


def _keras():
  return _mod('keras.compat').keras


def _t(*names):
  return [m + ':' + k + '.' + n for m, k in sorted({WRAPPERS[w] for w in WRAPPERS}) for n in names
          if n in vars(getattr(_mod(m), k))]


class _Config:
  """Quantizes nothing."""
  get_weights_and_quantizers = get_activations_and_quantizers = get_output_quantizers = lambda s, l: []
  set_quantize_weights = set_quantize_activations = lambda s, l, x: None
  get_config = lambda s: {}


def _wrap(kind, layer):
  m, k = WRAPPERS[kind]
  cls = getattr(_mod(m), k)
  if kind == 'pruning':
    return cls(layer, _mod('sparsity.keras.pruning_schedule').ConstantSparsity(0.5, 0))
  if kind == 'clustering':
    return cls(layer, 3, _mod('clustering.keras.cluster_config').CentroidInitialization.LINEAR)
  if kind == 'annotation':
    return cls(layer)
  return cls(layer, _Config())


@contract('W01', _t('compute_output_shape', 'trainable', 'trainable_weights', 'non_trainable_weights', 'losses',
                    'get_weights', 'set_weights'), cases=30, deep=120,
          opts={'finite': True}, note='five wrappers; up to two weights and losses of either side; shapes are opaque values')
def wrapper_keeps_the_layer(c):
  """Output shape for the given input shape, trainable flag, weights and losses are those of the layer."""
  keras = _keras()
  kind = c.choice('wrapper', sorted(WRAPPERS))
  nt, nn, nl, own = (c.choice(k, v) for k, v in (('trainable', [2, 0, 1]), ('others', [1, 0, 2]), ('losses', [1, 0, 2]),
                                                ('of_the_wrapper', [1, 0, 2])))

  class Var:
    trainable = True

    def __init__(self, n):
      self.name = n + ':0'

  tw, nw, ls = ([Var(k + str(i)) for i in range(n)] for k, n in (('w', nt), ('n', nn), ('l', nl)))
  asked, stored = [], []
  answers = [object(), object()]

  class Layer(keras.layers.Dense, _mod('clustering.keras.clusterable_layer').ClusterableLayer,
              _mod('sparsity.keras.prunable_layer').PrunableLayer):
    get_clusterable_weights = get_prunable_weights = lambda s: []
    trainable_weights = property(lambda s: list(tw))
    non_trainable_weights = property(lambda s: list(nw))
    losses = property(lambda s: list(ls))

    def compute_output_shape(self, shape):
      asked.append(shape)
      return answers[len(asked) % 2]

    def get_weights(self):
      return answers[0]

    def set_weights(self, w):
      stored.append(w)

  layer = Layer(2)
  x = _wrap(kind, layer)
  for shape in (object(), object()):
    got = x.compute_output_shape(shape)
    c.prove('output_shape_of_the_given_input', bool(asked) and asked[-1] is shape and got is answers[len(asked) % 2])
  for v in (False, True, False):
    x.trainable = v
    c.prove('trainable_flag_of_the_layer', layer.trainable is v and x.trainable is v)
    layer.trainable = not v
    c.prove('trainable_flag_of_the_layer', x.trainable is (not v))
  ids = lambda l: [id(v) for v in l]
  mine, lost = [Var('o%d' % i) for i in range(own)], [object() for _ in range(own)]
  for o in mine:
    x._non_trainable_weights.append(o)   # pylint: disable=protected-access
  c.prove('trained_weights_of_the_layer', ids(x.trainable_weights) == ids(tw))
  c.prove('other_weights_are_kept', sorted(ids(x.non_trainable_weights)) == sorted(ids(nw + mine)))
  x._losses.extend(lost)                 # pylint: disable=protected-access
  c.prove('losses_are_counted_once', sorted(ids(x.losses)) == sorted(ids(ls + lost)))
  if 'quant' not in kind:
    w = object()
    x.set_weights(w)
    c.prove('weights_are_those_of_the_layer', x.get_weights() is answers[0] and len(stored) == 1 and stored[0] is w)


@contract('W01', _t('compute_output_shape', 'losses', 'trainable'), mode='bounded', cases=24, deep=120,
          note='five kinds of real layers with regularizers and random shapes, before and after a call')
def real_layers_keep_shape_and_losses(c):
  """Wrapped real layers: output shape of any input shape, the regularization loss once, freezing."""
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  L, regularized = keras.layers, []

  class Own(keras.regularizers.Regularizer):

    def __call__(self, w):
      regularized.append(np.array(w))
      return 0.5 * tf.reduce_sum(tf.square(w))

  reg = Own
  kind = c.choice('wrapper', sorted(WRAPPERS))
  which = c.choice('layer', ['dense', 'conv', 'embedding', 'flatten', 'norm'])
  layer = {'dense': lambda: L.Dense(3, kernel_regularizer=reg()), 'conv': lambda: L.Conv2D(2, 3, kernel_regularizer=reg()),
           'embedding': lambda: L.Embedding(9, 3, embeddings_regularizer=reg()), 'flatten': L.Flatten,
           'norm': L.BatchNormalization}[which]()
  n = c.int('size', 3, 8)
  feat = {'dense': (4,), 'conv': (n, n + 1, 2), 'embedding': (n,), 'flatten': (n, 2), 'norm': (n, 3)}[which]
  x = _wrap(kind, layer)
  data = tf.ones((2,) + feat, dtype='int32' if which == 'embedding' else 'float32')
  seen = [x.compute_output_shape((5,) + feat)] if which != 'flatten' else []
  layer_shape = x(data).shape
  k = c.int('more', 1, 3)
  other = {'dense': (k, 4), 'conv': (n + k, n, 2), 'embedding': (n + k,), 'flatten': (n, 2), 'norm': (n + k, 3)}[which]
  out = {'dense': (lambda s: s[:-1] + (3,)), 'conv': lambda s: (s[0] - 2, s[1] - 2, 2), 'embedding': lambda s: s + (3,),
         'flatten': lambda s: (int(np.prod(s)),), 'norm': lambda s: s}[which]
  c.prove('output_shape', all(tuple(s) == (5,) + out(feat) for s in seen) and tuple(layer_shape) == (2,) + out(feat))
  for b in (None, 7):
    c.prove('output_shape', tuple(x.compute_output_shape((b,) + other)) == (b,) + out(other), info=which)
  del regularized[:]
  got = [float(v) for v in x.losses]
  want = [0.5 * float(np.sum(np.square(w))) for w in regularized]
  n_reg = int(which not in ('flatten', 'norm'))
  c.prove('regularization_loss_once', len(got) == len(want) == n_reg and np.allclose(got, want), info='%s want %s' % (got, want))
  x.trainable = False
  c.prove('frozen_wrapper_trains_nothing_of_the_layer', not layer.trainable_weights)
