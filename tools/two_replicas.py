"""Runs the real pruning (or clustering) wrapper on two replicas (two logical CPUs); prints one JSON line per case.

usage: two_replicas.py REPO CASES SEED [cluster]
"""
import json
import os
import random
import sys

os.environ['TF_USE_LEGACY_KERAS'] = '1'
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
sys.path.insert(0, sys.argv[1])
import numpy as np
import tensorflow as tf

cpus = tf.config.list_physical_devices('CPU')
tf.config.set_logical_device_configuration(cpus[0], [tf.config.LogicalDeviceConfiguration()] * 2)
from tensorflow_model_optimization.python.core.keras.compat import keras
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule
from tensorflow_model_optimization.python.core.sparsity.keras import pruning_wrapper

rng = random.Random(int(sys.argv[3]))
strategy = tf.distribute.MirroredStrategy(['/cpu:0', '/cpu:1'])
copies = lambda v: [np.array(x) for x in strategy.experimental_local_results(v)]


def cluster_case():
  from tensorflow_model_optimization.python.core.clustering.keras import cluster
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_config
  from tensorflow_model_optimization.python.core.clustering.keras import cluster_wrapper
  np.random.seed(rng.randrange(2**31))
  n, m, k = rng.randint(3, 6), rng.randint(3, 5), rng.randint(2, 4)
  init = rng.choice(['LINEAR', 'DENSITY_BASED', 'KMEANS_PLUS_PLUS'])
  agg = rng.choice(['SUM', 'AVG'])
  case = dict(shape=[n, m], clusters=k, init=init, gradients=agg)
  with strategy.scope():
    model = keras.Sequential([keras.layers.Dense(m, input_shape=(n,)), keras.layers.Dense(2, use_bias=False)])
    for l in model.layers:
      l.kernel.assign(np.random.randn(*l.kernel.shape))
    cm = cluster.cluster_weights(model, number_of_clusters=k, cluster_centroids_init=getattr(
        cluster_config.CentroidInitialization, init), cluster_gradient_aggregation=getattr(
            cluster_config.GradientAggregation, agg))
    cm.compile(loss='mse', optimizer=keras.optimizers.SGD(0.05))
  fails = []
  cm.fit(np.random.randn(12, n), np.random.randn(12, 2), epochs=2, batch_size=6, verbose=0)
  wraps = [l for l in cm.layers if isinstance(l, cluster_wrapper.ClusterWeights)]
  for w in wraps:
    for v in w.weights:
      a, b = copies(v)
      if not np.array_equal(a, b):
        fails.append('%s differs between the replicas' % v.name)
  cents = [copies(w.cluster_centroids['kernel'])[0] for w in wraps]
  got = [g for g in cluster.strip_clustering(cm).get_weights() if g.ndim == 2]
  if len(got) != 2:
    fails.append('kernels %s' % got)
  for g, cent in zip(got, cents):
    if len(np.unique(g)) > k or not np.isin(g, cent).all():
      fails.append('kernel %s of centroids %s' % (g.tolist(), cent.tolist()))
  print(json.dumps(dict(case=case, fails=fails)), flush=True)


if sys.argv[4:] == ['cluster']:
  for _ in range(int(sys.argv[2])):
    cluster_case()
  sys.exit(0)

for case in range(int(sys.argv[2])):
  np.random.seed(rng.randrange(2**31))
  n, m = rng.randint(1, 4), rng.randint(1, 4)
  begin, freq, target = rng.randint(0, 2), rng.randint(1, 2), rng.choice([0.0, 0.25, 0.5, 0.75])
  kw = dict(sparsity_m_by_n=(2, 4)) if rng.random() < 0.2 else {}
  if kw:
    n = m = 4
  with strategy.scope():
    layer = keras.layers.Dense(m)
    w = pruning_wrapper.PruneLowMagnitude(
        layer, pruning_schedule=pruning_schedule.ConstantSparsity(target, begin, frequency=freq), **kw)
    w.build((None, n))
    w.pruning_step.assign(0)
  out = dict(case=dict(shape=[n, m], begin=begin, frequency=freq, target=target, **kw), fails=[])
  for step in range(1, 4):
    kernel = np.random.randn(n, m).astype('float32')
    layer.kernel.assign(kernel)
    mask0 = copies(w.pruning_vars[0][1])[0]
    y = strategy.run(tf.function(lambda: w(tf.ones((2, n)), training=True)))
    ks, ms, ss, ys = (copies(v) for v in (layer.kernel, w.pruning_vars[0][1], w.pruning_step, y))
    due = step == 1 if kw else step >= begin and (step - begin) % freq == 0
    keep = max(round(n * m * (1 - target)), 1)
    want = None
    if not due:
      want = mask0
    elif not kw:
      want = (abs(kernel) >= np.sort(abs(kernel).ravel())[::-1][keep - 1]).astype('float32')
    for r in range(2):
      if want is not None and not np.array_equal(ms[r], want):
        out['fails'].append('step %d replica %d mask %s want %s' % (step, r, ms[r].tolist(), want.tolist()))
      if not np.array_equal(ks[r], kernel * ms[r]):
        out['fails'].append('step %d replica %d weights %s want %s' % (step, r, ks[r].tolist(), (kernel * ms[r]).tolist()))
      if int(ss[r]) != step:
        out['fails'].append('step %d replica %d counts %d' % (step, r, int(ss[r])))
      if not np.allclose(ys[r], np.ones((2, n)) @ (kernel * ms[0]), atol=1e-5):
        out['fails'].append('step %d replica %d output %s' % (step, r, ys[r].tolist()))
    if not np.array_equal(ms[0], ms[1]):
      out['fails'].append('step %d masks differ' % step)
  print(json.dumps(out), flush=True)
