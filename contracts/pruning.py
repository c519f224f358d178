"""Contracts: magnitude pruning (schedules, masks, wrapper, policies)."""
from dv.api import *  # noqa
from dv import api
from dv import ops

SCH = 'sparsity.keras.pruning_schedule'
IMPL = 'sparsity.keras.pruning_impl'
UT = 'sparsity.keras.pruning_utils'
P = 'tensorflow_model_optimization.python.core.'


def _sched():
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_schedule
  return pruning_schedule


def _window(c):
  begin = c.int('begin', 0, 60)if not c.symbolic else c.int('begin', 0)
  end = c.int('end', -1, 90) if not c.symbolic else c.int('end', -1)
  freq = c.int('freq', 1, 12) if not c.symbolic else c.int('freq', 1)
  return begin, end, freq


def _step(c, name='step', begin=None):
  if c.symbolic:
    return c.tensor(name, [], 'int64')
  b = 0 if begin is None else int(begin)
  return c.tensor(name, [], 'int64', gen=lambda r, n: [max(-3, b + r.randint(-6, 60))])


def _window_spec(step, begin, end, freq):
  return And(ge(step, begin), Or(eq(end, -1), le(step, end)),
             eq(imod(step - begin, freq), 0))


@contract('P01', [SCH + ':ConstantSparsity.__call__', SCH + ':ConstantSparsity.__init__',
                  SCH + ':PruningSchedule._should_prune_in_step'], cases=150, deep=1500)
def constant_window(c):
  """should_prune <=> begin <= step <= end (or end == -1) and (step-begin) % freq == 0."""
  begin, end, freq = _window(c)
  b, e, f = val(begin), val(end), val(freq)
  c.assume(Or(eq(e, -1), le(b, e)))
  s = c.real('target', 0, 1, hi_strict=True)
  if c.choice('defaults', [False, True]):     # documented: no end, every 100 steps
    e, f = -1, 100
    sch = _sched().ConstantSparsity(s, begin)
  else:
    sch = _sched().ConstantSparsity(s, begin, end, freq)
  step = _step(c, begin=None if c.symbolic else begin)
  should, sp = sch(step)
  st = val(step)
  c.prove('prunes_exactly_in_window', Iff(val(should), _window_spec(st, b, e, f)))
  c.prove('sparsity_is_target', eq(val(sp), val(s)))


@contract('P01', [SCH + ':PolynomialDecay.__call__', SCH + ':PolynomialDecay.__init__',
                  SCH + ':PruningSchedule._should_prune_in_step'], cases=150, deep=1500)
def polynomial_window(c):
  begin, end, freq = _window(c)
  b, e, f = val(begin), val(end), val(freq)
  c.assume(And(ge(e, 0), le(b, e)))
  if c.choice('defaults', [False, True]):     # documented: every 100 steps
    f = 100
    sch = _sched().PolynomialDecay(0.25, 0.75, begin, end)
  else:
    sch = _sched().PolynomialDecay(0.25, 0.75, begin, end, 3, freq)
  step = _step(c, begin=None if c.symbolic else begin)
  should, _ = sch(step)
  c.prove('prunes_exactly_in_window', Iff(val(should), _window_spec(val(step), b, e, f)))


@contract('P01', [SCH + ':PruningSchedule._validate_step', SCH + ':PruningSchedule._validate_sparsity',
                  SCH + ':ConstantSparsity.__init__', SCH + ':PolynomialDecay.__init__'],
          cases=200, deep=2000)
def constructor_rejects_invalid(c):
  """A schedule object exists iff its window, frequency and sparsities are valid."""
  lim = (None, None) if c.symbolic else (-3, 9)
  begin, end, freq = (c.int(n, *lim) for n in ('begin', 'end', 'freq'))
  s0, s1 = c.real('s0', *((None, None) if c.symbolic else (-0.5, 1.5))), c.real(
      's1', *((None, None) if c.symbolic else (-0.5, 1.5)))
  b, e, f = val(begin), val(end), val(freq)
  poly = c.choice('kind', ['const', 'poly']) == 'poly'
  if poly:
    err, sch = c.raises(_sched().PolynomialDecay, s0, s1, begin, end, 3, freq)
  else:
    err, sch = c.raises(_sched().ConstantSparsity, s0, begin, end, freq)
  ok_s = lambda s: And(ge(s, 0, 0), Not(ge(s, 1, 0)))
  valid = And(ge(b, 0), ge(f, 1), Or(And(eq(e, -1), not poly), And(ge(e, 0), le(b, e))),
              ok_s(val(s0)), Or(not poly, ok_s(val(s1))))
  c.prove('accepted_iff_valid', Iff(err is None, valid))
  c.prove('rejected_with_value_error', err is None or isinstance(err, ValueError))


@contract('P02', [SCH + ':PolynomialDecay.__call__'], cases=200, deep=2000)
def polynomial_sparsity(c):
  """Documented curve, bounds, endpoints."""
  begin, end, _ = _window(c)
  b, e = val(begin), val(end)
  c.assume(And(ge(e, 0), le(b, e)))
  si = c.real('init', 0, 1, hi_strict=True)
  sf = c.real('final', 0, 1, hi_strict=True)
  power = c.choice('power', [3, 1, 2, 'any', 'default'])
  if power == 'any':
    power = c.real('power_value', 0, 8, lo_strict=True)
  if power == 'default':
    sch = _sched().PolynomialDecay(si, sf, begin, end)
    power = 3
  else:
    sch = _sched().PolynomialDecay(si, sf, begin, end, power, 10)
  step = _step(c, begin=None if c.symbolic else begin)
  sp = val(sch(step)[1])
  st = val(step)
  i, f = val(si), val(sf)
  lo, hi = minz(i, f), maxz(i, f)
  c.prove('within_endpoints', And(ge(sp, lo), le(sp, hi)))
  c.prove('final_from_end_on', Implies(ge(st, e), eq(sp, f)))
  c.prove('initial_until_begin', Implies(And(le(st, b), Not(eq(b, e))), eq(sp, i)))
  c.prove('initial_before_begin', Implies(Not(ge(st, b)), eq(sp, i)))
  if isinstance(power, int):
    d = If(eq(e, b), 1, e - b)
    frac = toreal(st - b) / toreal(d) if c.symbolic else (st - b) / float(d)
    q = 1 - maxz(0, minz(1, frac))
    curve = f + (i - f) * (q**power if not c.symbolic else _pw(q, power))
    c.prove('documented_curve', Implies(Not(eq(b, e)), eq(sp, curve)))


def _pw(q, n):
  r = q
  for _ in range(n - 1):
    r = r * q
  return r


@contract('P02', [SCH + ':PolynomialDecay.__call__'], cases=200, deep=2000)
def polynomial_monotone(c):
  """Between any two steps the sparsity moves toward the final value only."""
  begin, end, _ = _window(c)
  b, e = val(begin), val(end)
  c.assume(And(ge(e, 0), le(b, e)))
  si = c.real('init', 0, 1, hi_strict=True)
  sf = c.real('final', 0, 1, hi_strict=True)
  power = c.choice('power', [3, 1, 2, 'any'])
  if power == 'any':
    power = c.real('power_value', 0, 8, lo_strict=True)
  sch = _sched().PolynomialDecay(si, sf, begin, end, power, 10)
  s1 = _step(c, 'step1', begin=None if c.symbolic else begin)
  s2 = _step(c, 'step2', begin=None if c.symbolic else begin)
  c.assume(le(val(s1), val(s2)))
  a, d = val(sch(s1)[1]), val(sch(s2)[1])
  i, f = val(si), val(sf)
  c.prove('monotone_towards_final', And(Implies(le(i, f), le(a, d)), Implies(ge(i, f), ge(a, d))))


def _pruning(c, pv, sched, block=(1, 1), pool='AVG', mbn=None, step=0):
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_impl
  return pruning_impl.Pruning(lambda: step, pv, sched, block, pool, mbn)


@contract('P03', [IMPL + ':Pruning._update_mask', IMPL + ':Pruning._maybe_update_block_mask',
                  IMPL + ':Pruning.conditional_mask_update'], cases=120, deep=1200)
def magnitude_mask(c):
  """Mask == {|w| >= k-th largest |w|}, k = max(round(n*(1-s)), 1); threshold == that value."""
  rank = c.choice('rank', [2, 1, 4])
  shape = [c.dim('d%d' % k, 1, 5) for k in range(rank)]
  s = c.real('sparsity', 0, 1, hi_strict=True)
  w = c.var('w', shape)
  m = c.var('m', shape, gen=lambda r, n: [1.0] * n)
  t = c.var('t', [], gen=lambda r, n: [0.0])
  w0 = snapshot(w)
  sch = lambda step: (True, s)
  p = _pruning(c, [(w, m, t)], sch)
  p.conditional_mask_update()
  n = dprod(shape)if c.symbolic else _np_prod(shape)
  k = rnd(toreal(zi(n)) * (1 - val(s))) if c.symbolic else round(n * (1 - float(s)))
  k = maxz(k, 1)
  kth = c.kth_largest_abs(w0, k)
  c.prove('threshold_is_kth_magnitude', eq(val(snapshot(t)), kth))
  mm = snapshot(m)
  c.prove('mask_is_topk_set', c.forall(shape, lambda *i: Iff(
      eq(el(mm, *i), 1), ge(absz(el(w0, *i)), kth, 0))))
  c.prove('mask_is_zero_one', c.forall(shape, lambda *i: Or(
      eq(el(mm, *i), 1), eq(el(mm, *i), 0))))
  ww = snapshot(w)
  c.prove('weights_untouched', c.forall(shape, lambda *i: eq(el(ww, *i), el(w0, *i))))


def _np_prod(s):
  r = 1
  for x in s:
    r *= int(x)
  return r


def _mbn_options(c):
  return [(2, 4), (1, 2), (1, 4), (3, 4), (1, 3), (2, 3)] + (
      [(2, 6), (4, 8)] if c.tier == 'thorough' or not c.symbolic else [])


def _mn_contract(c, rank):
  m, n = c.choice('m_by_n', _mbn_options(c))
  if rank == 2:
    ci, co = c.dim('c_in', 1, 11), c.dim('c_out', 1, 4)
    shape = [ci, co]
    row = [co]
    at = lambda i, o: (i, o)
  else:
    h, w_, ci, co = c.dim('h', 1, 2), c.dim('w_', 1, 3), c.dim('c_in', 1, 9), c.dim('c_out', 1, 3)
    shape = [h, w_, ci, co]
    row = [h, w_, co]
    at = lambda i, a, b, o: (a, b, i, o)
  w = c.var('w', shape)
  mk = c.var('mask', shape, gen=lambda r, k: [1.0] * k)
  th = c.var('thr', [], gen=lambda r, k: [0.0])
  w0 = snapshot(w)
  p = _pruning(c, [(w, mk, th)], lambda step: (True, 0.5), mbn=(m, n), step=1)
  p.conditional_mask_update()
  mm = snapshot(mk)
  groups = idiv(ci + n - 1, n)

  def members(g, *r):
    out = []
    for e in range(n):
      i = g * n + e
      if c.symbolic:
        inr = i < zi(ci)
        out.append((inr, el(mm, *at(i, *r)), absz(el(w0, *at(i, *r)))))
      elif i < ci:
        out.append((True, el(mm, *at(i, *r)), abs(el(w0, *at(i, *r)))))
    return out

  def body_count(g, *r):
    ms = members(g, *r)
    if c.symbolic:
      tot = z3.Sum([If(inr, v, z3.RealVal(0)) for inr, v, _ in ms])
      full = (g + 1) * n <= zi(ci)
    else:
      tot = sum(v for _, v, _ in ms)
      full = (g + 1) * n <= ci
    return And(le(tot, n - m), Implies(full, eq(tot, n - m)))

  def body_largest(g, *r):
    ms = members(g, *r)
    cl = []
    for a in ms:
      for b in ms:
        if a is not b:
          cl.append(Implies(And(a[0], b[0], eq(a[1], 1), eq(b[1], 0)), ge(a[2], b[2], 0)))
    return And(cl)

  c.prove('zero_one', c.forall(shape, lambda *i: Or(eq(el(mm, *i), 1), eq(el(mm, *i), 0))))
  c.prove('at_least_m_zeros_per_group', c.forall([groups] + row, body_count))
  c.prove('largest_kept', c.forall([groups] + row, body_largest))


_MN = [IMPL + ':Pruning._update_mask_sparsity_m_by_n', IMPL + ':Pruning._maybe_update_block_mask',
       UT + ':weights_rearrange', UT + ':generate_m_by_n_mask', UT + ':m_by_n_sparsity_mask_prepare']


@contract('P04', _MN, cases=60, deep=600)
def m_by_n_dense(c):
  _mn_contract(c, 2)


@contract('P04', _MN, cases=60, deep=600)
def m_by_n_conv(c):
  _mn_contract(c, 4)


@contract('P04', [UT + ':is_pruned_m_by_n'], cases=120, deep=1200, mode='bounded')
def m_by_n_checker(c):
  """is_pruned_m_by_n decides the documented pattern (loop over numpy: bounded)."""
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils
  m, n = c.choice('m_by_n', _mbn_options(c))
  rank = c.choice('rank', [2, 4])
  lc = c.choice('last', ['C_OUT', 'C_IN'])
  shape = [c.dim('d%d' % k, 1, 6) for k in range(rank)]
  dens = c.choice('density', [0.2, 0.5, 0.8])
  w = c.tensor('w', shape, gen=lambda r, k: [r.choice([1.0, -2.0]) if r.random() < dens else 0.0 for _ in range(k)])
  res = pruning_utils.is_pruned_m_by_n(w, (m, n), lc)
  import numpy as np
  a = np.asarray(w)
  if lc == 'C_OUT':
    a = a.T if rank == 2 else np.transpose(a, (3, 0, 1, 2))
  a = a.reshape(-1, a.shape[-1])
  want = True
  for r in a:
    for s in range(0, len(r), n):
      if sum(1 for x in r[s:s + n] if x != 0) > n - m:
        want = False
  c.prove('pattern_decided', bool(res) == want)


BLOCKS = [(1, 4), (4, 1), (2, 2), (1, 2), (3, 2)]


def _block_value(c, w0, shape, bi, bj, bh, bw, pool):
  """Pooled magnitude of block (bi, bj): over the weights that lie in it."""
  r, q = shape
  cells = []
  for a in range(bh):
    for b in range(bw):
      i, j = bi * bh + a, bj * bw + b
      inr = And(i < zi(r), j < zi(q)) if c.symbolic else (i < r and j < q)
      if c.symbolic or inr:
        cells.append((inr, absz(el(w0, i, j)), a, b))
  if not c.symbolic:
    vs = [v for _, v, _, _ in cells]
    return max(vs) if pool == 'MAX' else sum(vs) / len(vs)
  live = [(ops.decide(inr), inr, v) for inr, v, _, _ in cells]
  live = [(d, inr, v) for d, inr, v in live if d is not False]
  if pool == 'MAX':
    best = live[0][2]          # (0,0) is always inside
    for d, inr, v in live[1:]:
      best = z3.If(z3.And(inr, v > best), v, best)
    return best
  if not all(d for d, _, _ in live):
    raise Unsupported('block extent not settled')
  return z3.Sum([v for _, _, v in live]) / len(live)


def _expand_contract(c):
  """Callee contract of expand_tensor (discharged by contract expand_tensor_spec)."""
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils
  from dv import tens

  def spec(tensor, block_size):
    x = lift(tensor)
    bh, bw = block_size
    if len(x.shape_) != 2:
      raise ValueError('rank')
    return T([dprod([x.shape_[0], bh]), dprod([x.shape_[1], bw])], x.dtype,
             lambda i, j: x.at(tens.iv(z3.simplify(zi(i) / bh)), tens.iv(z3.simplify(zi(j) / bw))))

  c.stub(pruning_utils, 'expand_tensor', spec, 'expand_tensor: out[i,j] = in[i div bh, j div bw]')


@contract('P05', [UT + ':expand_tensor'], cases=60, deep=400,
          note='expand_tensor builds its index list in a Python/numpy loop: its contract is discharged '
               'for every value but for row/column counts up to 4 (bounded in shape), and assumed by block_mask')
def expand_tensor_spec(c):
  from tensorflow_model_optimization.python.core.sparsity.keras import pruning_utils
  block = c.choice('block', BLOCKS + [(1, 1), (4, 4), (1, 16)])
  shape = c.choice('shape', [(1, 1), (1, 3), (3, 1), (2, 3), (4, 2), (3, 4)])
  x = c.tensor('x', list(shape))
  y = pruning_utils.expand_tensor(x, list(block))
  c.prove('shape', same_shape(y, _Shp(shape[0] * block[0], shape[1] * block[1])))
  c.prove('replicates_each_value_over_its_block', And([
      eq(el(y, i, j), el(x, i // block[0], j // block[1]))
      for i in range(shape[0] * block[0]) for j in range(shape[1] * block[1])]))


def _Shp(*s):
  import numpy as np
  return np.zeros(s, np.float32)


def _block_contract(c, pool):
  bh, bw = c.choice('block', BLOCKS if c.tier == 'thorough' or not c.symbolic else BLOCKS[:3])
  # rows = bh*nb + rem: every row count, split by its remainder
  rr, qr = c.choice('row_rem', list(range(bh))), c.choice('col_rem', list(range(bw)))
  nb0, mb0 = c.dim('row_blocks', 0, 3), c.dim('col_blocks', 0, 3)
  r, q = nb0 * bh + rr, mb0 * bw + qr
  c.assume(And(ge(r, 1), ge(q, 1)))
  s = c.real('sparsity', 0, 1, hi_strict=True)
  w = c.var('w', [r, q])
  mk = c.var('mask', [r, q], gen=lambda r_, k: [1.0] * k)
  th = c.var('thr', [], gen=lambda r_, k: [0.0])
  w0 = snapshot(w)
  _expand_contract(c)
  p = _pruning(c, [(w, mk, th)], lambda step: (True, s), (bh, bw), pool)
  p.conditional_mask_update()
  mm = snapshot(mk)
  t = val(snapshot(th))
  c.prove('zero_one', c.forall([r, q], lambda i, j: Or(eq(el(mm, i, j), 1), eq(el(mm, i, j), 0))))
  if c.symbolic:
    c.prove('constant_on_blocks', c.forall([r, q, r, q], lambda i, j, i2, j2: Implies(
        And(eq(idiv(i, bh), idiv(i2, bh)), eq(idiv(j, bw), idiv(j2, bw))),
        eq(el(mm, i, j), el(mm, i2, j2)))))
    if True:
      i, j = c.some_index(r), c.some_index(q)
      bi, bj = idiv(i, bh), idiv(j, bw)
      c.branch(bi < nb0)      # interior block or the partial last one
      c.branch(bj < mb0)
      v = _block_value(c, w0, (r, q), bi, bj, bh, bw, pool)
      m_ij = el(mm, i, j)
      c.prove('block_above_threshold_kept', Implies(v > t, eq(m_ij, 1)))
      c.prove('block_below_threshold_removed', Implies(v < t, eq(m_ij, 0)))
    return
  c.prove('constant_on_blocks', c.forall([r, q], lambda i, j: eq(
      el(mm, i, j), el(mm, i // bh * bh, j // bw * bw))))
  nb, mb = -(-r // bh), -(-q // bw)
  vals = {(i, j): _block_value(c, w0, (r, q), i, j, bh, bw, pool) for i in range(nb) for j in range(mb)}
  k = max(round(nb * mb * (1 - float(s))), 1)
  kth = sorted(vals.values(), reverse=True)[k - 1]
  kept = {b: el(mm, b[0] * bh, b[1] * bw) == 1 for b in vals}
  c.prove('block_above_threshold_kept', all(kept[b] for b in vals if vals[b] > kth + 1e-4))
  c.prove('block_below_threshold_removed', not any(kept[b] for b in vals if vals[b] < kth - 1e-4))
  c.prove('enough_blocks_kept', sum(kept.values()) >= k)


_BT = [IMPL + ':Pruning._maybe_update_block_mask', IMPL + ':Pruning._update_mask',
       UT + ':factorized_pool', UT + ':expand_tensor']


@contract('P05', _BT, cases=80, deep=800, opts={'resolve': True})
def block_mask_max(c):
  """Mask constant on every block; a block is kept iff its max magnitude reaches the k-th largest."""
  _block_contract(c, 'MAX')


@contract('P05', _BT, cases=80, deep=800, opts={'resolve': True})
def block_mask_avg(c):
  _block_contract(c, 'AVG')


# --- applying the masks ---------------------------------------------------------
WRP = 'sparsity.keras.pruning_wrapper'
CBK = 'sparsity.keras.pruning_callbacks'
REG = 'sparsity.keras.prune_registry'
POL = 'sparsity.keras.pruning_policy'
PRN = 'sparsity.keras.prune'


def _mod(name):
  import importlib
  return importlib.import_module(P + name)


def _replica(c):
  """Replica context (the default) or cross-replica context."""
  r = c.choice('replica_context', [True, False])
  if c.symbolic:
    c.memo['replica'] = r
    import contextlib
    return contextlib.nullcontext()
  if r:
    import contextlib
    return contextlib.nullcontext()
  import tensorflow as tf
  return tf.distribute.OneDeviceStrategy('/cpu:0').scope()


def _vars(c, n, rank=2):
  out = []
  for k in range(n):
    sh = [c.dim('d%d_%d' % (k, j), 1, 3) for j in range(rank)]
    w = c.var('w%d' % k, sh)
    m = c.var('m%d' % k, sh, gen=lambda r, n_: [r.choice([0.0, 1.0]) for _ in range(n_)])
    t = c.var('t%d' % k, [], gen=lambda r, n_: [0.5])
    out.append((sh, w, m, t))
  return out


def _eqt(c, a, b, sh):
  if not sh:
    return eq(val(a), val(b))
  return And(same_shape(a, b), c.forall(sh, lambda *i: eq(el(a, *i), el(b, *i))))


def _flag(c, name):
  if c.symbolic:
    return c.tensor(name, [], 'bool')
  import tensorflow as tf
  return tf.constant(c.choice(name, [True, False]))


def _own_mask(c, w0, m1, t1, sh, s):
  """m1/t1 are the magnitude mask and threshold of w0 at sparsity s."""
  n = dprod(sh) if c.symbolic else _np_prod(sh)
  k = maxz(rnd(toreal(zi(n)) * (1 - val(s))) if c.symbolic else round(n * (1 - float(s))), 1)
  kth = c.kth_largest_abs(w0, k)
  return And(eq(val(t1), kth), c.forall(sh, lambda *i: eq(el(m1, *i), If(ge(absz(el(w0, *i)), kth, 0), 1, 0))))


@contract('P03', [IMPL + ':Pruning.conditional_mask_update', IMPL + ':Pruning._maybe_update_block_mask'],
          cases=120, deep=800)
def masks_follow_the_schedule(c):
  """Masks and thresholds change only when the schedule says so, each from its own weight; weights never."""
  n = c.choice('weights', [2, 1])
  vs = _vars(c, n, 1)
  s = c.real('sparsity', 0, 1, hi_strict=True)
  f = _flag(c, 'prune')
  seen = []

  def sched(step):
    seen.append(step)
    return f, s

  with _replica(c):
    p = _pruning(c, [(w, m, t) for _, w, m, t in vs], sched, step=7)
    old = [(snapshot(w), snapshot(m), snapshot(t)) for _, w, m, t in vs]
    p.conditional_mask_update()
  for (sh, w, m, t), (w0, m0, t0) in zip(vs, old):
    w1, m1, t1 = snapshot(w), snapshot(m), snapshot(t)
    c.prove('weights_untouched', _eqt(c, w1, w0, sh))
    c.prove('masks_updated_when_scheduled', Implies(val(f), _own_mask(c, w0, m1, t1, sh, s)))
    c.prove('masks_kept_otherwise', Or(val(f), And(_eqt(c, m1, m0, sh), eq(val(t1), val(t0)))))
  c.prove('schedule_asked_at_the_current_step', bool(seen) and all(x == 7 for x in seen))


@contract('P06', [IMPL + ':Pruning.weight_mask_op', IMPL + ':Pruning._weight_assign_objs'], cases=120, deep=800)
def weights_are_masked(c):
  """The masking step multiplies every weight by its own mask and changes nothing else."""
  n = c.choice('weights', [2, 1, 0, 3])
  vs = _vars(c, n, c.choice('rank', [2, 1, 4]))
  with _replica(c):
    p = _pruning(c, [(w, m, t) for _, w, m, t in vs], lambda step: (True, 0.5))
    old = [(snapshot(w), snapshot(m), snapshot(t)) for _, w, m, t in vs]
    p.weight_mask_op()
  for (sh, w, m, t), (w0, m0, t0) in zip(vs, old):
    w1 = snapshot(w)
    c.prove('weights_masked', c.forall(sh, lambda *i: eq(el(w1, *i), el(w0, *i) * el(m0, *i))))
    c.prove('masks_untouched', And(_eqt(c, snapshot(m), m0, sh), eq(val(snapshot(t)), val(t0))))
  c.prove('no_failure', True)


class _Inner:
  """The wrapped layer: records how it was called and with which weights."""

  def __init__(self, vs):
    self.vs, self.seen, self.name = vs, [], 'inner'

  def call(self, inputs, training=None, mask=None):
    self.seen.append((inputs, training, mask, [snapshot(w) for _, w, _, _ in self.vs]))
    return ('out', inputs)


class _InnerNoTraining(_Inner):

  def call(self, inputs, mask=None):   # pylint: disable=arguments-differ
    self.seen.append((inputs, 'none', mask, [snapshot(w) for _, w, _, _ in self.vs]))
    return ('out', inputs)


class _WState:
  """State of the wrapper without Keras; every method is the real class's."""

  def __init__(self, cls, **kw):
    self.__dict__.update(kw)
    object.__setattr__(self, '_cls', cls)

  def __getattr__(self, n):
    import types
    a = getattr(object.__getattribute__(self, '_cls'), n)
    return types.MethodType(a, self) if isinstance(a, types.FunctionType) else a


@contract('P06', [WRP + ':PruneLowMagnitude.call', IMPL + ':Pruning.conditional_mask_update',
                  IMPL + ':Pruning.weight_mask_op'], cases=160, deep=1000)
def wrapper_call_step(c):
  """One call from any state: step count, mask update, masked weights, inner call; inference changes no mask."""
  n = c.choice('weights', [1, 2])
  vs = _vars(c, n, 1)
  tr = c.choice('training', [True, False, None])
  takes = c.choice('layer_takes_training', [True, False])
  mbn = c.choice('m_by_n', [False, True]) if not c.symbolic else False
  s = c.real('sparsity', 0, 1, hi_strict=True)
  f = _flag(c, 'prune')
  step = c.var('step', [], 'int64', gen=lambda r, k: [r.choice([-1, 0, 0, 1, 5])])
  s0 = snapshot(step)
  asked = []

  def sched(st):
    asked.append(val(snapshot(st) if hasattr(st, 'assign') else st))
    return f, s

  inner = (_Inner if takes else _InnerNoTraining)(vs)
  import tensorflow as tf
  pv = [(w, m, t) for _, w, m, t in vs]
  p = _pruning(c, pv, sched, step=step)
  ups = []
  st = _WState(_mod(WRP).PruneLowMagnitude, layer=inner, pruning_obj=p, pruning_step=step, pruning_vars=pv,
               pruning_schedule=sched, add_update=ups.append)
  old = [(snapshot(w), snapshot(m), snapshot(t)) for _, w, m, t in vs]
  x = object()
  with _replica(c):
    e, out = c.raises(st.call, x, training=tr, mask='M')
  s1 = snapshot(step)
  eff = bool(tr)
  if not eff:
    c.prove('inference_never_fails', e is None)
    c.prove('inference_keeps_the_step', eq(val(s1), val(s0)))
  else:
    c.prove('training_advances_the_step_by_one', eq(val(s1), val(s0) + 1))
    c.prove('missing_callback_reported', Iff(val(s0) < 0, e is not None) if isz(val(s0)) else (
        (val(s0) < 0) == (e is not None)))
  if e is not None:
    c.prove('only_the_callback_error', type(e).__name__ == 'InvalidArgumentError' and 'UpdatePruningStep' in str(e))
    return
  for k, ((sh, w, m, t), (w0, m0, t0)) in enumerate(zip(vs, old)):
    w1, m1, t1 = snapshot(w), snapshot(m), snapshot(t)
    if eff:
      c.prove('masks_updated_when_scheduled', Implies(val(f), _own_mask(c, w0, m1, t1, sh, s)))
      c.prove('masks_kept_otherwise', Or(val(f), And(_eqt(c, m1, m0, sh), eq(val(t1), val(t0)))))
    else:
      c.prove('inference_keeps_the_masks', And(_eqt(c, m1, m0, sh), eq(val(t1), val(t0))))
    c.prove('weights_masked_with_the_current_mask', c.forall(sh, lambda *i: eq(
        el(w1, *i), el(w0, *i) * el(m1, *i))))
    c.prove('layer_computes_with_masked_weights', len(inner.seen) == 1 and _eqt(c, inner.seen[0][3][k], w1, sh))
  c.prove('layer_called_once_with_the_inputs', out == ('out', x) and inner.seen[0][0] is x and inner.seen[0][2] == 'M')
  c.prove('training_flag_forwarded', inner.seen[0][1] == 'none' if not takes else (
      inner.seen[0][1] is tr if tr is not None else not inner.seen[0][1]))
  if eff:
    c.prove('schedule_asked_at_the_new_step', And(len(asked) > 0, *[eq(a, val(s1)) for a in asked]))


@contract('P06', [IMPL + ':Pruning.conditional_mask_update', IMPL + ':Pruning._update_mask_sparsity_m_by_n'],
          cases=80, deep=500)
def m_by_n_masks_only_at_step_one(c):
  """m:n masks are computed at training step 1 only, whatever the schedule says."""
  sh = [c.dim('rows', 1, 4), c.dim('cols', 1, 4)]
  w = c.var('w', sh)
  m = c.var('m', sh, gen=lambda r, n_: [r.choice([0.0, 1.0]) for _ in range(n_)])
  t = c.var('t', [])
  step = c.var('step', [], 'int64', gen=lambda r, k: [r.choice([0, 1, 1, 2, 5])])
  made = []

  def prepare(weights, m_by_n=(2, 4)):
    made.append((weights, m_by_n))
    return c.tensor('fresh', sh) if c.symbolic else weights * 0 + 1

  p = _pruning(c, [(w, m, t)], lambda s: (c.choice('schedule_says', [True, False]), 0.5), mbn=(2, 4), step=step)
  p._update_mask_sparsity_m_by_n = prepare   # own contract: P04
  m0 = snapshot(m)
  fresh = prepare(w)
  del made[:]
  p.conditional_mask_update()
  m1 = snapshot(m)
  one = eq(val(snapshot(step)), 1)
  c.prove('updated_at_step_one', Implies(one, _eqt(c, m1, fresh, sh)))
  c.prove('kept_at_every_other_step', Or(one, _eqt(c, m1, m0, sh)))
  c.prove('pattern_forwarded', all(tuple(q) == (2, 4) for _, q in made))


class _Layers:

  def __init__(self, layers):
    self.layers = layers


def _wrapped(cls, **kw):
  o = object.__new__(type('PruneLowMagnitude', (cls,), {
      '__init__': lambda s: None, '__setattr__': object.__setattr__, '__getattribute__': object.__getattribute__,
      **kw}))
  return o


@contract('P06', [CBK + ':UpdatePruningStep.on_train_begin', CBK + ':UpdatePruningStep.on_epoch_end',
                  WRP + ':collect_prunable_layers'], cases=120, deep=600)
def callback_steps_and_masks(c):
  """A fresh model starts at step 0, a restored one keeps its step; every epoch ends with masked weights."""
  import numpy as np
  cls = _mod(WRP).PruneLowMagnitude
  keras = _mod('keras.compat').keras
  n = c.choice('pruned_layers', [2, 1, 0])
  nested = c.choice('nested', [False, True])
  fresh = c.choice('fresh', [True, False])
  layers, info = [], []
  for k in range(n):
    sh = [c.dim('d%d' % k, 1, 3)]
    w, m = c.var('w%d' % k, sh), c.var('m%d' % k, sh, gen=lambda r, n_: [r.choice([0.0, 1.0]) for _ in range(n_)])
    t = c.var('t%d' % k, [])
    if fresh:
      if c.symbolic:
        st = Variable(lift(ops.OPS['constant'](-1, 'int64')), 'step%d' % k)
      else:
        import tensorflow as tf
        st = tf.Variable(-1, dtype='int64')
    else:
      st = c.var('step%d' % k, [], 'int64', gen=lambda r, j: [r.choice([0, 1, 7])])
      if c.symbolic:
        c.assume(val(snapshot(st)) >= 0)
    p = _pruning(c, [(w, m, t)], lambda step: (True, 0.5))
    layers.append(_wrapped(cls, pruning_step=st, pruning_obj=p))
    info.append((sh, w, m, t, st, snapshot(w), snapshot(m), snapshot(st)))
  if nested and n:
    inner = _wrapped(keras.Model, layers=layers[1:])
    model = _Layers([object(), layers[0], inner])
  else:
    model = _Layers([object()] + layers)
  cb = _mod(CBK).UpdatePruningStep()
  cb.model = model
  cb.on_train_begin()
  c.prove('all_pruned_layers_found', len(cb.prunable_layers) == n and all(a is b for a, b in zip(
      cb.prunable_layers, layers)))
  for sh, w, m, t, st, w0, m0, s0 in info:
    c.prove('fresh_steps_start_at_zero', eq(val(snapshot(st)), 0 if fresh else val(s0)))
    c.prove('training_start_leaves_weights_and_masks', And(_eqt(c, snapshot(w), w0, sh), _eqt(c, snapshot(m), m0, sh)))
  s1 = [val(snapshot(st)) for _, _, _, _, st, _, _, _ in info]
  cb.on_epoch_end(0)
  for k, (sh, w, m, t, st, w0, m0, _) in enumerate(info):
    w1 = snapshot(w)
    c.prove('weights_masked_at_epoch_end', c.forall(sh, lambda *i: eq(el(w1, *i), el(w0, *i) * el(m0, *i))))
    c.prove('masks_and_steps_kept', And(_eqt(c, snapshot(m), m0, sh), eq(val(snapshot(st)), s1[k])))


@contract('P06', [WRP + ':PruneLowMagnitude.build'], cases=80, deep=500,
          note='Layer.add_weight by its contract: a variable with the initial value of the initializer')
def build_state(c):
  """The state build leaves behind: masks of ones, step -1, and settings handed to the pruner (induction base)."""
  import inspect
  from dv import core as dvc
  keras, W = _keras(), _mod(WRP).PruneLowMagnitude
  impl, prunable = _mod(IMPL), _mod('sparsity.keras.prunable_layer')
  n = c.choice('weights', [2, 1, 0])
  vs = []
  for k in range(n):
    sh = [c.dim('d%d_%d' % (k, j), 1, 4) for j in range(2)]
    vs.append((sh, c.var('w%d' % k, sh)))
  bias = c.var('bias', [2])
  block = c.choice('block', [(1, 1), (2, 3)])
  pool = c.choice('pooling', ['MAX', 'AVG'])
  mbn = c.choice('m_by_n', [None, (2, 4), (1, 2)])
  sched = _sched().ConstantSparsity(0.5, 3)

  class Layer(keras.layers.Dense, prunable.PrunableLayer):

    def get_prunable_weights(self):
      return [w for _, w in vs]

  layer = Layer(2)
  layer.built = True
  layer.kernel, layer.bias = bias, bias
  x = W(layer, sched, block, pool, mbn)
  real, sig = x.add_weight, inspect.signature(keras.layers.Layer.add_weight)
  made, gave = {}, []

  def add_weight(*a, **k):
    b = sig.bind(None, *a, **k).arguments
    if not c.symbolic:
      v = real(*a, **k)
    else:
      i = keras.initializers.get(b.get('initializer'))
      const = {'Ones': 1, 'Zeros': 0}.get(type(i).__name__, getattr(i, 'value', None))
      if const is None:
        raise dvc.Unsupported('initializer of a variable')
      v = Variable(ops.OPS['cast'](ops.OPS['fill'](list(b['shape'] or ()), float(const)), b.get('dtype') or 'float32'))
    made[id(v)] = (b.get('trainable'), v)
    return v

  cls = impl.Pruning
  psig = inspect.signature(cls.__init__)

  def make(*a, **k):
    bound = psig.bind(None, *a, **k)
    bound.apply_defaults()
    gave.append(bound.arguments)
    return ('pruner', len(gave))

  object.__setattr__(x, 'add_weight', add_weight)
  old = [snapshot(w) for _, w in vs]
  impl.Pruning = make
  try:
    x.build((None, 4))
  finally:
    impl.Pruning = cls
  pv, step = list(x.pruning_vars), x.pruning_step
  c.prove('one_mask_and_threshold_per_prunable_weight', len(pv) == n and all(a is w for (a, _, _), (_, w) in zip(pv, vs)))
  seen = [step]
  for (w, m, t), (sh, _), w0 in zip(pv, vs, old):
    seen += [m, t]
    c.prove('weights_untouched', _eqt(c, snapshot(w), w0, sh))
    c.prove('nothing_is_masked_yet', And(same_shape(m, w0), c.forall(sh, lambda *i: eq(el(snapshot(m), *i), 1))))
    c.prove('threshold_starts_at_zero', eq(val(snapshot(t)), 0))
  c.prove('no_step_counted_yet', eq(val(snapshot(step)), -1))
  c.prove('fresh_untrained_variables', len({id(v) for v in seen}) == 2 * n + 1 and all(
      id(v) in made and made[id(v)][0] is False for v in seen))
  g = gave[0] if gave else {}
  c.prove('pruner_gets_the_settings', len(gave) == 1 and x.pruning_obj == ('pruner', 1) and
          g['pruning_schedule'] is sched and tuple(g['block_size']) == block and g['block_pooling_type'] == pool and
          g['sparsity_m_by_n'] == mbn and len(g['pruning_vars']) == n and all(
              a is b for p_, q_ in zip(g['pruning_vars'], pv) for a, b in zip(p_, q_)))
  c.prove('pruner_reads_the_counted_step', g['training_step_fn']() is step)


@contract('P06', [WRP + ':PruneLowMagnitude.call', IMPL + ':Pruning.conditional_mask_update',
                  IMPL + ':Pruning._weight_assign_objs'], mode='bounded', cases=1, deep=6,
          note='twelve pruned dense layers run three steps each on two replicas (mirrored strategy, two logical CPUs)')
def two_replicas(c):
  """Under a distribution strategy every replica holds the same mask and the same masked weights."""
  import json
  import os
  import subprocess
  import sys
  here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  p = subprocess.run([sys.executable, os.path.join(here, 'tools', 'two_replicas.py'), os.environ.get('DV_REPO', '/repo'), '12',
                      str(c.int('seed', 0, 10**6))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=500)
  lines = [json.loads(l) for l in p.stdout.decode().splitlines() if l.startswith('{')]
  for l in lines:
    c.prove('replicas_agree_on_mask_and_weights', not l['fails'], info='%s: %s' % (l['case'], l['fails'][:3]))
  c.prove('runs_on_two_replicas', len(lines) == 12, info=p.stderr.decode()[-600:])


# --- wrapper configuration, stripping ------------------------------------------
def _tfm():
  import tensorflow as tf
  return tf


def _keras():
  return _mod('keras.compat').keras


@contract('P07', [WRP + ':PruneLowMagnitude.get_config', WRP + ':PruneLowMagnitude.from_config',
                  WRP + ':PruneLowMagnitude.__init__', SCH + ':ConstantSparsity.get_config',
                  SCH + ':PolynomialDecay.get_config', SCH + ':PruningSchedule.from_config'],
          mode='bounded', cases=80, deep=400,
          note='runs the Keras base classes: 4 layer types x schedules x block/m:n settings, real objects')
def wrapper_round_trip(c):
  """from_config(get_config()) is a wrapper with the same layer, schedule, block, pooling and m:n pattern."""
  keras, S = _keras(), _sched()
  W = _mod(WRP).PruneLowMagnitude
  kind = c.choice('layer', ['Dense', 'Conv2D', 'LSTM', 'Embedding'])
  layer = {'Dense': lambda: keras.layers.Dense(4, activation='relu'), 'Conv2D': lambda: keras.layers.Conv2D(3, 2),
           'LSTM': lambda: keras.layers.LSTM(2), 'Embedding': lambda: keras.layers.Embedding(5, 2)}[kind]()
  sp = c.choice('target', [0.0, 0.5, 0.875])
  begin, freq = c.int('begin', 0, 50), c.int('freq', 1, 20)
  end = c.choice('end', [-1, 60, 200])
  poly = c.choice('polynomial', [False, True])
  power = c.choice('power', [3, 1, 2.5])
  init = c.choice('initial', [0.25, 0.0])
  if poly:
    end = 60 if end == -1 else end
    sch = S.PolynomialDecay(init, sp, begin, end, power, freq)
  else:
    sch = S.ConstantSparsity(sp, begin, end, freq)
  block = c.choice('block', [(1, 1), (2, 4), (4, 1)])
  pool = c.choice('pool', ['AVG', 'MAX'])
  mbn = c.choice('m_by_n', [None, (2, 4), (1, 2)])
  w = W(layer, sch, block, pool, mbn)
  cfg = w.get_config()
  keep = str(cfg)
  via = c.choice('via_json', [False, True])
  if via:
    import json
    cfg2 = json.loads(json.dumps(cfg))
  else:
    cfg2 = cfg
  r = W.from_config(cfg2)
  c.prove('config_not_consumed', str(cfg) == keep)
  c.prove('settings_kept', tuple(r.block_size) == block and r.block_pooling_type == pool and (
      r.sparsity_m_by_n is None if mbn is None else tuple(r.sparsity_m_by_n) == mbn))
  a, b = w.pruning_schedule, r.pruning_schedule
  c.prove('schedule_kept', type(a) is type(b) and a.__dict__ == b.__dict__)
  c.prove('layer_kept', type(r.layer) is type(layer) and r.layer.get_config() == layer.get_config())
  c.prove('same_name', r.name == w.name)
  for bad in ('SUM', None, 'avg'):
    e, _ = c.raises(W, keras.layers.Dense(2), sch, block, bad)
    c.prove('unknown_pooling_rejected', isinstance(e, ValueError))
  e, _ = c.raises(W, object(), sch)
  c.prove('non_layers_rejected', isinstance(e, ValueError))


@contract('P07', [WRP + ':PruneLowMagnitude.get_config', WRP + ':PruneLowMagnitude.from_config',
                  WRP + ':PruneLowMagnitude.__init__', SCH + ':ConstantSparsity.get_config',
                  SCH + ':PolynomialDecay.get_config', SCH + ':PruningSchedule.from_config',
                  SCH + ':ConstantSparsity.__init__', SCH + ':PolynomialDecay.__init__'], cases=60, deep=300,
          note='the wrapped layer is a real Keras layer of one of four classes; its own configuration is concrete')
def wrapper_round_trip_all_settings(c):
  """For every schedule, block size and m:n pattern the rebuilt wrapper has the same settings and schedule."""
  keras, S = _keras(), _sched()
  W = _mod(WRP).PruneLowMagnitude
  kind = c.choice('layer', ['Dense', 'Conv2D', 'LSTM', 'Embedding'])
  layer = {'Dense': lambda: keras.layers.Dense(4, activation='relu'), 'Conv2D': lambda: keras.layers.Conv2D(3, 2),
           'LSTM': lambda: keras.layers.LSTM(2), 'Embedding': lambda: keras.layers.Embedding(5, 2)}[kind]()
  poly = c.choice('polynomial', [False, True])
  begin, end, freq = _window(c)
  b, e, f = val(begin), val(end), val(freq)
  c.assume(And(Or(eq(e, -1), le(b, e)), Or(not poly, ge(e, 0))))
  tgt = c.real('target', 0, 1, hi_strict=True)
  init, power = c.real('initial', 0, 1, hi_strict=True), c.real('power', 0, 8, lo_strict=True)
  hi = None if c.symbolic else 9
  block = (c.int('bh', 1, hi), c.int('bw', 1, hi))
  pool = c.choice('pool', ['AVG', 'MAX'])
  m, n = c.int('m', 0, hi), c.int('n', 1, hi)
  mbn = (m, n) if c.choice('m_by_n', [False, True]) else None
  mk = lambda: (S.PolynomialDecay(init, tgt, begin, end, power, freq) if poly else S.ConstantSparsity(tgt, begin, end, freq))
  sch = mk()
  w = W(layer, sch, block, pool, mbn)
  cfg = w.get_config()
  r = W.from_config(cfg)
  for x in (w, r):
    c.prove('block_size_kept', And(len(x.block_size) == 2, *[eq(val(p), val(q)) for p, q in zip(x.block_size, block)]))
    c.prove('pooling_kept', x.block_pooling_type == pool)
    g = x.sparsity_m_by_n
    c.prove('m_by_n_kept', g is None if mbn is None else And(len(g) == 2, *[eq(val(p), val(q)) for p, q in zip(g, mbn)]))
  q = r.pruning_schedule
  c.prove('schedule_class_kept', type(q) is type(sch))
  step = c.int('step', None if c.symbolic else 0, None if c.symbolic else 100)
  t = _tfm().constant(step) if not c.symbolic else step
  (p0, s0), (p1, s1) = sch(t), q(t)
  c.prove('schedule_kept', And(Iff(val(p0), val(p1)), eq(val(s0), val(s1))))
  c.prove('schedule_settings_kept', And(set(q.__dict__) == set(sch.__dict__), *[
      eq(val(a), val(q.__dict__.get(k))) for k, a in sch.__dict__.items() if not isinstance(a, str)]))
  c.prove('layer_kept', type(r.layer) is type(layer) and r.layer.get_config() == layer.get_config())
  c.prove('same_name', r.name == w.name)
  c.prove('config_keeps_schedule', set(w.get_config()) == set(cfg))


@contract('P07', [PRN + ':prune_low_magnitude', WRP + ':PruneLowMagnitude.__init__'], cases=60, deep=300,
          note='real Keras layers; the list, or the sequential model that is not built yet, has up to 4 layers. '
               'Assumed: keras.models.clone_model calls its clone function on every layer')
def settings_reach_every_wrapper(c):
  """Layers, lists and models: each layer is wrapped once, by a wrapper with the schedule, block and pattern given."""
  keras, S, P = _keras(), _sched(), _mod(PRN)
  W, L = _mod(WRP).PruneLowMagnitude, keras.layers
  hi = None if c.symbolic else 9
  block = (c.int('bh', 1, hi), c.int('bw', 1, hi))
  pool = c.choice('pool', ['AVG', 'MAX'])
  mbn = (c.int('m', 0, hi), c.int('n', 1, hi)) if c.choice('m_by_n', [False, True]) else None
  sch = S.ConstantSparsity(c.real('target', 0, 1, hi_strict=True), c.int('begin', 0, hi))
  other = S.ConstantSparsity(0.25, 3)
  kw = dict(pruning_schedule=sch, block_size=block, block_pooling_type=pool, sparsity_m_by_n=mbn)
  what = c.choice('what', ['layer', 'list', 'model', 'wrong'])
  if what == 'wrong':
    e, _ = c.raises(P.prune_low_magnitude, c.choice('wrong', [None, 3, 'Dense', object(), (L.Dense(2),)]), **kw)
    c.prove('what_is_no_layer_or_model_is_rejected', isinstance(e, ValueError))
    return
  layers = [L.Dense(3, name='a'), L.ReLU(name='b'), W(L.Dense(2), other, (2, 3), 'MAX', name='c'), L.Conv2D(2, 1, name='d')]
  if what == 'layer':
    named = c.choice('named', [False, True])
    l = layers[c.choice('which', [0, 1, 3])]
    w = P.prune_low_magnitude(l, **kw, **({'dtype': 'float16'} if named else {}))
    out, layers = [w], [l]
    c.prove('keyword_arguments_reach_the_wrapper', not named or w.dtype == 'float16')
  elif what == 'list':
    layers = layers[:c.choice('length', [0, 1, 2, 3, 4])] + ([L.InputLayer((3,))] if c.choice('input', [0, 1]) else [])
    out = P.prune_low_magnitude(layers, **kw)
    c.prove('a_list', isinstance(out, list))
  else:
    layers = layers[:c.choice('length', [1, 2, 3, 4])]
    m = keras.Sequential(layers)
    r = P.prune_low_magnitude(m, **kw)
    out = r.layers
    c.prove('another_model', r is not m and isinstance(r, keras.Sequential) and all(a is b for a, b in zip(m.layers, layers)))
  c.prove('one_each', len(out) == len(layers))
  for w, l in zip(out, layers):
    if isinstance(l, L.InputLayer):
      c.prove('input_layers_are_not_wrapped', isinstance(w, L.InputLayer) and w.get_config() == l.get_config())
    elif isinstance(l, W):
      c.prove('wrappers_are_used_as_they_are', w is l and w.pruning_schedule is other and w.block_size == (2, 3))
    else:
      c.prove('wrapped_once', type(w) is W and w.layer is l)
      c.prove('schedule_given', w.pruning_schedule is sch)
      c.prove('block_given', And(*[eq(val(p), val(q)) for p, q in zip(w.block_size, block)]))
      c.prove('pooling_given', w.block_pooling_type == pool)
      c.prove('m_by_n_given', w.sparsity_m_by_n is None if mbn is None else And(*[
          eq(val(p), val(q)) for p, q in zip(w.sparsity_m_by_n, mbn)]))


def _small_model(c, tag=''):
  """A random small model: list of layers used, sequential or functional, optionally nested."""
  keras = _keras()
  L = keras.layers
  kinds = [c.choice('l%d%s' % (k, tag), ['Dense', 'Dense', 'BatchNormalization', 'Dropout', 'ReLU']) for k in range(3)]
  shape = c.choice('shape' + tag, ['sequential', 'functional', 'branch', 'nested', 'conv'])
  mk = {'Dense': lambda: L.Dense(4, activation='relu'), 'BatchNormalization': L.BatchNormalization,
        'Dropout': lambda: L.Dropout(0.2), 'ReLU': L.ReLU}
  if shape == 'conv':
    m = keras.Sequential([L.Conv2D(3, 2, input_shape=(4, 4, 2)), L.BatchNormalization(), L.ReLU(), L.Flatten(), L.Dense(2)])
    return m, (4, 4, 2)
  if shape == 'sequential':
    return keras.Sequential([L.Dense(5, input_shape=(3,))] + [mk[k]() for k in kinds] + [L.Dense(2)]), (3,)
  i = L.Input((3,))
  x = L.Dense(5)(i)
  if shape == 'functional':
    for k in kinds:
      x = mk[k]()(x)
    return keras.Model(i, L.Dense(2)(x)), (3,)
  if shape == 'branch':
    a, b = mk[kinds[0]](), L.Dense(5)
    y = L.Add()([L.Dense(5)(a(x)), b(x)])
    return keras.Model(i, [L.Dense(2)(mk[kinds[1]]()(y)), y]), (3,)
  inner = keras.Sequential([L.Dense(4, input_shape=(5,)), mk[kinds[0]]()])
  return keras.Model(i, L.Dense(2)(inner(mk[kinds[1]]()(x)))), (3,)


def _randomise(c, model, tag='rnd'):
  import numpy as np
  r = np.random.RandomState(c.int(tag, 0, 10 ** 6))
  for v in model.variables:
    a = r.uniform(0.1, 1.0, v.shape) * r.choice([-1, 1], v.shape)
    if 'variance' in v.name:
      a = np.abs(a) + 0.5
    if 'int' not in v.dtype.name:
      v.assign(a.astype('float32'))


def _batch(shape, n=3):
  import numpy as np
  r = np.random.RandomState(5)
  return r.uniform(-1, 1, (n,) + shape).astype('float32')


def _flat_layers(m):
  keras = _keras()
  out = []
  for l in m.layers:
    out += _flat_layers(l) if isinstance(l, keras.Model) else [l]
  return out


@contract('P07', [PRN + ':prune_low_magnitude', PRN + ':strip_pruning'], mode='bounded', cases=16, deep=80,
          note='whole Keras models: up to 7 layers, sequential/functional/branching/nested, 3 training steps')
def prune_train_strip(c):
  """prune -> train -> strip: same layers and architecture, weights = masked weights, same outputs; no wrapper left."""
  import numpy as np
  import tensorflow as tf
  keras = _keras()
  PR, S = _mod(PRN), _sched()
  W = _mod(WRP).PruneLowMagnitude
  tf.random.set_seed(3)
  m, shape = _small_model(c)
  _randomise(c, m)
  names = [l.name for l in _flat_layers(m)]
  classes = [type(l) for l in _flat_layers(m)]
  sp = c.choice('target', [0.5, 0.75, 0.25])
  x = _batch(shape)
  y0 = m(x)
  freq = c.choice('freq', [1, 2])
  pm = PR.prune_low_magnitude(m, pruning_schedule=S.ConstantSparsity(sp, 0, -1, freq))
  fl = [l for l in _flat_layers(pm)]
  c.prove('every_layer_wrapped', all(isinstance(l, W) for l in fl if not isinstance(l, keras.layers.InputLayer)))
  yp = pm(x)
  flat = lambda t: [np.asarray(a) for a in (t if isinstance(t, (list, tuple)) else [t])]
  c.prove('wrapping_keeps_the_outputs', all(np.allclose(a, b, atol=1e-6) for a, b in zip(flat(y0), flat(yp))))
  steps = c.int('steps', 0, 3)
  if steps:
    pm.compile('sgd', 'mse')
    ts = [np.zeros((3,) + tuple(o.shape[1:]), 'float32') for o in pm.outputs]
    pm.fit(x, ts if len(ts) > 1 else ts[0], batch_size=3, epochs=steps, verbose=0,
           callbacks=[_mod(CBK).UpdatePruningStep()])
  pv = [(l, w.numpy(), mk.numpy()) for l in fl if isinstance(l, W) for w, mk, _ in l.pruning_vars]
  c.prove('trained_weights_are_masked', all(np.all(w[mk == 0] == 0) for _, w, mk in pv))
  if steps and (freq == 1 or steps > 1):
    for _, w, mk in pv:
      k = max(round(w.size * (1 - sp)), 1)
      c.prove('target_sparsity_reached', int(mk.sum()) == k or len(np.unique(np.abs(w[mk == 1]))) < k)
  y1 = flat(pm(x, training=False))
  before = [[np.array(v) for v in l.layer.get_weights()] for l in fl if isinstance(l, W)]
  sm = PR.strip_pruning(pm)
  sl = _flat_layers(sm)
  c.prove('no_wrapper_left', not any(isinstance(l, W) for l in sl))
  c.prove('same_layers', [l.name for l in sl] == names and [type(l) for l in sl] == classes)
  core_ = [l for l in sl if not isinstance(l, keras.layers.InputLayer)]
  c.prove('weights_kept', len(core_) == len(before) and all(len(l.get_weights()) == len(b) and all(np.array_equal(
      p, q) for p, q in zip(l.get_weights(), b)) for l, b in zip(core_, before)))
  c.prove('outputs_kept', all(np.allclose(a, b, atol=1e-6) for a, b in zip(flat(sm(x, training=False)), y1)))


# --- policy ----------------------------------------------------------------------
def _bare(keras, klass, **kw):
  """An instance of the layer class with only the attributes a policy looks at."""
  cls = getattr(keras.layers, klass)
  ns = {'__init__': lambda s: None, '__setattr__': object.__setattr__, '__class__': property(lambda s: cls)}
  ns.update({k: v for k, v in kw.items() if not callable(v)})
  o = object.__new__(type(klass, (cls,), ns))
  o.__dict__.update(kw)
  return o


def _pair(c, name, lo=1, hi=6):
  return (c.int(name + '_h', lo, hi), c.int(name + '_w', lo, hi))


def _is2(p, a, b):
  return And(eq(val(p[0]), a), eq(val(p[1]), b))


@contract('P08', [POL + ':PruneForLatencyOnXNNPack._check_layer_support',
                  POL + ':PruneForLatencyOnXNNPack.allow_pruning',
                  POL + ':PruneForLatencyOnXNNPack._get_producers'], cases=400, deep=3000, opts={'max_paths': 20000})
def convolution_support(c):
  """Which (depthwise) convolutions XNNPack runs sparse: for all kernel sizes, strides, dilations and paddings."""
  keras = _keras()
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  kind = c.choice('kind', ['Conv2D', 'DepthwiseConv2D', 'start'])
  k, st, di = _pair(c, 'kernel'), _pair(c, 'stride', 1, 3), _pair(c, 'dilation', 1, 2)
  pad = c.choice('padding', ['same', 'valid', 'VALID', 'SAME'])
  prod = c.choice('producer', ['none', 'zero_padding', 'zero_padding_and_other', 'other'])
  zp = (_pair(c, 'pad_top', 0, 3), _pair(c, 'pad_left', 0, 3)) if prod.startswith('zero') else None
  z = _bare(keras, 'ZeroPadding2D', padding=zp) if zp else None
  o = _bare(keras, 'ReLU')
  inb = {'none': [], 'zero_padding': [z], 'zero_padding_and_other': [z, o], 'other': [o]}[prod]
  import types
  as_list = c.choice('inbound_as_list', [True, False])
  nodes = [types.SimpleNamespace(inbound_layers=[p] if as_list else p) for p in inb]
  one = prod == 'zero_padding'
  if kind == 'Conv2D':
    g = c.int('groups', 1, 3)
    layer = _bare(keras, 'Conv2D', kernel_size=k, strides=st, dilation_rate=di, padding=pad, groups=g,
                  _inbound_nodes=nodes)
    got = bool(pol._check_layer_support(layer))
    want = And(eq(val(g), 1), _is2(di, 1, 1), _is2(k, 1, 1), _is2(st, 1, 1))
    c.prove('pointwise_convolutions_only', Iff(want, got) if isz(want) else bool(want) == got)
    al = bool(pol.allow_pruning(layer))
    w1 = _is2(k, 1, 1)
    c.prove('pruned_iff_kernel_is_1x1', Iff(w1, al) if isz(w1) else bool(w1) == al)
    return
  if kind == 'DepthwiseConv2D':
    dm = c.int('depth_multiplier', 1, 3)
    layer = _bare(keras, 'DepthwiseConv2D', kernel_size=k, strides=st, dilation_rate=di, padding=pad,
                  depth_multiplier=dm, _inbound_nodes=nodes)
    got = bool(pol._check_layer_support(layer))

    def zpad(n):
      return And(one, _is2(zp[0], n, n), _is2(zp[1], n, n)) if one else False

    s1, s2 = _is2(st, 1, 1), Or(_is2(st, 1, 1), _is2(st, 2, 2))
    low = pad.lower()
    want = And(eq(val(dm), 1), _is2(di, 1, 1), Or(
        And(_is2(k, 3, 3), s1, low == 'same'), And(_is2(k, 3, 3), s2, low == 'valid', zpad(1)),
        And(_is2(k, 5, 5), s1, low == 'same'), And(_is2(k, 5, 5), s2, low == 'valid', zpad(2))))
    c.prove('depthwise_cases', Iff(want, got) if isz(want) else bool(want) == got)
    return
  ks = (c.int('kh', 2, 4), c.int('kw', 2, 4), c.int('kc', 2, 4), c.int('kf', 1, 4))
  layer = _bare(keras, 'Conv2D', kernel=types.SimpleNamespace(shape=ks), strides=st, padding=pad,
                _inbound_nodes=nodes)
  got = bool(pol._start_layer_stop_fn(layer))
  want = And(*[eq(val(v), 3) for v in ks[:3]], _is2(st, 2, 2), pad.lower() == 'valid',
             And(_is2(zp[0], 1, 1), _is2(zp[1], 1, 1)) if one else False)
  c.prove('start_layer', Iff(want, got) if isz(want) else bool(want) == got)


@contract('P08', [POL + ':PruneForLatencyOnXNNPack._check_layer_support',
                  POL + ':PruneForLatencyOnXNNPack.allow_pruning'], cases=100, deep=400)
def other_layer_support(c):
  """Elementwise layers are supported, the parameterised ones under their condition, all others rejected."""
  keras = _keras()
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  plain = ['Add', 'Multiply', 'ZeroPadding2D', 'ReLU', 'LeakyReLU', 'ELU', 'Dropout']
  no = ['Dense', 'Conv1D', 'Conv3D', 'MaxPooling2D', 'AveragePooling2D', 'Flatten', 'Softmax', 'Concatenate', 'LSTM',
        'Embedding', 'PReLU', 'GlobalMaxPooling2D', 'Reshape']
  for n in plain + no:
    l = _bare(keras, n)
    c.prove('plain_layers', bool(pol._check_layer_support(l)) == (n in plain))
    c.prove('never_pruned', not pol.allow_pruning(l))
  kd = c.choice('keepdims', [True, False])
  c.prove('global_average_pooling_keeps_dims', bool(pol._check_layer_support(_bare(
      keras, 'GlobalAveragePooling2D', keepdims=kd))) == kd)
  ax = c.choice('axis', [[3], [1], [2], [1, 3], (3,)])
  c.prove('batch_norm_over_channels', bool(pol._check_layer_support(_bare(
      keras, 'BatchNormalization', axis=ax))) == (list(ax) == [3]))
  ip = c.choice('interpolation', ['bilinear', 'nearest'])
  c.prove('bilinear_upsampling', bool(pol._check_layer_support(_bare(
      keras, 'UpSampling2D', interpolation=ip))) == (ip == 'bilinear'))
  a = c.choice('activation', ['relu', 'relu6', 'elu', 'sigmoid', 'tanh', 'softmax', 'linear', 'swish'])
  import tensorflow as tf
  f = tf.nn.relu6 if a == 'relu6' else getattr(keras.activations, a)
  c.prove('activations', bool(pol._check_layer_support(_bare(keras, 'Activation', activation=f))) == (
      a in ('relu', 'relu6', 'elu', 'sigmoid')))
  w = _wrapped(_mod(WRP).PruneLowMagnitude, layer=_bare(keras, 'ReLU' if kd else 'Dense'))
  c.prove('wrapped_layers_judged_by_the_inner_one', bool(pol._check_layer_support(w)) == kd)


def _graph(c, hi):
  n = c.int('nodes', 1, hi)
  succ = {}
  for i in range(n):
    succ[i] = [j for j in range(n) if c.choice('e%d_%d' % (i, j), [False, False, True])]
  stop = [i for i in range(n) if c.choice('stop%d' % i, [False, True])]
  src = [i for i in range(n) if c.choice('src%d' % i, [False, True])] or [0]
  return n, succ, set(stop), src


@contract('P08', [POL + ':PruneForLatencyOnXNNPack._lookup_layers'], mode='bounded', cases=300, deep=3000,
          note='all graphs sampled up to 6 nodes (worklist loop over sets)')
def graph_search(c):
  """The search returns every reachable stop layer, or nothing when some branch ends without one."""
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  n, succ, stop, src = _graph(c, 6)
  got = pol._lookup_layers(list(src), lambda l: l in stop, lambda l: succ[l])
  seen, work, found, dead = set(src), list(src), set(), False
  while work:
    v = work.pop()
    if v in stop:
      found.add(v)
    elif not succ[v]:
      dead = True
    else:
      for w in succ[v]:
        if w not in seen:
          seen.add(w)
          work.append(w)
  c.prove('every_branch_must_reach_a_stop_layer', set(got) == (set() if dead else found))


@contract('P08', [POL + ':PruneForLatencyOnXNNPack._lookup_layers'], cases=1, deep=1, opts={'finite': True},
          note='every graph of up to three layers, with every set of stop layers and of sources')
def every_graph_search(c):
  """As graph_search, for every small graph."""
  import itertools
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  for n in (1, 2, 3):
    for bits in itertools.product([False, True], repeat=n * n):
      succ = {i: [j for j in range(n) if bits[i * n + j]] for i in range(n)}
      for st in itertools.product([False, True], repeat=n):
        stop = {i for i in range(n) if st[i]}
        for k in range(1, 2**n):
          src = [i for i in range(n) if k >> i & 1]
          got = pol._lookup_layers(list(src), lambda l: l in stop, lambda l: succ[l])
          seen, work = set(src), list(src)
          while work:
            v = work.pop()
            new = [w for w in succ[v] if w not in seen] if v not in stop else []
            seen.update(new)
            work += new
          dead = any(not succ[v] for v in seen - stop)
          if set(got) != (set() if dead else seen & stop):
            c.prove('every_branch_must_reach_a_stop_layer', False, info='%s stop %s from %s: %s' % (succ, stop, src, got))
  c.prove('every_branch_must_reach_a_stop_layer', True)


class _Lay:

  def __init__(self, kind_):
    self.kind = kind_
    self._inbound_nodes, self._outbound_nodes = [], []


def _paths(v, nxt, stop):
  """Do all ways from v reach a stop layer, and which ones first?"""
  if stop(v):
    return True, {v}
  ws = nxt(v)
  r = [_paths(w, nxt, stop) for w in ws]
  return bool(ws) and all(a for a, _ in r), set().union(*[b for _, b in r])


@contract('P08', [POL + ':PruneForLatencyOnXNNPack.' + f for f in (
    'ensure_model_supports_pruning', '_lookup_layers', '_get_consumers', '_get_producers')], cases=1, deep=1,
          opts={'finite': True}, note='every acyclic graph of up to four layers, each a start, end, supported or other layer '
          '(the per-layer answers by their contracts). Left out: an end layer before a start layer')
def every_small_model(c):
  """Accepted iff every input reaches a start, every output comes from an end, and all between is supported."""
  import itertools
  import types
  N = types.SimpleNamespace

  class Policy(_mod(POL).PruneForLatencyOnXNNPack):
    _start_layer_stop_fn = lambda s, l: l.kind == 's'
    _end_layer_stop_fn = lambda s, l: l.kind == 'e'
    _check_layer_support = lambda s, l: l.kind == 'y'

  pol = Policy()
  tried = ok = 0
  for n in (1, 2, 3, 4):
    pairs = [(i, j) for j in range(n) for i in range(j)]
    for kinds in itertools.product('seyn', repeat=n):
      if 's' not in kinds and kinds != ('y',) * n:
        continue
      for bits in itertools.product([False, True], repeat=len(pairs)):
        ls = [_Lay(k) for k in kinds]
        for (i, j), b in zip(pairs, bits):
          if b:
            node = N(inbound_layers=ls[i] if (i + j) % 2 else [ls[i]], outbound_layer=ls[j])
            ls[j]._inbound_nodes.append(node)
            ls[i]._outbound_nodes.append(node)
        fwd = lambda l: [x.outbound_layer for x in l._outbound_nodes]
        bwd = lambda l: [ls[i] for (i, j), b in zip(pairs, bits) if b and ls[j] is l]
        ins, outs = [l for l in ls if not bwd(l)], [l for l in ls if not fwd(l)]
        tens_ = lambda l: N(_keras_history=N(layer=l))
        m = N(_is_graph_network=True, built=True, inputs=[tens_(l) for l in ins], outputs=[tens_(l) for l in outs], layers=ls)
        f = [_paths(l, fwd, lambda v: v.kind == 's') for l in ins]
        b_ = [_paths(l, bwd, lambda v: v.kind == 'e') for l in outs]
        starts, ends = set().union(*[x for _, x in f]), set().union(*[x for _, x in b_])
        good = all(a for a, _ in f) and all(a for a, _ in b_)
        if good:
          seen, work = set(), [w for s in starts for w in fwd(s)]
          while work:
            v = work.pop()
            if v not in seen:
              seen.add(v)
              work += [] if v in ends else fwd(v)
          if any(v not in ends and not fwd(v) for v in seen) or not all(fwd(s) for s in starts):
            continue
          good = all(v in ends or v.kind == 'y' for v in seen)
        e, _ = c.raises(pol.ensure_model_supports_pruning, m)
        tried, ok = tried + 1, ok + good
        if (e is None) != good or not (e is None or isinstance(e, ValueError)):
          c.prove('accepted_iff_supported_between_start_and_end', False, info='%s %s: %r' % (
              kinds, [p for p, b in zip(pairs, bits) if b], e))
  c.prove('accepted_iff_supported_between_start_and_end', tried > 5000 and ok > 20, info='%d %d' % (tried, ok))
  seq = N(_is_graph_network=False, built=True, inputs=[], outputs=[], layers=[])
  c.prove('subclassed_and_unbuilt_models_rejected', all(isinstance(c.raises(pol.ensure_model_supports_pruning, x)[0], ValueError)
                                                       for x in (seq, _keras().Sequential([_keras().layers.ReLU()]))))


@contract('P08', [POL + ':PruneForLatencyOnXNNPack._check_layer_support'], mode='bounded', cases=1, deep=1,
          note='thirteen TensorFlow operations on Keras tensors')
def operation_layers(c):
  """TensorFlow operations in a model: identity, add, subtract and multiply are supported, others are not."""
  import tensorflow as tf
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  a, b = (_keras().Input((4, 4, 3)) for _ in range(2))
  of = lambda t: t._keras_history.layer
  for t in (tf.identity(a), a + b, tf.add(a, b), tf.math.add(a, b), a - b, tf.subtract(a, b), a * b, tf.multiply(a, b)):
    c.prove('supported', bool(pol._check_layer_support(of(t))), info=of(t).name)
  for t in (a / b, tf.exp(a), tf.reduce_mean(a, 1), tf.maximum(a, b), tf.transpose(a)):
    c.prove('not_supported', not pol._check_layer_support(of(t)), info=of(t).name)


@contract('P08', [POL + ':PruneForLatencyOnXNNPack.ensure_model_supports_pruning', PRN + ':prune_low_magnitude'],
          mode='bounded', cases=14, deep=60, note='whole Keras models built around the XNNPack pattern')
def policy_on_models(c):
  """The policy prunes exactly the 1x1 Conv2D layers of accepted models and rejects the others."""
  keras = _keras()
  L = keras.layers
  bad = c.choice('defect', ['none', 'none', 'dense_between', 'no_start', 'no_end', 'strided_pointwise', 'second_input',
                            'pool_drops_dims'])
  i = L.Input((9, 9, 3))
  x = L.ZeroPadding2D(1)(i)
  x = L.Conv2D(4, 3, strides=(1, 1) if bad == 'no_start' else (2, 2), padding='valid')(x)
  x = L.BatchNormalization()(x)
  x = L.ReLU()(x)
  for k in range(c.int('blocks', 1, 2)):
    y = L.DepthwiseConv2D(3, padding='same')(x)
    y = L.Conv2D(4, 1, strides=(2, 2) if bad == 'strided_pointwise' else (1, 1))(y)
    if bad == 'dense_between':
      y = L.Dense(4)(y)
    if c.choice('skip%d' % k, [True, False]) and bad != 'strided_pointwise':
      y = L.Add()([x, y])
    x = L.ReLU(6.0)(y)
  ins = [i]
  if bad == 'second_input':
    i2 = L.Input((9, 9, 4))
    z = L.Conv2D(4, 1)(i2)
    ins = [i, i2]
    x2 = L.GlobalAveragePooling2D(keepdims=True)(z)
  x = L.GlobalAveragePooling2D(keepdims=bad != 'pool_drops_dims')(x) if bad != 'no_end' else L.Flatten()(x)
  if bad == 'pool_drops_dims':
    x = L.Dense(2)(x)
  elif bad != 'no_end':
    x = L.Conv2D(2, 1)(x)
  outs = [x, x2] if bad == 'second_input' else [x]
  m = keras.Model(ins, outs)
  pol = _mod(POL).PruneForLatencyOnXNNPack()
  e, pm = c.raises(_mod(PRN).prune_low_magnitude, m, pruning_policy=pol)
  ok = bad in ('none', 'pool_drops_dims')
  c.prove('accepted_iff_supported', (e is None) == ok and (e is None or isinstance(e, ValueError)))
  if e is None:
    W = _mod(WRP).PruneLowMagnitude
    for l in pm.layers:
      inner = l.layer if isinstance(l, W) else l
      c.prove('only_pointwise_convolutions_pruned', isinstance(l, W) == (
          type(inner) is L.Conv2D and inner.kernel_size == (1, 1)))


# --- registry --------------------------------------------------------------------
_PR_K = {'Dense': 'kernel', 'Conv1D': 'kernel', 'Conv2D': 'kernel', 'Conv2DTranspose': 'kernel', 'Conv3D': 'kernel',
         'Conv3DTranspose': 'kernel', 'SeparableConv1D': 'pointwise_kernel', 'SeparableConv2D': 'pointwise_kernel',
         'Embedding': 'embeddings', 'LocallyConnected1D': 'kernel', 'LocallyConnected2D': 'kernel'}
_PR_0 = ['ELU', 'LeakyReLU', 'ReLU', 'Softmax', 'ThresholdedReLU', 'Cropping1D', 'Cropping2D', 'Cropping3D',
         'DepthwiseConv2D', 'UpSampling1D', 'UpSampling2D', 'UpSampling3D', 'ZeroPadding1D', 'ZeroPadding2D',
         'ZeroPadding3D', 'Activation', 'ActivityRegularization', 'Dropout', 'Flatten', 'Lambda', 'Masking', 'Permute',
         'RepeatVector', 'Reshape', 'SpatialDropout1D', 'SpatialDropout2D', 'SpatialDropout3D', 'Add', 'Average',
         'Concatenate', 'Dot', 'Maximum', 'Minimum', 'Multiply', 'Subtract', 'AlphaDropout', 'GaussianDropout',
         'GaussianNoise', 'BatchNormalization', 'LayerNormalization', 'AveragePooling1D', 'AveragePooling2D',
         'AveragePooling3D', 'GlobalAveragePooling1D', 'GlobalAveragePooling2D', 'GlobalAveragePooling3D',
         'GlobalMaxPooling1D', 'GlobalMaxPooling2D', 'GlobalMaxPooling3D', 'MaxPooling1D', 'MaxPooling2D',
         'MaxPooling3D']
_PR_NO = ['PReLU', 'ConvLSTM2D', 'Bidirectional', 'TimeDistributed', 'LSTMCell', 'AdditiveAttention']
_ATTR = ('kernel', 'bias', 'recurrent_kernel', 'pointwise_kernel', 'depthwise_kernel', 'embeddings', 'gamma', 'beta')


def _is_list(a, b):
  return len(a) == len(b) and all(x is y for x, y in zip(a, b))


@contract('P09', [REG + ':PruneRegistry.supports', REG + ':PruneRegistry.make_prunable'], cases=160, deep=800)
def prunable_weights(c):
  """Every supported layer offers exactly its kernels for pruning; unsupported ones are refused."""
  keras = _keras()
  R = _mod(REG).PruneRegistry
  names = sorted(_PR_K) + _PR_0 + _PR_NO
  todo = names if c.symbolic else [c.choice('layer', names)]
  for n in todo:
    w = {a: object() for a in _ATTR}
    l = _bare(keras, n, name='l', **w)
    ok = n not in _PR_NO
    c.prove('supported_layers', bool(R.supports(l)) == ok)
    if not ok:
      e, _ = c.raises(R.make_prunable, l)
      c.prove('unsupported_layer_rejected', isinstance(e, ValueError))
      continue
    r = R.make_prunable(l)
    c.prove('same_layer', r is l)
    new = {a: object() for a in _ATTR}
    l.__dict__.update(new)     # e.g. weights replaced after wrapping
    c.prove('exactly_the_kernels', _is_list(l.get_prunable_weights(), [new[_PR_K[n]]] if n in _PR_K else []))
    c.prove('nothing_else_changed', all(l.__dict__[a] is new[a] for a in _ATTR))


@contract('P09', [REG + ':PruneRegistry.supports', REG + ':PruneRegistry.make_prunable',
                  REG + ':PruneRegistry._get_rnn_cells', REG + ':PruneRegistry._is_rnn_layer'], cases=160, deep=800)
def prunable_recurrent_weights(c):
  """Recurrent layers offer kernel and recurrent kernel of every cell in order, custom cells what they declare."""
  keras = _keras()
  R = _mod(REG).PruneRegistry
  PL = _mod('sparsity.keras.prunable_layer').PrunableLayer
  n = c.choice('cells', [1, 2, 3])
  kinds = [c.choice('cell%d' % k, ['LSTMCell', 'GRUCell', 'SimpleRNNCell', 'custom', 'unsupported']) for k in range(n)]
  cells, want = [], []
  for k in kinds:
    ws = {a: object() for a in _ATTR}
    if k == 'custom':
      cell = object.__new__(type('Custom', (PL,), {'get_prunable_weights': lambda s: [s.kernel, s.bias]}))
      cell.__dict__.update(ws)
      want += [ws['kernel'], ws['bias']]
    elif k == 'unsupported':
      cell = _bare(keras, 'Dense', **ws)
    else:
      cell = _bare(keras, k, **ws)
      want += [ws['kernel'], ws['recurrent_kernel']]
    cells.append(cell)
  ok = 'unsupported' not in kinds
  for r in ('RNN', 'LSTM', 'GRU', 'SimpleRNN'):
    l = _bare(keras, r, name='rnn', cell=cells[0] if n == 1 else _bare(keras, 'StackedRNNCells', cells=cells))
    c.prove('supported_iff_all_cells_are', bool(R.supports(l)) == ok)
    if ok:
      c.prove('kernels_of_all_cells', _is_list(R.make_prunable(l).get_prunable_weights(), want))
    else:
      e, _ = c.raises(R.make_prunable, l)
      c.prove('unsupported_cell_rejected', isinstance(e, ValueError))


@contract('P09', [REG + ':PruneRegistry.make_prunable', REG + ':PruneRegistry._is_mha_layer'], cases=4, deep=4)
def prunable_attention_weights(c):
  """Multi-head attention offers its query, key, value and output kernels."""
  import types
  keras = _keras()
  R = _mod(REG).PruneRegistry
  parts = {p: types.SimpleNamespace(kernel=object(), bias=object()) for p in (
      '_query_dense', '_key_dense', '_value_dense', '_output_dense')}
  l = _bare(keras, 'MultiHeadAttention', name='mha', **parts)
  c.prove('supported', bool(R.supports(l)))
  c.prove('the_four_kernels', _is_list(R.make_prunable(l).get_prunable_weights(), [
      parts[p].kernel for p in ('_query_dense', '_key_dense', '_value_dense', '_output_dense')]))


# the m:n pairs and block sizes are listed; sizes and values are not
mark_enumerated('P04', 'm_by_n_dense', 'm_by_n_conv')
mark_enumerated('P05')
