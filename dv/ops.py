"""Assumed contracts of the TensorFlow operations the verified code calls.

Each entry gives the documented element-wise meaning of one TF op over exact
arithmetic.  Their use is recorded (ctx.assumed_ops) and reported as trusted.
Every op contract here is cross-checked against the real TensorFlow by
dv/selfcheck.py on random inputs.
"""
import contextlib
import itertools
import numpy as np
from dv import core
from dv import tens
from dv.core import z3, Unsupported, ctx, isz, simp, unify
from dv.tens import (T, Variable, lift, cast, ew, const, iv, zi, kind, as_dtype,
                     dprod, ddiv, ravel, unravel, same_dim, shape_list, conv,
                     stack_scalars, _tf, bshape, bat)

OPS = {}


def op(*names):

  def d(f):
    for n in names:
      OPS[n] = f
    return f

  return d


def canon(f):
  """One name per operation contract."""
  return min((n for n, g in OPS.items() if g is f), default=getattr(f, '__name__', '?'))


def note(s):
  ctx().assumed_ops.add(s)


def axes_of(axis, rank):
  if axis is None:
    return list(range(rank))
  if isinstance(axis, (T, np.ndarray)) or hasattr(axis, 'numpy'):
    axis = shape_list(axis) if not (isinstance(axis, T) and not axis.shape_) else iv(axis)
  if isinstance(axis, (list, tuple)):
    a = [int(x) for x in axis]
  else:
    a = [int(axis)]
  return sorted(set(x + rank if x < 0 else x for x in a))


# ---- structure -------------------------------------------------------------
@op('convert_to_tensor', 'constant', 'identity', 'stop_gradient', 'K.variable_')
def convert(x, dtype=None, shape=None, name=None, **kw):
  if isinstance(x, Variable):
    x = x.cur
  t = lift(x, dtype)
  if dtype is not None:
    t = cast(t, dtype)
  t = T(t.shape_, t.dtype, t.fn)
  if shape is not None:
    dims = shape_list(shape)
    if len(t.shape_) == 0:
      t0 = t
      t = T(dims, t.dtype, lambda *i: t0.at())
    else:
      t = reshape(t, dims)
  return t


@op('cast', 'dtypes.cast', 'K.cast')
def cast_(x, dtype, name=None):
  x = lift(x)
  t = cast(x, dtype)
  return T(t.shape_, t.dtype, t.fn)


@op('shape', 'K.shape')
def shape_(x, out_type=None, name=None):
  x = lift(x)
  return stack_scalars([zi(d) for d in x.shape_], out_type or _tf().int32) \
      if x.shape_ else const(np.zeros((0,), np.int32), 'int32')


@op('size')
def size_(x, out_type=None, name=None):
  x = lift(x)
  return tens.scalar(zi(dprod(x.shape_)), as_dtype(out_type or 'int32'))


@op('rank')
def rank_(x, name=None):
  return tens.scalar(z3.IntVal(len(lift(x).shape_)), as_dtype('int32'))


@op('reshape', 'K.reshape')
def reshape(x, shape, name=None):
  x = lift(x)
  dims = shape_list(shape)
  tot = dprod(x.shape_)
  if any(isinstance(d, int) and d == -1 for d in dims):
    k = [j for j, d in enumerate(dims) if isinstance(d, int) and d == -1][0]
    rest = dprod([d for j, d in enumerate(dims) if j != k])
    dims[k] = tot if isinstance(rest, int) and rest == 1 else (
        (tot // rest) if isinstance(tot, int) and isinstance(rest, int) and rest and tot % rest == 0
        else ddiv(tot, rest))
  ntot = dprod(dims)
  if isinstance(ntot, int) and isinstance(tot, int):
    if ntot != tot:
      raise _err('Input to reshape is a tensor with %s values' % tot)
  elif not same_dim(ntot, tot):
    if not ctx().branch(zi(ntot) == zi(tot)):
      raise _err('reshape: element count mismatch')
  if len(dims) == len(x.shape_) and all(same_dim(a, b) for a, b in zip(dims, x.shape_)):
    return T(dims, x.dtype, x.fn)
  # strip unit dims: exact and keeps index terms simple
  xs = [d for d in x.shape_ if not (isinstance(d, int) and d == 1)]
  ds = [d for d in dims if not (isinstance(d, int) and d == 1)]
  if len(xs) == len(ds) and all(same_dim(a, b) for a, b in zip(xs, ds)):
    def fn1(*idx):
      nz = [i for i, d in zip(idx, dims) if not (isinstance(d, int) and d == 1)]
      it = iter(nz)
      return x.at(*[0 if isinstance(d, int) and d == 1 else next(it) for d in x.shape_])
    return T(dims, x.dtype, fn1)

  def fn(*idx):
    f = ravel(idx, dims)
    return x.at(*unravel(f, x.shape_))

  return T(dims, x.dtype, fn)


def _err(msg):
  return _tf().errors.InvalidArgumentError(None, None, msg)


@op('squeeze', 'K.squeeze')
def squeeze(x, axis=None, name=None):
  x = lift(x)
  if axis is None:
    ax = []
    for k, d in enumerate(x.shape_):
      if isinstance(d, int):
        if d == 1:
          ax.append(k)
      elif ctx().branch(zi(d) == 1):
        ax.append(k)
  else:
    ax = axes_of(axis, len(x.shape_))
    for k in ax:
      d = x.shape_[k]
      if isinstance(d, int) and d != 1 or (
          not isinstance(d, int) and not ctx().branch(zi(d) == 1)):
        raise _err('Can not squeeze dim[%d]' % k)
  dims = [d for k, d in enumerate(x.shape_) if k not in ax]

  def fn(*idx):
    it = iter(idx)
    return x.at(*[0 if k in ax else next(it) for k in range(len(x.shape_))])

  return T(dims, x.dtype, fn)


@op('expand_dims', 'K.expand_dims')
def expand_dims(x, axis=-1, name=None):
  x = lift(x)
  a = iv(axis)
  if a < 0:
    a += len(x.shape_) + 1
  dims = list(x.shape_[:a]) + [1] + list(x.shape_[a:])
  return T(dims, x.dtype, lambda *i: x.at(*(i[:a] + i[a + 1:])))


@op('transpose', 'K.permute_dimensions')
def transpose(x, perm=None, conjugate=False, name=None, pattern=None):
  x = lift(x)
  r = len(x.shape_)
  perm = perm if perm is not None else pattern
  p = list(reversed(range(r))) if perm is None else [int(v) for v in shape_list(perm)]
  if sorted(p) != list(range(r)):
    raise _err('transpose expects a vector of size %d' % r)
  dims = [x.shape_[k] for k in p]

  def fn(*idx):
    src = [None] * r
    for j, k in enumerate(p):
      src[k] = idx[j]
    return x.at(*src)

  return T(dims, x.dtype, fn)


@op('concat', 'K.concatenate')
def concat(values, axis=-1, name=None):
  if isinstance(values, T):
    return values
  xs = [lift(v) for v in values]
  if not xs[0].shape_:
    raise ValueError('concat of scalars')
  xs = _common(xs)
  r = len(xs[0].shape_)
  a = iv(axis)
  a = a + r if a < 0 else a
  offs, o = [], 0
  for x in xs:
    offs.append(o)
    o = iv(simp(zi(o) + zi(x.shape_[a]))) if not (isinstance(o, int) and isinstance(x.shape_[a], int)) \
        else o + x.shape_[a]
  dims = list(xs[0].shape_)
  dims[a] = o

  def fn(*idx):
    i = idx[a]

    def sub(x, off):
      j = i - off if isinstance(i, int) and isinstance(off, int) else simp(zi(i) - zi(off))
      return x.at(*(idx[:a] + (j,) + idx[a + 1:]))

    if isinstance(i, int) and all(isinstance(v, int) for v in offs):
      k = max(j for j in range(len(xs)) if offs[j] <= i and not (
          isinstance(xs[j].shape_[a], int) and xs[j].shape_[a] == 0)) if i >= 0 else 0
      return sub(xs[k], offs[k])
    live = [j for j in range(len(xs)) if not (isinstance(xs[j].shape_[a], int) and xs[j].shape_[a] == 0)]
    res = sub(xs[live[-1]], offs[live[-1]])
    for j in reversed(live[:-1]):
      res = z3.If(zi(i) < zi(offs[j]) + zi(xs[j].shape_[a]), sub(xs[j], offs[j]), res)
    return res

  return T(dims, xs[0].dtype, fn)


def _common(xs):
  dt = next((x.dtype for x in xs if not x.py), xs[0].dtype)
  if any(kind(x.dtype) == 'R' for x in xs) and kind(dt) != 'R':
    dt = next(x.dtype for x in xs if kind(x.dtype) == 'R')
  return [cast(x, dt) if kind(x.dtype) != kind(dt) else x for x in xs]


@op('stack', 'K.stack')
def stack(values, axis=0, name=None):
  xs = _common([lift(v) for v in values])
  r = len(xs[0].shape_)
  a = iv(axis)
  a = a + r + 1 if a < 0 else a
  dims = list(xs[0].shape_[:a]) + [len(xs)] + list(xs[0].shape_[a:])

  def fn(*idx):
    k, sub = idx[a], idx[:a] + idx[a + 1:]
    if isinstance(k, int):
      return xs[k].at(*sub)
    res = xs[-1].at(*sub)
    for j in range(len(xs) - 2, -1, -1):
      res = z3.If(k == j, xs[j].at(*sub), res)
    return res

  return T(dims, xs[0].dtype, fn)


@op('unstack')
def unstack(x, num=None, axis=0, name=None):
  x = lift(x)
  n = x.shape_[axis]
  if not isinstance(n, int):
    raise Unsupported('unstack of symbolic dim')
  return [x[(slice(None),) * axis + (k,)] for k in range(n)]


@op('tile', 'K.tile')
def tile(x, multiples, name=None):
  x = lift(x)
  m = shape_list(multiples)
  dims = [dprod([a, b]) for a, b in zip(x.shape_, m)]

  def fn(*idx):
    src = []
    for i, d, mm in zip(idx, x.shape_, m):
      if isinstance(mm, int) and mm == 1:
        src.append(i)
      elif isinstance(d, int) and d == 1:
        src.append(0)
      else:
        src.append(tens.unpair(i, d, mm)[1])
    return x.at(*src)

  return T(dims, x.dtype, fn)


@op('repeat')
def repeat(x, repeats, axis=None, name=None):
  x = lift(x)
  if axis is None:
    x = reshape(x, [-1])
    axis = 0
  r = iv(repeats)
  if not isinstance(r, int):
    raise Unsupported('repeat by symbolic count')
  a = axis + len(x.shape_) if axis < 0 else axis
  dims = list(x.shape_)
  dims[a] = dprod([dims[a], r])

  def fn(*idx):
    i = idx[a]
    q = i // r if isinstance(i, int) else iv(simp(zi(i) / r))
    return x.at(*(idx[:a] + (q,) + idx[a + 1:]))

  return T(dims, x.dtype, fn)


@op('broadcast_to')
def broadcast_to(x, shape, name=None):
  x = lift(x)
  dims = tuple(shape_list(shape))
  return T(dims, x.dtype, lambda *i: bat(x, i, dims))


def decide(cond):
  """True/False when the path condition settles cond (only if the contract asks for it)."""
  cond = simp(cond)
  if z3.is_true(cond):
    return True
  if z3.is_false(cond):
    return False
  c = ctx()
  if not c.opts.get('resolve'):
    return None
  key = ('decide', cond.get_id(), len(c.pc))
  if key not in c.memo:
    c.memo.setdefault('keep', []).append(cond)
    s = c._solver(2000)
    s.add(c.pc)
    s.push()
    s.add(z3.Not(cond))
    r = None
    if c._check(s) == z3.unsat:
      r = True
    else:
      s.pop()
      s.add(cond)
      if c._check(s) == z3.unsat:
        r = False
    c.memo[key] = r
  return c.memo[key]


@op('pad')
def pad(x, paddings, mode='CONSTANT', constant_values=0, name=None):
  x = lift(x)
  if str(mode).upper() != 'CONSTANT':
    raise Unsupported('pad mode')
  if isinstance(paddings, (list, tuple)):
    pd = [[iv(a) for a in p] for p in paddings]
  else:
    pt = lift(paddings)
    pd = [[iv(pt.at(k, 0)), iv(pt.at(k, 1))] for k in range(len(x.shape_))]
  dims = [iv(simp(zi(b) + zi(d) + zi(a))) for d, (b, a) in zip(x.shape_, pd)]
  cv = lift(constant_values, x.dtype).term

  def fn(*idx):
    conds, src = [], []
    for i, d, (b, a) in zip(idx, x.shape_, pd):
      if isinstance(a, int) and a == 0 and isinstance(b, int) and b == 0:
        src.append(i)
        continue
      j = simp(zi(i) - zi(b))
      src.append(iv(j))
      conds.append(z3.And(j >= 0, j < zi(d)))
    if not conds:
      return x.at(*src)
    c = simp(z3.And(conds))
    r = decide(c)
    if r is False:
      return conv(cv, kind(x.dtype))
    if r is True:
      return x.at(*src)
    return z3.If(c, conv(x.at(*src), kind(x.dtype)), conv(cv, kind(x.dtype)))

  return T(dims, x.dtype, fn)


@op('slice')
def slice_(x, begin, size, name=None):
  x = lift(x)
  b, s = shape_list(begin), shape_list(size)
  dims = []
  for d, bb, ss in zip(x.shape_, b, s):
    if isinstance(ss, int) and ss == -1:
      ss = iv(simp(zi(d) - zi(bb)))
    else:
      ok = simp(z3.And(zi(bb) >= 0, zi(ss) >= 0, zi(bb) + zi(ss) <= zi(d)))
      if not ctx().branch(ok):
        raise _err('slice out of range')
    dims.append(ss)
  return T(dims, x.dtype, lambda *i: x.at(*[
      iv(simp(zi(j) + zi(o))) if not (isinstance(o, int) and o == 0) else j
      for j, o in zip(i, b)]))


@op('strided_slice')
def strided_slice(*a, **k):
  raise Unsupported('strided_slice')


@op('range')
def range_(start, limit=None, delta=1, dtype=None, name=None):
  if limit is None:
    start, limit = 0, start
  s, l, d = (lift(v) for v in (start, limit, delta))
  if any(kind(v.dtype) == 'R' for v in (s, l, d)):
    raise Unsupported('real range')
  st, lt, dl = iv(s), iv(l), iv(d)
  if dl != 1:
    if isinstance(st, int) and isinstance(lt, int) and isinstance(dl, int):
      return const(np.arange(st, lt, dl, dtype=np.int32), dtype)
    raise Unsupported('range with stride')
  n = iv(simp(zi(lt) - zi(st)))
  dt = as_dtype(dtype or 'int32')
  return T((n,), dt, lambda i: simp(zi(st) + zi(i)))


def _fill(shape, v, dtype):
  dims = shape_list(shape)
  dt = as_dtype(dtype)
  k = kind(dt)
  t = {'R': z3.RealVal(v), 'I': z3.IntVal(v), 'B': z3.BoolVal(bool(v))}[k]
  return T(dims, dt, lambda *i: t)


@op('zeros', 'K.zeros')
def zeros(shape, dtype='float32', name=None):
  return _fill(shape, 0, dtype)


@op('ones', 'K.ones')
def ones(shape, dtype='float32', name=None):
  return _fill(shape, 1, dtype)


@op('zeros_like', 'K.zeros_like')
def zeros_like(x, dtype=None, name=None):
  x = lift(x)
  return _fill(x.shape_, 0, dtype or x.dtype)


@op('ones_like', 'K.ones_like')
def ones_like(x, dtype=None, name=None):
  x = lift(x)
  return _fill(x.shape_, 1, dtype or x.dtype)


@op('fill')
def fill(dims, value, name=None):
  v = lift(value)
  return T(shape_list(dims), v.dtype, lambda *i: v.term)


@op('meshgrid')
def meshgrid(*xs, indexing='xy', name=None):
  if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
    xs = xs[0]
  xs = [lift(x) for x in xs]
  if indexing != 'ij':
    raise Unsupported('meshgrid xy')
  dims = [x.shape_[0] for x in xs]
  return [T(dims, x.dtype, (lambda x, k: lambda *i: x.at(i[k]))(x, k))
          for k, x in enumerate(xs)]


@op('one_hot')
def one_hot(indices, depth, on_value=None, off_value=None, axis=None, dtype=None, name=None):
  x = lift(indices)
  if axis not in (None, -1):
    raise Unsupported('one_hot axis')
  d = iv(depth)
  dt = as_dtype(dtype) if dtype is not None else (
      as_dtype('bool') if isinstance(on_value, bool) else as_dtype('float32'))
  on = 1 if on_value is None else on_value
  off = 0 if off_value is None else off_value
  on = conv(lift(on).term, kind(dt))
  off = conv(lift(off).term, kind(dt))
  return T(list(x.shape_) + [d], dt,
           lambda *i: z3.If(x.at(*i[:-1]) == zi(i[-1]), on, off))


@op('gather', 'K.gather', 'compat.v1.gather')
def gather(params, indices, validate_indices=None, axis=None, batch_dims=0, name=None):
  p, x = lift(params), lift(indices)
  if batch_dims:
    raise Unsupported('gather batch_dims')
  a = 0 if axis is None else iv(axis)
  a = a + len(p.shape_) if a < 0 else a
  dims = list(p.shape_[:a]) + list(x.shape_) + list(p.shape_[a + 1:])
  r = len(x.shape_)
  c = ctx()
  # out-of-range index is an error on CPU: decide once, universally
  if not x.shape_:
    k = x.term
    if not c.branch(z3.And(k >= 0, k < zi(p.shape_[a]))):
      raise _err('indices = not in range')
  else:
    note('gather: index in range (elementwise range error not modelled)')

  def fn(*i):
    return p.at(*(i[:a] + (iv(x.at(*i[a:a + r])),) + i[a + r:]))

  return T(dims, p.dtype, fn)


@op('gather_nd')
def gather_nd(params, indices, batch_dims=0, name=None):
  p, x = lift(params), lift(indices)
  n = x.shape_[-1]
  if not isinstance(n, int):
    raise Unsupported('gather_nd')
  dims = list(x.shape_[:-1]) + list(p.shape_[n:])
  r = len(x.shape_) - 1
  return T(dims, p.dtype, lambda *i: p.at(
      *([iv(x.at(*(i[:r] + (k,)))) for k in range(n)] + list(i[r:]))))


@op('scatter_nd')
def scatter_nd(indices, updates, shape, name=None):
  """Assumed contract: out[j] = sum of updates whose index row is j.

  Encoded for index maps that are injective on the covered cells (duplicates
  would accumulate): the engine proves injectivity before using this form.
  """
  x, u = lift(indices), lift(updates)
  dims = shape_list(shape)
  n = x.shape_[-1]
  if not isinstance(n, int):
    raise Unsupported('scatter_nd index depth')
  c = ctx()
  rank = len(x.shape_) - 1
  bd = x.shape_[:-1]
  # direct form: every symbolic batch dimension is itself an index component
  probes = [z3.Int('scp%d' % k) for k in range(rank)]
  comp = [simp(x.at(*(probes + [k]))) for k in range(n)]
  direct, used = {}, {}
  for b in range(rank):
    if not isinstance(bd[b], int):
      ks = [k for k in range(n) if comp[k].get_id() == probes[b].get_id()
            and same_dim(dims[k], bd[b])]
      if ks:
        direct[b] = ks[0]
        used[ks[0]] = b
  conc = [b for b in range(rank) if b not in direct]
  ncell = 1
  for b in conc:
    ncell *= bd[b] if isinstance(bd[b], int) else 10**9
  if ncell <= 64:

    def fnd(*idx):
      cell = idx[:n]
      tot = None
      for cc in itertools.product(*[range(bd[b]) for b in conc]):
        v, it = [None] * rank, iter(cc)
        for b in range(rank):
          v[b] = cell[direct[b]] if b in direct else next(it)
        hit = [x.at(*(v + [k])) == zi(cell[k]) for k in range(n) if k not in used]
        val = u.at(*(v + list(idx[n:])))
        t = z3.If(z3.And(hit), val, conv(0, kind(u.dtype))) if hit else val
        tot = t if tot is None else tot + t
      return tot if tot is not None else conv(0, kind(u.dtype))

    return T(dims, u.dtype, fnd)
  # injectivity obligation on two fresh index vectors
  v1 = [c.fresh('sc') for _ in range(rank)]
  v2 = [c.fresh('sc') for _ in range(rank)]
  dom = [z3.And(v >= 0, v < zi(d)) for v, d in zip(v1 + v2, list(bd) * 2)]
  for v in v1 + v2:
    c.index(v)
  same = [x.at(*(v1 + [k])) == x.at(*(v2 + [k])) for k in range(n)]
  inr = [z3.And(x.at(*(v1 + [k])) >= 0, x.at(*(v1 + [k])) < zi(dims[k])) for k in range(n)]
  if not c.entails(z3.Implies(z3.And(dom + same), z3.And([a == b for a, b in zip(v1, v2)]))):
    raise Unsupported('scatter_nd: injectivity not provable')
  if not c.entails(z3.Implies(z3.And(dom), z3.And(inr))):
    raise Unsupported('scatter_nd: range not provable')
  # ghost inverse: for a covered cell, inv gives the update position
  invs = [c.freshf('scinv', n, 'I') for _ in range(rank)]
  cov = c.freshf('sccov', n, 'B')

  def fact(*v):
    cell = [x.at(*(list(v) + [k])) for k in range(n)]
    return z3.And([cov(*cell)] + [f(*cell) == zi(vv) for f, vv in zip(invs, v)])

  c.add_univ(bd, fact, 'scatter')

  def fn(*idx):
    cell = [zi(i) for i in idx[:n]]
    pos = [f(*cell) for f in invs]
    for p in pos:
      c.index(p)
    for i in cell:
      c.index(i)
    # covered => the inverse lands on this very cell
    c.fact(z3.Implies(cov(*cell), z3.And(
        [z3.And(p >= 0, p < zi(d)) for p, d in zip(pos, bd)] +
        [x.at(*(pos + [k])) == cell[k] for k in range(n)])))
    val = u.at(*(pos + list(idx[n:])))
    zero = conv(0, kind(u.dtype)) if kind(u.dtype) != 'B' else z3.BoolVal(False)
    return z3.If(cov(*cell), val, zero)

  return T(dims, u.dtype, fn)


# ---- elementwise -----------------------------------------------------------
def _b(opname, *names):
  def f(x, y, name=None):
    r = tens.binop(opname, x, y)
    if not isinstance(r, T):
      r = lift(r)
    return T(r.shape_, r.dtype, r.fn)
  for n in names:
    OPS[n] = f
  return f


def _deps():
  _b('add', 'add', 'math.add')
  _b('sub', 'subtract', 'math.subtract')
  _b('mul', 'multiply', 'math.multiply')
  _b('div', 'divide', 'math.divide', 'truediv', 'math.truediv')
  _b('floordiv', 'floordiv', 'math.floordiv')
  _b('mod', 'math.floormod', 'math.mod', 'floormod', 'mod')
  _b('pow', 'pow', 'math.pow', 'K.pow')
  _b('eq', 'equal', 'math.equal', 'K.equal')
  _b('ne', 'not_equal', 'math.not_equal')
  _b('lt', 'less', 'math.less', 'K.less')
  _b('le', 'less_equal', 'math.less_equal', 'K.less_equal')
  _b('gt', 'greater', 'math.greater', 'K.greater')
  _b('ge', 'greater_equal', 'math.greater_equal', 'K.greater_equal')
  _b('and', 'logical_and', 'math.logical_and')
  _b('or', 'logical_or', 'math.logical_or')


_deps()


def _minmax(lt):
  def f(x, y, name=None):
    if not isinstance(x, T):
      x = lift(x, lift(y).dtype)
    if not isinstance(y, T):
      y = lift(y, x.dtype)
    x, y = lift(x), lift(y)
    dt = tens.result_dtype(x, y)

    def g(a, b):
      a, b = unify(a, b)
      return z3.If(a <= b, a, b) if lt else z3.If(a >= b, a, b)
    r = ew(dt, g, x, y)
    return r
  return f


OPS['minimum'] = OPS['math.minimum'] = OPS['K.minimum'] = _minmax(True)
OPS['maximum'] = OPS['math.maximum'] = OPS['K.maximum'] = _minmax(False)


def _u(opname, *names):
  def f(x, name=None):
    r = tens.unop(opname, x)
    return T(r.shape_, r.dtype, r.fn)
  for n in names:
    OPS[n] = f


_u('abs', 'abs', 'math.abs', 'K.abs')
_u('neg', 'negative', 'math.negative')
_u('floor', 'floor', 'math.floor')
_u('ceil', 'math.ceil')
_u('round', 'round', 'math.round', 'K.round')
_u('sign', 'sign', 'math.sign', 'K.sign')
_u('square', 'square', 'math.square', 'K.square')
_u('not', 'logical_not', 'math.logical_not')


@op('nn.relu')
def relu(x, name=None):
  x = lift(x)
  return ew(x.dtype, lambda a: z3.If(a >= 0, a, tens._one(a, 0)), x)


@op('nn.relu6')
def relu6(x, name=None):
  return clip_by_value(relu(x), 0.0, 6.0)


@op('math.rsqrt')
def rsqrt(x, name=None):
  return OPS['divide'](1.0, OPS['sqrt'](x))


@op('sqrt', 'math.sqrt', 'K.sqrt')
def sqrt(x, name=None):
  x = lift(x)
  c = ctx()

  def f(a):
    a = simp(a)
    if z3.is_rational_value(a) and not isz(None):
      import fractions
      import math
      fr = fractions.Fraction(a.numerator_as_long(), a.denominator_as_long())
      n, d = math.isqrt(max(fr.numerator, 0)), math.isqrt(fr.denominator)
      if n * n == fr.numerator and d * d == fr.denominator:
        return z3.RealVal(str(fractions.Fraction(n, d)))
      m = fr.numerator * fr.denominator       # sqrt(p/q) = sqrt(p*q)/q, square factors taken out
      if 0 < m < 10 ** 9:
        out, k = 1, 2
        while k * k <= m:
          while m % (k * k) == 0:
            m, out = m // (k * k), out * k
          k += 1
        r = z3.Real('sqrt!%d' % m)
        tab = c.memo.setdefault('sqrtc', {})
        if r.get_id() not in tab:
          tab[r.get_id()] = (r, m)
          c.fact(z3.And(r > 0, r * r == m))
        return simp(r * z3.RealVal(str(fractions.Fraction(out, fr.denominator))))
    fs = z3.Function('sqrt', z3.RealSort(), z3.RealSort())
    t = fs(a)
    key = ('sqrt', t.get_id())
    if key not in c.memo:
      c.memo[key] = t
      c.fact(z3.Implies(a >= 0, z3.And(t >= 0, t * t == a)))
    return t

  return ew(x.dtype, f, x)


def _transc(nm, facts):
  def f(x, name=None):
    x = lift(x)
    c = ctx()

    def g(a):
      fs = z3.Function(nm, z3.RealSort(), z3.RealSort())
      t = fs(a)
      key = (nm, t.get_id())
      if key not in c.memo:
        c.memo[key] = t
        note('%s: uninterpreted with sign/monotonicity facts' % nm)
        c.exact = False
        for fa in facts(a, t):
          c.fact(fa)
      return t
    return ew(x.dtype if kind(x.dtype) == 'R' else as_dtype('float32'), g, x)
  return f


OPS['exp'] = OPS['math.exp'] = OPS['K.exp'] = _transc('exp', lambda a, t: [t > 0, z3.Implies(a == 0, t == 1), z3.Implies(a > 0, t > 1), z3.Implies(a < 0, t < 1)])
OPS['log'] = OPS['math.log'] = _transc('log', lambda a, t: [z3.Implies(a == 1, t == 0), z3.Implies(a > 1, t > 0)])


@op('compat.v1.div_no_nan', 'math.divide_no_nan', 'div_no_nan')
def div_no_nan(x, y, name=None):
  x, y = lift(x), lift(y)
  def g(a, b):
    a, b = unify(conv(a, 'R'), conv(b, 'R'))
    return z3.If(b == 0, z3.RealVal(0), a / b)
  return ew(tens.result_dtype(x, y), g, x, y)


@op('clip_by_value', 'K.clip')
def clip_by_value(x, clip_value_min, clip_value_max, name=None):
  x = lift(x)
  lo = lift(clip_value_min, x.dtype)
  hi = lift(clip_value_max, x.dtype)
  if ctx().memo.get('any_clip') and kind(x.dtype) == 'R':
    ctx().exact = False           # weaker contract asked for by the specification: any tensor of that shape
    f = ctx().freshf('clipped', len(x.shape_))
    return T(x.shape_, x.dtype, lambda *i: f(*[tens.zi(j) for j in i]))
  def g(a, l, h):
    a, l = unify(a, l)
    a, h = unify(a, h)
    l, h = unify(l, h)
    t = z3.If(a <= h, a, h)
    return z3.If(t >= l, t, l)
  return ew(x.dtype, g, x, lo, hi)


@op('where', 'compat.v2.where', 'compat.v1.where', 'K.switch')
def where(condition, x=None, y=None, name=None):
  if x is None:
    return where_indices(condition)
  cnd = lift(condition)
  if not isinstance(x, T):
    x = lift(x, lift(y).dtype)
  if not isinstance(y, T):
    y = lift(y, x.dtype)
  x, y = lift(x), lift(y)
  dt = tens.result_dtype(x, y)
  def g(b, p, q):
    p, q = unify(conv(p, kind(dt)), conv(q, kind(dt)))
    return z3.If(conv(b, 'B'), p, q)
  return ew(dt, g, cnd, x, y)


def where_indices(condition):
  """Index rows of the true elements, each once, in row-major order (fresh number of rows)."""
  m = lift(condition)
  c = ctx()
  shape = list(m.shape_)
  r = len(shape)
  n = c.fresh('nwhere')
  src = [c.freshf('wheresrc', 1, 'I') for _ in shape]
  pos = c.freshf('wherepos', r, 'I')
  c.fact(z3.And(n >= 0, n <= zi(dprod(shape))))
  true = lambda idx: conv(m.at(*idx), 'B')

  def listed(i):
    idx = [f(zi(i)) for f in src]
    return z3.And([z3.And(k >= 0, k < zi(d)) for k, d in zip(idx, shape)] + [true(idx), pos(*idx) == zi(i)])

  c.add_univ([n], listed, 'rows are true elements, each once')

  def every(*idx):
    p = pos(*[zi(k) for k in idx])
    return z3.Implies(true(idx), z3.And(p >= 0, p < n, *[f(p) == zi(k) for f, k in zip(src, idx)]))

  c.add_univ(shape, every, 'every true element is listed')
  if r == 1:
    c.add_univ([n, n], lambda i, j: z3.Implies(zi(i) < zi(j), src[0](zi(i)) < src[0](zi(j))), 'in order')
  for f in src:
    c.index(f(z3.IntVal(0)))
  cols = [lambda i, f=f: f(zi(i)) for f in src]
  return stack([T((n,), as_dtype('int64'), g) for g in cols], axis=1)


class SSparse:
  """tf.SparseTensor: index rows, values, dense shape."""

  def __init__(self, indices, values, dense_shape):
    self.indices, self.values, self.dense_shape = lift(indices), lift(values), dense_shape
    self.shape = tens.SShape(shape_list(dense_shape))
    self.dtype = self.values.dtype


OPS['SparseTensor'] = SSparse


@op('sparse.to_dense')
def sparse_to_dense(sp_input, default_value=None, validate_indices=True, name=None):
  """The values at their (distinct) index rows, zero elsewhere."""
  if default_value is not None or not isinstance(sp_input, SSparse):
    raise Unsupported('to_dense form')
  return scatter_nd(sp_input.indices, sp_input.values, sp_input.dense_shape)


@op('clip_by_norm')
def clip_by_norm(t, clip_norm, axes=None, name=None):
  """t * clip_norm / max(l2 norm, clip_norm)."""
  x, m = lift(t), lift(clip_norm)
  n = norm(x, axis=axes, keepdims=True) if axes is not None else norm(x)
  return OPS['divide'](OPS['multiply'](x, m), OPS['maximum'](n, m))


# ---- reductions --------------------------------------------------------------
def _red_setup(x, axis, keepdims):
  x = lift(x)
  r = len(x.shape_)
  ax = axes_of(axis, r)
  rd = [x.shape_[k] for k in ax]
  dims = [1 if k in ax else d for k, d in enumerate(x.shape_)] if keepdims else [
      d for k, d in enumerate(x.shape_) if k not in ax]

  def full(out, red):
    o, rr = iter(out), iter(red)
    res = []
    for k in range(r):
      if k in ax:
        if keepdims:
          next(o)
        res.append(next(rr))
      else:
        res.append(next(o))
    return res

  return x, ax, rd, dims, full


def _cells(rd, cap=4096):
  if all(isinstance(d, int) for d in rd):
    n = 1
    for d in rd:
      n *= d
    if n <= cap:
      return list(itertools.product(*[range(d) for d in rd]))
  return None


def _key(idx):
  return tuple(i if isinstance(i, int) else ('z', z3.simplify(i).get_id()) for i in idx)


def _extremum(x, axis, keepdims, is_max):
  x, ax, rd, dims, full = _red_setup(x, axis, keepdims)
  if not ax:
    return x
  cells = _cells(rd, 64)
  c = ctx()
  memo = {}

  def fn(*out):
    k = _key(out)
    if k in memo:
      return memo[k][0]
    if cells is not None:
      if not cells:
        raise Unsupported('extremum of an empty tensor')
      t = x.at(*full(out, cells[0]))
      for ce in cells[1:]:
        v = x.at(*full(out, ce))
        t = z3.If(v >= t, v, t) if is_max else z3.If(v <= t, v, t)
    else:
      w = [c.fresh('w') for _ in rd]
      for v, d in zip(w, rd):
        c.fact(z3.Implies(zi(d) >= 1, z3.And(v >= 0, v < zi(d))))
        c.index(v)
      t = c.fresh('max' if is_max else 'min', 'I' if kind(x.dtype) == 'I' else 'R')
      c.fact(t == x.at(*full(out, w)))
      if is_max:
        c.add_univ(rd, lambda *j: x.at(*full(out, j)) <= t, 'max')
      else:
        c.add_univ(rd, lambda *j: x.at(*full(out, j)) >= t, 'min')
    memo[k] = (t, out)
    return t

  return T(dims, x.dtype, fn)


@op('reduce_max', 'math.reduce_max', 'K.max')
def reduce_max(x, axis=None, keepdims=False, name=None):
  return _extremum(x, axis, keepdims, True)


@op('reduce_min', 'math.reduce_min', 'K.min')
def reduce_min(x, axis=None, keepdims=False, name=None):
  return _extremum(x, axis, keepdims, False)


def _quantred(x, axis, keepdims, is_all):
  x, ax, rd, dims, full = _red_setup(x, axis, keepdims)
  cells = _cells(rd, 64)
  c = ctx()
  memo = {}

  def fn(*out):
    k = _key(out)
    if k in memo:
      return memo[k][0]
    g = lambda j: conv(x.at(*full(out, j)), 'B')
    if cells is not None:
      t = (z3.And if is_all else z3.Or)([g(ce) for ce in cells])
    else:
      t = c.fresh('all' if is_all else 'any', 'B')
      w = [c.fresh('w') for _ in rd]
      inb = z3.And([z3.And(v >= 0, v < zi(d)) for v, d in zip(w, rd)])
      for v in w:
        c.index(v)
      if is_all:
        c.add_univ(rd, lambda *j: z3.Implies(t, g(j)), 'all')
        c.fact(z3.Or(t, z3.And(inb, z3.Not(g(w)))))
      else:
        c.add_univ(rd, lambda *j: z3.Implies(g(j), t), 'any')
        c.fact(z3.Implies(t, z3.And(inb, g(w))))
    memo[k] = (t, out)
    return t

  return T(dims, as_dtype('bool'), fn)


@op('reduce_all', 'math.reduce_all')
def reduce_all(x, axis=None, keepdims=False, name=None):
  return _quantred(x, axis, keepdims, True)


@op('reduce_any', 'math.reduce_any')
def reduce_any(x, axis=None, keepdims=False, name=None):
  return _quantred(x, axis, keepdims, False)


def sum_term(f, rd, k, cells=None):
  """sum over the box rd of f(*j): explicit, or SUM(lambda, dims) (extensional)."""
  c = ctx()
  if cells is not None:
    if not cells:
      return conv(0, k)
    t = f(*cells[0])
    for ce in cells[1:]:
      t = t + f(*ce)
    return t
  vs = [z3.Int('sum_i%d' % j) for j in range(len(rd))]
  body = simp(f(*vs))
  n = len(rd)
  sort = z3.RealSort() if k == 'R' else z3.IntSort()
  lam = body
  lam = z3.Lambda(vs, body)
  S = z3.Function('SUM%d%s' % (n, k), lam.sort(), *([z3.IntSort()] * n + [sort]))
  t = S(lam, *[zi(d) for d in rd])
  note('symbolic-length sum: extensional uninterpreted operator')
  c.exact = False
  return t


def _sum(x, axis, keepdims):
  x, ax, rd, dims, full = _red_setup(x, axis, keepdims)
  if kind(x.dtype) == 'B':
    x = cast(x, 'int32')
  cells = _cells(rd)
  memo = {}

  def fn(*out):
    kk = _key(out)
    if kk not in memo:
      memo[kk] = (sum_term(lambda *j: x.at(*full(out, j)), rd, kind(x.dtype), cells), out)
    return memo[kk][0]

  return T(dims, x.dtype, fn), rd


@op('reduce_sum', 'math.reduce_sum', 'K.sum')
def reduce_sum(x, axis=None, keepdims=False, name=None):
  return _sum(x, axis, keepdims)[0]


@op('reduce_mean', 'math.reduce_mean', 'K.mean')
def reduce_mean(x, axis=None, keepdims=False, name=None):
  s, rd = _sum(x, axis, keepdims)
  n = zi(dprod(rd))
  dt = s.dtype
  if kind(dt) == 'I':
    return T(s.shape_, dt, lambda *i: core.floordiv_t(s.at(*i), n))
  return T(s.shape_, dt, lambda *i: s.at(*i) / z3.ToReal(n))


@op('reduce_prod', 'math.reduce_prod')
def reduce_prod(x, axis=None, keepdims=False, name=None):
  if isinstance(x, tens.SShape) or (isinstance(x, (list, tuple)) and axis is None):
    return tens.scalar(zi(dprod(shape_list(x))), as_dtype('int32'))
  x, ax, rd, dims, full = _red_setup(x, axis, keepdims)
  cells = _cells(rd)
  if cells is None:
    raise Unsupported('reduce_prod')

  def fn(*out):
    if kind(x.dtype) == 'I' and len(cells) > 1:
      return zi(dprod([iv(x.at(*full(out, ce))) for ce in cells]))
    t = conv(1, kind(x.dtype))
    for ce in cells:
      t = t * x.at(*full(out, ce))
    return t

  return T(dims, x.dtype, fn)


@op('math.count_nonzero')
def count_nonzero(x, axis=None, keepdims=None, dtype=None, name=None):
  x = lift(x)
  b = T(x.shape_, as_dtype(dtype or 'int64'),
        lambda *i: z3.If(conv(x.at(*i), 'B'), z3.IntVal(1), z3.IntVal(0)))
  return _sum(b, axis, bool(keepdims))[0]


@op('norm')
def norm(x, ord='euclidean', axis=None, keepdims=None, name=None):
  if ord not in ('euclidean', 2):
    raise Unsupported('norm ord')
  return sqrt(reduce_sum(tens.unop('square', x), axis, bool(keepdims)))


def _arg(x, axis, is_max, output_type):
  x = lift(x)
  r = len(x.shape_)
  a = 0 if axis is None else iv(axis)
  a = a + r if a < 0 else a
  n = x.shape_[a]
  dims = x.shape_[:a] + x.shape_[a + 1:]
  c = ctx()
  memo = {}

  def fn(*out):
    k = _key(out)
    if k in memo:
      return memo[k][0]
    g = lambda j: x.at(*(tuple(out[:a]) + (j,) + tuple(out[a:])))
    if isinstance(n, int) and n <= 8:
      bi, bv = z3.IntVal(0), g(0)
      for j in range(1, n):
        v = g(j)
        better = v > bv if is_max else v < bv
        bi, bv = z3.If(better, z3.IntVal(j), bi), z3.If(better, v, bv)
      t = bi
    else:
      t = c.fresh('arg')
      c.index(t)
      c.fact(z3.Implies(zi(n) >= 1, z3.And(t >= 0, t < zi(n))))
      if is_max:
        c.add_univ([n], lambda j: z3.And(g(j) <= g(t), z3.Implies(g(j) == g(t), zi(j) >= t)), 'argmax')
      else:
        c.add_univ([n], lambda j: z3.And(g(j) >= g(t), z3.Implies(g(j) == g(t), zi(j) >= t)), 'argmin')
    memo[k] = (t, out)
    return t

  return T(dims, as_dtype(output_type or 'int64'), fn)


@op('argmin', 'math.argmin')
def argmin(x, axis=None, output_type=None, name=None):
  return _arg(x, axis, False, output_type)


@op('argmax', 'math.argmax')
def argmax(x, axis=None, output_type=None, name=None):
  return _arg(x, axis, True, output_type)


@op('K.argmin')
def k_argmin(x, axis=-1):
  return _arg(x, axis, False, 'int64')


# ---- sorting: ghost permutation ---------------------------------------------
def ghost_sort(x, stable=True):
  """Descending order of the last axis: ghost permutation pos -> index."""
  x = lift(x)
  c = ctx()
  n = x.shape_[-1]
  nb = len(x.shape_) - 1
  probe = [z3.Int('probe%d' % k) for k in range(nb + 1)]
  key = ('sort', simp(x.at(*probe)).get_id(), str(n), stable)
  if key in c.memo:
    return c.memo[key][0]
  if isinstance(n, int) and n <= 8:
    # closed form: rank = number of elements that come before
    note('sort/top_k: descending permutation of the last axis, lower index first on ties')

    def Qc(*v):
      b, e = v[:-1], v[-1]
      parts = [z3.IntVal(0)]
      ve = x.at(*v)
      for j in range(n):
        vj = x.at(*(tuple(b) + (j,)))
        before = z3.Or(vj > ve, z3.And(vj == ve, z3.IntVal(j) < zi(e)))
        if isinstance(e, int):
          if j == e:
            continue
          before = vj >= ve if j < e else vj > ve
        parts.append(z3.If(before, z3.IntVal(1), z3.IntVal(0)))
      return z3.Sum(parts)

    def Pc(*v):
      b, k = v[:-1], v[-1]
      t = z3.IntVal(n - 1)
      for e in range(n - 2, -1, -1):
        t = z3.If(Qc(*(tuple(b) + (e,))) == zi(k), z3.IntVal(e), t)
      return t

    c.memo[key] = ((Pc, Qc), x, probe)
    return Pc, Qc
  P = c.freshf('perm', nb + 1, 'I')
  Q = c.freshf('rank', nb + 1, 'I')
  c.memo['nsorts'] = c.memo.get('nsorts', 0) + 1
  if c.memo['nsorts'] > 1:
    c.exact = False
  note('sort/top_k: descending permutation of the last axis, lower index first on ties')
  nz = zi(n)
  bd = x.shape_[:-1]

  def at(b, j):
    return x.at(*(tuple(b) + (j,)))

  c.add_univ(list(bd) + [n], lambda *v: z3.And(
      P(*[zi(t) for t in v]) >= 0, P(*[zi(t) for t in v]) < nz,
      Q(*([zi(t) for t in v[:-1]] + [P(*[zi(t) for t in v])])) == zi(v[-1])), 'perm')
  c.add_univ(list(bd) + [n], lambda *v: z3.And(
      Q(*[zi(t) for t in v]) >= 0, Q(*[zi(t) for t in v]) < nz,
      P(*([zi(t) for t in v[:-1]] + [Q(*[zi(t) for t in v])])) == zi(v[-1])), 'rank')
  # order, stated on element indices through their ranks
  def order(*v):
    b, i, j = [zi(t) for t in v[:-2]], zi(v[-2]), zi(v[-1])
    ri, rj = Q(*(b + [i])), Q(*(b + [j]))
    vi, vj = at(b, i), at(b, j)
    body = [z3.Implies(ri < rj, vi >= vj), z3.Implies(vi > vj, ri < rj)]
    if stable:
      body.append(z3.Implies(z3.And(vi == vj, i < j), ri < rj))
    return z3.And(body)
  c.add_univ(list(bd) + [n, n], order, 'order')
  c.memo[key] = ((P, Q), x, probe)
  return P, Q


@op('math.top_k', 'nn.top_k')
def top_k(x, k=1, sorted=True, index_type=None, name=None):
  x = lift(x)
  c = ctx()
  kk = iv(k)
  n = x.shape_[-1]
  if not same_dim(kk, n) and not c.branch(z3.And(zi(kk) >= 0, zi(kk) <= zi(n))):
    raise _err('input must have at least k columns')
  P, Q = ghost_sort(x, stable=True)
  dims = list(x.shape_[:-1]) + [kk]

  def pos(*i):
    t = P(*[zi(j) for j in i])
    if not (isinstance(n, int) and n <= 8):
      for j in i:
        c.index(zi(j))
      c.index(t)
    return t

  idx = T(dims, as_dtype('int32'), pos)
  val = T(dims, x.dtype, lambda *i: x.at(*(tuple(i[:-1]) + (pos(*i),))))
  import collections
  return collections.namedtuple('TopKV2', ['values', 'indices'])(val, idx)


@op('argsort')
def argsort(x, axis=-1, direction='ASCENDING', stable=False, name=None):
  x = lift(x)
  if iv(axis) not in (-1, len(x.shape_) - 1):
    raise Unsupported('argsort axis')
  if direction == 'DESCENDING':
    return top_k(x, x.shape_[-1]).indices
  return top_k(tens.unop('neg', x), x.shape_[-1]).indices


@op('sort')
def sort_(x, axis=-1, direction='ASCENDING', name=None):
  x = lift(x)
  if iv(axis) not in (-1, len(x.shape_) - 1):
    raise Unsupported('sort axis')
  v = top_k(x, x.shape_[-1]).values
  if direction == 'DESCENDING':
    return v
  n = x.shape_[-1]
  return T(v.shape_, v.dtype, lambda *i: v.at(*(tuple(i[:-1]) + (simp(zi(n) - 1 - zi(i[-1])),))))


# ---- linear algebra / pooling ------------------------------------------------
def _swap_last(x):
  r = len(x.shape_)
  y = transpose(x, list(range(r - 2)) + [r - 1, r - 2])
  return y


@op('matmul', 'linalg.matmul', 'K.dot')
def matmul(a, b, transpose_a=False, transpose_b=False, adjoint_a=False, adjoint_b=False, name=None, **kw):
  if any(kw.values()):
    raise Unsupported('matmul options')
  a, b = lift(a), lift(b)
  if transpose_a or adjoint_a:
    a = _swap_last(a)
  if transpose_b or adjoint_b:
    b = _swap_last(b)
  ra, rb = len(a.shape_), len(b.shape_)
  if rb < 2 or ra < 2 or rb > 2 and ra != rb:
    raise Unsupported('matmul rank')
  batch = rb > 2
  if batch:
    for u, v in zip(a.shape_[:-2], b.shape_[:-2]):
      if not same_dim(u, v) and (isinstance(u, int) and isinstance(v, int) or not ctx().branch(zi(u) == zi(v))):
        raise Unsupported('matmul broadcasting')
  n, m = a.shape_[-1], b.shape_[-2]
  if not same_dim(n, m):
    if isinstance(n, int) and isinstance(m, int) or not ctx().branch(zi(n) == zi(m)):
      raise _err('Matrix size-incompatible')
  dims = list(a.shape_[:-1]) + [b.shape_[-1]]
  k = kind(a.dtype)
  lead = lambda i: tuple(i[:-2]) if batch else ()
  if getattr(a, 'diag_of', None) is not None:   # a diagonal matrix scales the rows
    d = a.diag_of
    return T(dims, a.dtype, lambda *i: (lambda u, v: u * v)(*unify(d.at(*i[:-1]), b.at(*lead(i), *i[-2:]))))
  cells = _cells([n])
  cache = {}

  def fn(*i):
    def f(j):
      u, v = unify(a.at(*(tuple(i[:-1]) + (j,))), b.at(*lead(i), j, i[-1]))
      return u * v
    i = tuple(simp(x) if isz(x) else x for x in i)
    key = tuple(('t', x.get_id()) if isz(x) else x for x in i)
    if key not in cache:
      cache[key] = (i, sum_term(f, [n], k, cells))
    return cache[key][1]

  return T(dims, a.dtype, fn)


@op('diag', 'linalg.diag')
def diag(diagonal, name='diag', **kw):
  if kw:
    raise Unsupported('diag options')
  x = lift(diagonal)
  zero = conv(0, kind(x.dtype))

  def fn(*i):
    u, v = zi(i[-2]), zi(i[-1])
    return z3.If(u == v, x.at(*i[:-1]), zero)

  t = T(list(x.shape_) + [x.shape_[-1]], x.dtype, fn)
  t.diag_of = x
  return t


@op('svd', 'linalg.svd')
def svd(tensor, full_matrices=False, compute_uv=True, name=None):
  """Thin decomposition: x = sum over k of s[k] u[:, k] v[:, k]^T, s >= 0 and not increasing."""
  x = lift(tensor)
  if full_matrices or not compute_uv or len(x.shape_) < 2:
    raise Unsupported('svd options')
  c = ctx()
  for y, r in c.memo.setdefault('svd', []):
    if y.fn is x.fn:
      return r
  lead, m, n = list(x.shape_[:-2]), x.shape_[-2], x.shape_[-1]
  if isinstance(m, int) and isinstance(n, int):
    p = min(m, n)
  else:
    p = m if same_dim(m, n) or c.branch(zi(m) <= zi(n)) else n
  j = len(c.memo['svd'])
  s, u, v = (tens.fresh_tensor('svd%d_%s' % (j, nm), lead + d, x.dtype) for nm, d in (
      ('s', [p]), ('u', [m, p]), ('v', [n, p])))
  c.add_univ(lead + [p], lambda *i: s.at(*i) >= 0, 'singular values')
  c.add_univ(lead + [m, n], lambda *i: x.at(*i) == sum_term(
      lambda k: u.at(*i[:-1], k) * (s.at(*i[:-2], k) * v.at(*i[:-2], i[-1], k)), [p], 'R', _cells([p])), 'svd')
  r = (s, u, v)
  c.memo['svd'].append((x, r))
  return r


@op('nn.pool')
def pool(x, window_shape, pooling_type, strides=None, padding='VALID', data_format=None,
         dilations=None, name=None, **kw):
  x = lift(x)
  if data_format is not None or dilations is not None:
    raise Unsupported('pool options')
  ws = [iv(w) for w in shape_list(window_shape)]
  st = [1] * len(ws) if strides is None else [iv(s) for s in shape_list(strides)]
  if not all(isinstance(w, int) for w in ws + st):
    raise Unsupported('symbolic pooling window')
  c = ctx()
  r = len(x.shape_)
  sp = list(range(1, r - 1))
  dims = list(x.shape_)
  los = []
  for k, w, s in zip(sp, ws, st):
    d = x.shape_[k]
    if padding == 'SAME':
      o = (d + s - 1) // s if isinstance(d, int) else iv(simp((zi(d) + s - 1) / s))
      if w == 1:
        lo = 0
      else:
        tot = simp((zi(o) - 1) * s + w - zi(d))
        tot = z3.If(tot > 0, tot, 0)
        lo = iv(simp(tot / 2))
    elif padding == 'VALID':
      o = iv(simp((zi(d) - w) / s + 1))
      lo = 0
    else:
      raise Unsupported('padding')
    dims[k] = o
    los.append(lo)

  def fn(*i):
    vals = []
    for off in itertools.product(*[range(w) for w in ws]):
      src, conds = list(i), []
      for k, s, lo, o in zip(sp, st, los, off):
        p = simp(zi(i[k]) * s + o - zi(lo))
        src[k] = iv(p)
        conds.append(z3.And(p >= 0, p < zi(x.shape_[k])))
      cnd = simp(z3.And(conds))
      d = decide(cnd)
      if d is False:
        continue
      vals.append((z3.BoolVal(True) if d else cnd, x.at(*src)))
    if pooling_type == 'MAX':
      have, best = z3.BoolVal(False), z3.RealVal(0)
      for cnd, v in vals:
        best = z3.If(cnd, z3.If(z3.And(have, best >= v), best, v), best)
        have = z3.Or(have, cnd)
      return best
    if pooling_type == 'AVG':
      if all(z3.is_true(cnd) for cnd, _ in vals):
        return simp(z3.Sum([v for _, v in vals]) / len(vals))
      s = z3.Sum([z3.If(cnd, v, z3.RealVal(0)) for cnd, v in vals])
      n = z3.Sum([z3.If(cnd, z3.IntVal(1), z3.IntVal(0)) for cnd, _ in vals])
      # divide by a literal in every case (keeps the arithmetic linear)
      res = s
      for q in range(2, len(vals) + 1):
        res = z3.If(n == q, s / q, res)
      return res
    raise ValueError('bad pooling_type')

  return T(dims, x.dtype, fn)


# ---- control -----------------------------------------------------------------
@op('cond', 'compat.v1.cond')
def cond(pred, true_fn=None, false_fn=None, name=None):
  p = pred if isinstance(pred, bool) else bool(lift(pred)) if not callable(pred) else bool(pred())
  return true_fn() if p else false_fn()


@op('while_loop', 'compat.v1.while_loop')
def while_loop(cond, body, loop_vars, shape_invariants=None, parallel_iterations=10,
               back_prop=True, swap_memory=False, maximum_iterations=None, name=None, **kw):
  v = list(loop_vars)
  n = 0
  while True:
    p = cond(*v)
    t = lift(p).term if not isinstance(p, bool) else z3.BoolVal(p)
    t = simp(t)
    if z3.is_false(t):
      return v
    if not z3.is_true(t):
      raise Unsupported('while_loop with symbolic trip count')
    r = body(*v)
    v = list(r) if isinstance(r, (list, tuple)) else [r]
    n += 1
    if n > 5000:
      raise Unsupported('loop too long')


@op('group', 'no_op', 'compat.v1.group')
def group(*a, **k):
  return None


@contextlib.contextmanager
def _null(*a, **k):
  yield 'scope'


class NullCtx:

  def __init__(self, *a, **k):
    self.name = 'scope'

  def __enter__(self):
    return 'scope/'

  def __exit__(self, *a):
    return False


for _n in ('name_scope', 'control_dependencies', 'compat.v1.name_scope', 'device',
           'compat.v1.variable_scope', 'init_scope'):
  OPS[_n] = NullCtx


def _assert(rel):
  def f(x, y, message=None, summarize=None, name=None, **kw):
    x, y = lift(x), lift(y)
    r = tens.binop(rel, x, y)
    if isinstance(r, bool):
      ok = r
    else:
      tot = dprod(lift(r).shape_)
      if isinstance(tot, int):
        ok = bool(reduce_all(r))
      else:
        ok = bool(reduce_all(r))
    if not ok:
      raise _err(str(message))
    return None
  return f


for _rel, _nm in (('eq', 'equal'), ('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'),
                  ('ge', 'greater_equal')):
  OPS['debugging.assert_' + _nm] = OPS['compat.v1.assert_' + _nm] = _assert(_rel)


@op('custom_gradient')
def custom_gradient(f=None):
  def wrapped(*a, **k):
    out, g = f(*a, **k)
    if isinstance(out, T):
      out = T(out.shape_, out.dtype, out.fn)
      out.custom_grad = g
      ctx().__dict__.setdefault('custom_grads', []).append((a, out, g))
    return out
  return wrapped


@op('function')
def function_(f=None, **kw):
  if f is None:
    return lambda g: SymFunction(g, kw.get('input_signature'))
  return SymFunction(f, kw.get('input_signature'))


class SymFunction:
  """tf.function: calls the Python function; an input signature rejects incompatible tensors.

  get_concrete_function traces on placeholders of the signature: only structure, shape and dtype of
  its outputs exist (zeros stand for the placeholders).
  """

  def __init__(self, f, sig=None):
    self.python_function, self.input_signature = f, sig
    self.__name__ = getattr(f, '__name__', 'function')
    self.__module__, self.__doc__ = getattr(f, '__module__', None), f.__doc__

  def __get__(self, obj, klass=None):
    if obj is None:
      return self
    return SymFunction(self.python_function.__get__(obj, klass), self.input_signature)

  def __call__(self, *a, **k):
    if self.input_signature is not None:
      import tensorflow as tf
      sig = list(self.input_signature)
      tf.nest.assert_same_structure(sig[:len(a)], list(a))
      for s, v in zip(tf.nest.flatten(sig), tf.nest.flatten(list(a))):
        if isinstance(s, tf.TensorSpec) and not s.is_compatible_with(v):
          raise TypeError('incompatible with the input signature')
    return self.python_function(*a, **k)

  def get_concrete_function(self, *a, **k):
    import types
    import tensorflow as tf
    sig = [tf.nest.map_structure(lambda s: zeros(s.shape.as_list(), s.dtype), s)
           for s in (self.input_signature or ())]
    return types.SimpleNamespace(structured_outputs=self.python_function(*(list(a) + sig[len(a):]), **k))


class FakeReplica:
  """Default (single replica) distribution: merge_call/update call straight through."""

  def merge_call(self, fn, args=(), kwargs=None):
    return fn(FakeStrategy(), *args, **(kwargs or {}))


class FakeStrategy:

  @property
  def extended(self):
    return self

  def batch_reduce_to(self, op_, pairs):
    # every replica passes the same value: the mean is that value, a sum is that value times the number of replicas
    kind = str(getattr(op_, 'name', op_)).upper()
    if 'MEAN' in kind:
      return [v for v, _ in pairs]
    n = ctx().memo.get('replicas')
    if n is None:
      n = ctx().memo['replicas'] = ctx().fresh('replicas', 'R')
      ctx().assume(n >= 1)
    return [OPS['multiply'](v, n) for v, _ in pairs]

  def update(self, var, fn, args=(), kwargs=None, group=True):
    return fn(var, *args, **(kwargs or {}))


@op('distribute.get_replica_context')
def get_replica_context():
  note('tf.distribute: merge_call/update run the function on the local variable; all replicas hold the same values')
  return FakeReplica() if ctx().memo.get('replica', True) else None


@op('executing_eagerly')
def executing_eagerly():
  return True


@op('is_tensor')
def is_tensor(x):
  return (isinstance(x, T) and not x.py) or (not isinstance(x, T) and _tf().is_tensor(x))


@op('Variable', 'compat.v1.Variable')
def variable(initial_value=None, trainable=True, name=None, dtype=None, **kw):
  v = initial_value() if callable(initial_value) and not isinstance(initial_value, T) else initial_value
  if dtype is not None:
    v = cast(lift(v), dtype)
  return Variable(lift(v), name or 'var')


@op('K.get_value', 'K.eval')
def k_get_value(x):
  return lift(x)


@op('K.set_value')
def k_set_value(x, v):
  x.assign(v)


@op('K.batch_get_value')
def k_bgv(xs):
  return [lift(x) for x in xs]


@op('K.batch_set_value')
def k_bsv(pairs):
  for x, v in pairs:
    x.assign(v)


@op('K.ndim')
def k_ndim(x):
  return len(lift(x).shape_)


@op('K.int_shape')
def k_int_shape(x):
  return tuple(lift(x).shape)


@op('K.cast_to_floatx')
def k_floatx(x):
  return cast(lift(x), 'float32')


@op('random.stateless_uniform')
def stateless_uniform(shape, seed, minval=0, maxval=None, dtype='float32', name=None, **kw):
  dims = shape_list(shape)
  s = lift(seed)
  c = ctx()
  dt = as_dtype(dtype)
  note('stateless_uniform: a function of (seed, shape, index) with values in [minval, maxval)')
  lo = lift(minval).term
  hi = lift(1 if maxval is None else maxval).term
  n = len(dims)
  f = z3.Function('stateless_u_%d_%s' % (n, kind(dt)), *(
      [z3.IntSort()] * (2 + 2 * n) + [z3.RealSort() if kind(dt) == 'R' else z3.IntSort()]))
  c.exact = False

  def fn(*i):
    t = f(*([conv(s.at(0), 'I'), conv(s.at(1), 'I')] + [zi(d) for d in dims] + [zi(j) for j in i]))
    l, tt = unify(lo, t)
    h, tt = unify(hi, t)
    c.fact(z3.And(l <= t, t < h))
    return t

  return T(dims, dt, fn)


@op('random.uniform')
def random_uniform(shape, minval=0, maxval=None, dtype='float32', seed=None, name=None):
  dims = shape_list(shape)
  dt = as_dtype(dtype)
  c = ctx()
  note('random.uniform: arbitrary values in [minval, maxval) (all outcomes covered)')
  c.memo['rand'] = c.memo.get('rand', 0) + 1
  c.exact = False
  lo = lift(minval).term
  hi = lift(1 if maxval is None else maxval).term
  base = tens.fresh_tensor('rand%d' % c.memo['rand'], dims, dt)

  def fn(*i):
    t = base.at(*i)
    l, _ = unify(lo, t)
    h, _ = unify(hi, t)
    c.fact(z3.And(l <= t, t < h))
    return t

  return T(dims, dt, fn)


# ---- fake quantisation ---------------------------------------------------------
def fq_spec(x, mn, mx, num_bits, narrow, c):
  """FakeQuantWithMinMaxVars, as documented (nudged range)."""
  qmin = 1 if narrow else 0
  qmax = 2**num_bits - 1
  scale = (mx - mn) / z3.RealVal(qmax - qmin)
  zp = z3.RealVal(qmin) - mn / scale
  nz = z3.If(zp < qmin, z3.RealVal(qmin), z3.If(
      zp > qmax, z3.RealVal(qmax), z3.ToReal(z3.ToInt(zp + z3.RealVal('1/2')))))
  nmin = (z3.RealVal(qmin) - nz) * scale
  nmax = (z3.RealVal(qmax) - nz) * scale
  cl = z3.If(x < nmin, nmin, z3.If(x > nmax, nmax, x))
  q = z3.ToReal(z3.ToInt((cl - nmin) / scale + z3.RealVal('1/2')))
  return z3.If(z3.And(mn == 0, mx == 0), z3.RealVal(0), q * scale + nmin)


def _fq(x, mn, mx, num_bits, narrow):
  """Uninterpreted FQ(x,min,max,bits,narrow): which range/bits reach the op is
  what the library controls; the arithmetic of the kernel is TF's."""
  f = z3.Function('FAKE_QUANT', z3.RealSort(), z3.RealSort(), z3.RealSort(), z3.IntSort(),
                  z3.BoolSort(), z3.RealSort())
  note('fake_quant_with_min_max_vars: uninterpreted FQ(x, min, max, num_bits, narrow_range)')
  if ctx().memo.get('fq_zero'):
    note('fake_quant_with_min_max_vars: a range containing zero represents zero exactly')
    ctx().fact(z3.Implies(z3.And(mn <= 0, mx >= 0), f(
        z3.RealVal(0), mn, mx, z3.IntVal(int(num_bits)), z3.BoolVal(bool(narrow))) == 0))
  return f(x, mn, mx, z3.IntVal(int(num_bits)), z3.BoolVal(bool(narrow)))


@op('quantization.fake_quant_with_min_max_vars', 'compat.v1.fake_quant_with_min_max_vars')
def fake_quant_vars(inputs, min, max, num_bits=8, narrow_range=False, name=None):
  x, a, b = lift(inputs), lift(min), lift(max)
  return T(x.shape_, x.dtype, lambda *i: _fq(x.at(*i), a.term, b.term, num_bits, narrow_range))


@op('quantization.fake_quant_with_min_max_vars_per_channel')
def fake_quant_pc(inputs, min, max, num_bits=8, narrow_range=False, name=None):
  x, a, b = lift(inputs), lift(min), lift(max)
  if len(a.shape_) != 1 or len(b.shape_) != 1:
    raise _err('min/max must be rank 1')
  return T(x.shape_, x.dtype, lambda *i: _fq(x.at(*i), a.at(i[-1]), b.at(i[-1]), num_bits, narrow_range))


@op('quantization.fake_quant_with_min_max_args')
def fake_quant_args(inputs, min=-6, max=6, num_bits=8, narrow_range=False, name=None):
  return fake_quant_vars(inputs, lift(min, 'float32'), lift(max, 'float32'), num_bits, narrow_range)


@op('__internal__.train.assign_moving_average')
def assign_moving_average(variable, value, decay, zero_debias=True, name=None):
  note('assign_moving_average(zero_debias=False): v <- v*decay + value*(1-decay)')
  if zero_debias:
    raise Unsupported('zero_debias')
  v = lift(value, variable.dtype)
  d = lift(decay, variable.dtype)
  return variable.assign(tens.binop('sub', variable.cur, tens.binop(
      'mul', tens.binop('sub', variable.cur, v), tens.binop('sub', 1.0, d))))


@op('bitwise.right_shift', 'bitwise.left_shift', 'bitwise.bitwise_and', 'bitwise.bitwise_or')
def _bitop(*a, **k):
  raise Unsupported('bitwise op')


@op('unique', 'compat.v1.unique')
def unique(x, out_idx=None, name=None):
  """y: every value of the vector once, idx: position of each element's value in y."""
  x = lift(x)
  if len(x.shape_) != 1:
    raise _err('unique expects a vector')
  c = ctx()
  n = x.shape_[0]
  note('unique: y holds every value of x exactly once, x[i] = y[idx[i]]')
  m = c.fresh('uniques')
  c.fact(z3.And(m >= 0, m <= zi(n), z3.Implies(zi(n) >= 1, m >= 1)))
  k = kind(x.dtype)
  y, f, w = c.freshf('uniq', 1, k), c.freshf('uidx', 1, 'I'), c.freshf('uwhere', 1, 'I')
  c.add_univ([n], lambda i: z3.And(f(zi(i)) >= 0, f(zi(i)) < m, y(f(zi(i))) == x.at(i)), 'unique index')
  c.add_univ([m], lambda j: z3.And(w(zi(j)) >= 0, w(zi(j)) < zi(n), f(w(zi(j))) == zi(j),
                                   y(zi(j)) == x.at(w(zi(j)))), 'every unique value occurs')
  c.add_univ([m, m], lambda i, j: z3.Implies(y(zi(i)) == y(zi(j)), zi(i) == zi(j)), 'uniques differ')
  return (T((m,), x.dtype, lambda j: y(zi(j))),
          T((n,), as_dtype(out_idx or 'int32'), lambda i: c.index(f(zi(i)))))


# ---- nest ------------------------------------------------------------------------
def _leaf(x):
  return not isinstance(x, (list, tuple, dict))


@op('cumsum')
def cumsum(x, axis=0, exclusive=False, reverse=False, name=None):
  x = lift(x)
  a = axis + len(x.shape_) if axis < 0 else axis
  n = x.shape_[a]
  if not isinstance(n, int) and len(x.shape_) == 1 and not reverse and not exclusive:
    k = kind(x.dtype)
    f = ctx().freshf('cumsum', 1, k)
    note('cumsum: y[0] = x[0], y[i] = y[i-1] + x[i]')
    ctx().add_univ([n], lambda i: z3.If(zi(i) <= 0, f(zi(i)) == x.at(zi(i)),
                                        f(zi(i)) == f(zi(i) - 1) + x.at(zi(i))), 'cumsum')
    return T(x.shape_, x.dtype, lambda i: f(zi(i)))
  if not isinstance(n, int) or reverse:
    raise Unsupported('cumsum')

  def fn(*i):
    j = i[a]
    t = conv(0, kind(x.dtype))
    for k in range(n):
      v = x.at(*(i[:a] + (k,) + i[a + 1:]))
      if isinstance(j, int):
        if k < j or (k == j and not exclusive):
          t = t + v
      else:
        t = t + z3.If(z3.IntVal(k) < j if exclusive else z3.IntVal(k) <= j, v, conv(0, kind(x.dtype)))
    return t

  return T(x.shape_, x.dtype, fn)


@op('linspace')
def linspace(start, stop, num, name=None, axis=0):
  a, b = lift(start, 'float32'), lift(stop, 'float32')
  n = iv(num)
  if len(a.shape_):
    raise Unsupported('linspace')
  at, bt = conv(a.term, 'R'), conv(b.term, 'R')
  if isinstance(n, int):
    if n <= 0:
      _err('Requires num > 0')
    if n == 1:
      return T((1,), a.dtype, lambda i: at)
    return T((n,), a.dtype, lambda i: at + (bt - at) * z3.ToReal(zi(i)) / z3.RealVal(n - 1))
  if not ctx().branch(n > 0):
    _err('Requires num > 0')
  c = ctx()
  if c.branch(n == 1):
    return T((n,), a.dtype, lambda i: at)
  memo = {}

  def fn(i):
    k = _key((i,))
    if k not in memo:
      # the fraction i/(n-1) as a defined constant: f*(n-1) == i, 0 <= f <= 1
      f = c.fresh('frac', 'R')
      ii = z3.ToReal(zi(i))
      dom = z3.And(zi(i) >= 0, zi(i) < n)
      c.fact(z3.Implies(dom, z3.And(f >= 0, f <= 1, f * (z3.ToReal(n) - 1) == ii,
                                    z3.Implies(zi(i) == 0, f == 0), z3.Implies(zi(i) == n - 1, f == 1))))
      v = c.fresh('lin', 'R')
      lo, hi = z3.If(at <= bt, at, bt), z3.If(at <= bt, bt, at)
      c.fact(z3.Implies(dom, z3.And(v == at + (bt - at) * f, v >= lo, v <= hi,
                                    z3.Implies(f == 0, v == at), z3.Implies(f == 1, v == bt))))
      memo[k] = (v, i)
    return memo[k][0]

  return T((n,), a.dtype, fn)


@op('boolean_mask')
def boolean_mask(tensor, mask, axis=None, name=None):
  """out lists exactly the masked elements in order (fresh length m; order not used)."""
  x, m = lift(tensor), lift(mask)
  if axis is not None or len(x.shape_) != len(m.shape_):
    raise Unsupported('boolean_mask with a partial mask')
  c = ctx()
  n = c.fresh('masked')
  shape = list(x.shape_)
  tot = zi(dprod(shape))
  src = [c.freshf('masksrc', 1, 'I') for _ in shape]
  c.fact(z3.And(n >= 0, n <= tot))
  def back(i):
    idx = [s(zi(i)) for s in src]
    return idx
  def u(i):
    idx = back(i)
    return z3.And([z3.And(k >= 0, k < zi(d)) for k, d in zip(idx, shape)] + [m.at(*idx)])
  c.add_univ([n], u, 'masked elements')
  pos = c.freshf('maskpos', len(shape), 'I')
  def w(*idx):
    p = pos(*[zi(k) for k in idx])
    return z3.Implies(m.at(*idx), z3.And(p >= 0, p < n, *[s(p) == zi(k) for s, k in zip(src, idx)]))
  c.add_univ(shape, w, 'every masked element is listed')
  # witness of non-emptiness for the instantiation pool
  for s in src:
    c.index(s(z3.IntVal(0)))
  return T((n,), x.dtype, lambda i: x.at(*back(i)))


@op('math.bincount')
def bincount(arr, weights=None, minlength=None, maxlength=None, dtype='int32', name=None,
             axis=None, binary_output=False):
  """out[k] = number of elements equal to k; values are below minlength (checked)."""
  x = lift(arr)
  if weights is not None or maxlength is not None or binary_output or axis is not None or minlength is None:
    raise Unsupported('bincount form')
  n = iv(lift(minlength).term) if isinstance(minlength, T) else iv(minlength)
  rd = list(x.shape_)
  cells = _cells(rd)
  dt = as_dtype(dtype)
  k = kind(dt)
  one = z3.RealVal(1) if k == 'R' else z3.IntVal(1)
  zero = z3.RealVal(0) if k == 'R' else z3.IntVal(0)
  memo = {}
  note('bincount: all values below minlength (output length == minlength)')

  def fn(i):
    kk = _key((i,))
    if kk not in memo:
      memo[kk] = (sum_term(lambda *j: z3.If(x.at(*j) == zi(i), one, zero), rd, k, cells), i)
    return memo[kk][0]

  return T((n,), dt, fn)


@op('K.map_fn', 'map_fn')
def map_fn(fn, elems, name=None, dtype=None, **kw):
  """Concrete leading dimension: the function applied to each element."""
  x = lift(elems)
  n = x.shape_[0]
  if not isinstance(n, int):
    raise Unsupported('map_fn over a symbolic length')
  return stack([fn(tens.getitem(x, k)) for k in range(n)])


# ---- compositions of the operations above ------------------------------------
@op('add_n', 'math.add_n')
def add_n(inputs, name=None):
  inputs = list(inputs)
  r = lift(inputs[0])
  for x in inputs[1:]:
    r = OPS['add'](r, x)
  return r


@op('math.reciprocal')
def reciprocal(x, name=None):
  return OPS['divide'](OPS['ones_like'](x), x)


@op('math.reciprocal_no_nan')
def reciprocal_no_nan(x, name=None):
  return OPS['math.divide_no_nan'](OPS['ones_like'](x), x)


@op('math.multiply_no_nan')
def multiply_no_nan(x, y, name=None):
  return OPS['multiply'](x, y)      # exact arithmetic: no infinities, no NaN


@op('math.squared_difference')
def squared_difference(x, y, name=None):
  return OPS['square'](OPS['subtract'](x, y))


@op('math.logical_xor')
def logical_xor(x, y, name='LogicalXor'):
  return OPS['not_equal'](x, y)


@op('math.rint')
def rint(x, name=None):
  return OPS['round'](x)


@op('case')
def case(pred_fn_pairs, default=None, exclusive=False, strict=False, name='case'):
  for p, f in pred_fn_pairs:
    if isinstance(p, bool):
      raise TypeError('pred must be a Tensor, got: %s' % p)
    if bool(lift(p)):
      return f()
  if default is None:
    raise Unsupported('tf.case without a match')
  return default()


@op('tensordot')
def tensordot(a, b, axes, name=None):
  a, b = lift(a), lift(b)
  if len(a.shape_) == 2 and len(b.shape_) == 2 and axes in (1, [[1], [0]], [1, 0], ((1,), (0,)), (1, 0)):
    return OPS['matmul'](a, b)
  raise Unsupported('tensordot axes')


@op('einsum')
def einsum(equation, *inputs, **kw):
  eq = equation.replace(' ', '')
  if len(inputs) == 2 and len(eq) == 9 and eq[2] == ',' and eq[5:7] == '->':
    i, j, k, l, o, p = eq[0], eq[1], eq[3], eq[4], eq[7], eq[8]
    if len({i, j, l}) == 3 and j == k and (o, p) == (i, l):
      return OPS['matmul'](*inputs)
  raise Unsupported('einsum ' + equation)
