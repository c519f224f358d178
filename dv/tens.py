"""Symbolic tensors: arbitrary (symbolic) shape, one term per element."""
import itertools
import numpy as np
from dv import core
from dv.core import z3, Unsupported, ctx, isz, unify, simp, floordiv_t, mod_t


def _tf():
  import tensorflow as tf
  return tf


def as_dtype(d):
  tf = _tf()
  if isinstance(d, T):
    raise Unsupported('dtype')
  if d is float:
    return tf.float32
  if d is int:
    return tf.int32
  if d is bool:
    return tf.bool
  return tf.dtypes.as_dtype(d)


def kind(dt):
  if dt.is_bool:
    return 'B'
  if dt.is_integer:
    return 'I'
  return 'R'


def iv(x):
  """index/dim value -> python int or z3 Int."""
  if isinstance(x, T):
    t = x.term
    if z3.is_real(t):
      t = z3.ToInt(t)
    t = simp(t)
    return t.as_long() if z3.is_int_value(t) else t
  if isinstance(x, Variable):
    return iv(x.cur)
  if isz(x):
    x = z3.simplify(x)
    return x.as_long() if z3.is_int_value(x) else x
  if isinstance(x, (int, np.integer)):
    return int(x)
  if hasattr(x, 'numpy'):
    return int(x.numpy())
  if isinstance(x, float) and x == int(x):
    return int(x)
  raise Unsupported('index value %r' % (type(x),))


def zi(x):
  return x if isz(x) else z3.IntVal(int(x))


# ---- products of dimensions --------------------------------------------------
def _factors(d):
  """dim -> (const, sorted tuple of (id, term)), through known factorisations."""
  cst, syms = _factors0(d)
  ex = ctx().memo.get('expand')
  if not ex or not any(i in ex for i, _ in syms):
    return cst, syms
  out = ()
  for i, t in syms:
    if i in ex:
      n, k = ex[i]
      c2, s2 = _factors(k)
      cst *= n * c2
      out += s2
    else:
      out += ((i, t),)
  return cst, tuple(sorted(out, key=lambda p: p[0]))


def expand_dim(d, n):
  """If n | d is provable, record d = n*K and return K (else None)."""
  c = ctx()
  d = simp(d)
  ex = c.memo.setdefault('expand', {})
  if d.get_id() in ex:
    m, k = ex[d.get_id()]
    return k if m == n else None
  if not c.entails(d % n == 0):
    return None
  k = c.fresh('quot')
  c.fact(k * n == d)
  c.memo.setdefault('keep', []).append(d)
  # products that mention d get their factored form too
  old = [(t, _factors(t)) for t in c.memo.get('prodterms', [])]
  ex[d.get_id()] = (n, k)
  for t, (cs, sy) in old:
    if any(i == d.get_id() for i, _ in sy):
      c.fact(t == zi(dprod([cs] + [x for _, x in sy])))
  return k


def _factors0(d):
  """dim -> (const, sorted tuple of (id, term))"""
  c = ctx()
  fm = c.memo.setdefault('factors', {})
  if isinstance(d, int):
    return d, ()
  d = simp(d)
  if z3.is_int_value(d):
    return d.as_long(), ()
  if d.get_id() in fm:
    return fm[d.get_id()]
  if z3.is_mul(d):
    cst, syms = 1, ()
    for a in d.children():
      ca, sa = _factors0(a)
      cst *= ca
      syms += sa
    return cst, tuple(sorted(syms, key=lambda p: p[0]))
  return 1, ((d.get_id(), d),)


def dprod(dims):
  c = ctx()
  cst, syms = 1, ()
  for d in dims:
    a, s = _factors(d)
    cst *= a
    syms += s
  syms = tuple(sorted(syms, key=lambda p: p[0]))
  if not syms:
    return cst
  if len(syms) == 1:
    p = syms[0][1]
  else:
    key = tuple(s[0] for s in syms)
    pm = c.memo.setdefault('prods', {})
    if key not in pm:
      v = c.fresh('size')
      c.memo.setdefault('keep', []).append([s[1] for s in syms])
      c.memo.setdefault('factors', {})[v.get_id()] = (1, syms)
      for _, t in syms:
        c.fact(z3.Implies(z3.And([u >= 1 for _, u in syms]), v >= t))
      c.fact(z3.Implies(z3.And([u >= 0 for _, u in syms]), v >= 0))
      c.fact(z3.Implies(z3.Or([u == 0 for _, u in syms]), v == 0))
      for k, (_, t) in enumerate(syms):
        rest = [s for j, (_, s) in enumerate(syms) if j != k]
        if len(rest) == 1:
          c.fact(z3.Implies(t == 1, v == rest[0]))
      pm[key] = v
      c.memo.setdefault('prodterms', []).append(v)
      c.memo.setdefault('keep', []).append(v)
    p = pm[key]
  if cst == 1:
    return p
  r = simp(p * cst)
  c.memo.setdefault('factors', {})[r.get_id()] = (cst, syms)
  c.memo.setdefault('keep', []).append(r)
  return r


def size_div(total, n):
  """total // n through a factor of total that n provably divides (or None)."""
  ct, st = _factors(total)
  if ct % n == 0:
    return dprod([ct // n] + [x for _, x in st])
  for i, t in st:
    k = expand_dim(t, n)
    if k is not None:
      return dprod([ct, k] + [x for _, x in st if x is not t])
  return None


def ddiv(total, d):
  """total / d for an exact division of products (-1 in reshape)."""
  c = ctx()
  ct, st = _factors(total)
  cd, sd = _factors(d)
  rest = list(st)
  ok = True
  for s in sd:
    if s in rest:
      rest.remove(s)
    else:
      m = [r for r in rest if r[0] == s[0]]
      if m:
        rest.remove(m[0])
      else:
        ok = False
        break
  if ok and ct % cd == 0:
    return dprod([ct // cd] + [r[1] for r in rest])
  if isinstance(d, int) or z3.is_int_value(simp(zi(d))):
    dd = iv(d)
    q = size_div(total, dd)
    if q is not None:
      return q
    # TF raises unless divisible
    if not c.branch(zi(total) % dd == 0):
      raise ValueError('reshape: size not divisible')
    q = simp(zi(total) / dd)
    return iv(q)
  raise Unsupported('reshape with non-syntactic division')


# ---- row-major pairing  R2(q, j; d) = q*d + j ------------------------------
def pair(q, j, d, n=None):
  """flat index; n = number of rows (for the bound fact)."""
  c = ctx()
  if isinstance(d, int):
    if isinstance(q, int) and isinstance(j, int):
      return q * d + j
    if d == 1 and isinstance(j, int) and j == 0:
      return q
    t = simp(zi(q) * d + zi(j))
    c.memo.setdefault('pairs', {})[t.get_id()] = (q, j, d)
    c.memo.setdefault('keep', []).append(t)
    return iv(t)
  if isinstance(q, int) and q == 0:
    return j
  key = ('pairf', z3.simplify(d).get_id())
  if key not in c.memo:
    c.memo.setdefault('keep', []).append(d)
    c.memo[key] = (c.freshf('pair', 2, 'I'), c.freshf('quot', 1, 'I'),
                   c.freshf('rem', 1, 'I'))
  R, Q, M = c.memo[key]
  t = simp(R(zi(q), zi(j)))
  c.memo.setdefault('keep', []).append(t)
  c.memo.setdefault('pairs', {})[t.get_id()] = (q, j, d)
  mk = ('pairfact', t.get_id())
  if mk not in c.memo:
    c.memo[mk] = True
    inb = z3.And(zi(q) >= 0, zi(j) >= 0, zi(j) < d)
    c.fact(z3.Implies(inb, z3.And(Q(t) == q, M(t) == j, t >= 0)))
    c.fact(z3.Implies(zi(q) == 0, t == zi(j)))
  if n is not None:
    mk = ('pairbound', t.get_id(), str(n))
    if mk not in c.memo:
      c.memo[mk] = True
      c.fact(z3.Implies(
          z3.And(zi(q) >= 0, zi(q) < zi(n), zi(j) >= 0, zi(j) < d),
          z3.And(t >= 0, t < zi(dprod([n, d])))))
  return t


def unpair(f, d, n=None):
  """(f // d, f % d) for 0 <= f < n*d."""
  c = ctx()
  if isinstance(f, int) and isinstance(d, int):
    return f // d, f % d
  if isinstance(d, int) and d == 1:
    return f, 0
  if isz(f):
    f = simp(f)
    pm = c.memo.get('pairs', {})
    if f.get_id() in pm:
      q, j, dd = pm[f.get_id()]
      if (isinstance(d, int) and isinstance(dd, int) and d == dd) or (
          isz(d) and isz(dd) and z3.simplify(d).get_id() == z3.simplify(dd).get_id()):
        # exact because producers only pair in-range columns
        return q, j
      ex = c.memo.get('expand', {})
      if isinstance(d, int) and isz(dd) and ex.get(z3.simplify(dd).get_id(), (0,))[0] == d:
        kk = ex[z3.simplify(dd).get_id()][1]
        return (pair(q, iv(simp(zi(j) / d)), kk), iv(simp(zi(j) % d)))
      if isinstance(dd, int) and isz(d) and ex.get(z3.simplify(d).get_id(), (0,))[0] == dd:
        r, g = unpair(q, ex[z3.simplify(d).get_id()][1], n)
        return r, iv(simp(zi(g) * dd + zi(j)))
      if isinstance(d, int) and isz(dd):
        # lemma: d | dd  =>  (q*dd+j)/d = q*(dd/d)+j/d  and  (q*dd+j)%d = j%d
        mk = ('lemma', f.get_id(), d)
        if mk not in c.memo:
          c.memo[mk] = True
          dk = simp(dd / d)
          sub = pair(q, simp(zi(j) / d), iv(dk))
          inb = z3.And(zi(q) >= 0, zi(j) >= 0, zi(j) < dd)
          c.fact(z3.Implies(z3.And(inb, dd % d == 0),
                            z3.And(f / d == zi(sub), f % d == zi(j) % d)))
  if isinstance(d, int):
    return iv(simp(floordiv_t(zi(f), d))), iv(simp(mod_t(zi(f), d)))
  key = ('pairf', z3.simplify(d).get_id())
  if key not in c.memo:
    c.memo.setdefault('keep', []).append(d)
    c.memo[key] = (c.freshf('pair', 2, 'I'), c.freshf('quot', 1, 'I'),
                   c.freshf('rem', 1, 'I'))
  R, Q, M = c.memo[key]
  q, j = Q(zi(f)), M(zi(f))
  mk = ('unpairfact', simp(zi(f)).get_id(), key[1])
  if mk not in c.memo:
    c.memo[mk] = True
    c.memo.setdefault('keep', []).append(simp(zi(f)))
    body = z3.And(q >= 0, j >= 0, j < d, R(q, j) == zi(f))
    if n is not None:
      body = z3.And(body, z3.Implies(zi(f) < zi(dprod([n, d])), q < zi(n)))
    c.fact(z3.Implies(z3.And(zi(f) >= 0, zi(d) >= 1), body))
    c.fact(z3.Implies(z3.And(zi(f) >= 0, zi(f) < d), z3.And(q == 0, j == zi(f))))
  return q, j


def ravel(idx, shape):
  if not shape:
    return 0
  f = idx[0]
  n = shape[0]
  for i, d in zip(idx[1:], shape[1:]):
    f = pair(f, i, d, n)
    n = dprod([n, d])
  return f


def unravel(f, shape):
  if not shape:
    return ()
  out = []
  ns = [shape[0]]
  for d in shape[1:]:
    ns.append(dprod([ns[-1], d]))
  for k in range(len(shape) - 1, 0, -1):
    f, j = unpair(f, shape[k], ns[k - 1])
    out.append(j)
  out.append(f)
  return tuple(reversed(out))


def same_dim(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a == b
  if z3.simplify(zi(a)).get_id() == z3.simplify(zi(b)).get_id():
    return True
  (ca, sa), (cb, sb) = _factors(a), _factors(b)
  return ca == cb and [x[0] for x in sa] == [x[0] for x in sb]


# ---------------------------------------------------------------------------
class SShape:
  """Static shape of a symbolic tensor."""

  def __init__(self, dims):
    self.d = tuple(dims)

  @staticmethod
  def _p(d):
    if isinstance(d, int) or d is None:
      return d
    return pyint(d)

  def __len__(self):
    return len(self.d)

  def __iter__(self):
    return iter([self._p(d) for d in self.d])

  def __getitem__(self, k):
    if isinstance(k, slice):
      return SShape(self.d[k])
    return self._p(self.d[k])

  def as_list(self):
    return [self._p(d) for d in self.d]

  @property
  def dims(self):
    return self.as_list()

  @property
  def ndims(self):
    return len(self.d)

  rank = ndims

  def num_elements(self):
    return self._p(dprod(self.d))

  def is_fully_defined(self):
    return True

  def is_compatible_with(self, other):
    return True

  def assert_is_compatible_with(self, other):
    pass

  def __eq__(self, other):
    o = shape_list(other)
    if len(o) != len(self.d):
      return False
    r = True
    for a, b in zip(self.d, o):
      if same_dim(a, b):
        continue
      if isinstance(a, int) and isinstance(b, int):
        return False
      if not ctx().branch(zi(a) == zi(b)):
        return False
    return r

  def __ne__(self, o):
    return not self == o

  def __add__(self, o):
    return SShape(self.d + tuple(shape_list(o)))

  def __radd__(self, o):
    return SShape(tuple(shape_list(o)) + self.d)

  __hash__ = None

  def concatenate(self, o):
    return self + o


def shape_list(s):
  """anything shape-like -> list of dims."""
  if isinstance(s, SShape):
    return list(s.d)
  if isinstance(s, Variable):
    s = s.cur
  if isinstance(s, T):
    if s.rank_ == 0:
      return [iv(s)]
    n = iv(s.shape_[0])
    if not isinstance(n, int):
      raise Unsupported('shape vector of symbolic length')
    return [iv(s.at(k)) for k in range(n)]
  if hasattr(s, 'as_list'):
    return [iv(x) for x in s.as_list()]
  if isinstance(s, (int, np.integer)) or isz(s):
    return [iv(s)]
  if hasattr(s, 'numpy'):
    s = s.numpy()
    return [int(x) for x in np.atleast_1d(s)]
  return [iv(x) for x in s]


class T:
  """Immutable symbolic tensor."""
  __array_priority__ = 1000

  def __init__(self, shape, dtype, fn, py=False):
    self.shape_ = tuple(iv(d) for d in shape)
    self.dtype = dtype
    self.fn = fn
    self.py = py
    self._memo = {}
    self.name = 'sym'

  @property
  def rank_(self):
    return len(self.shape_)

  def at(self, *idx):
    assert len(idx) == len(self.shape_), (idx, self.shape_)
    idx = tuple(iv(i) if not isinstance(i, int) else i for i in idx)
    key = tuple(i if isinstance(i, int) else ('z', i.get_id()) for i in idx)
    if key not in self._memo:
      r = self.fn(*idx)
      k = kind(self.dtype)
      if not isz(r):
        r = (z3.BoolVal(bool(r)) if k == 'B' else
             z3.IntVal(int(r)) if k == 'I' else _realval(r))
      if k == 'R' and z3.is_int(r):
        r = z3.ToReal(r)
      self._memo[key] = (simp(r), idx)
    return self._memo[key][0]

  @property
  def term(self):
    if self.shape_:
      tot = dprod(self.shape_)
      if isinstance(tot, int) and tot == 1:
        return self.at(*([0] * len(self.shape_)))
      raise Unsupported('non-scalar tensor used as scalar')
    return self.at()

  # -- tensor API
  @property
  def shape(self):
    return SShape(self.shape_)

  def get_shape(self):
    return self.shape

  @property
  def ndim(self):
    return len(self.shape_)

  def set_shape(self, s):
    pass

  def numpy(self):
    if not self.shape_:
      return T((), self.dtype, self.fn, py=True)
    return self

  def read_value(self):
    return self

  def value(self):
    return self

  def eval(self):
    return self

  def item(self):
    return self

  def __bool__(self):
    t = self.term
    if not z3.is_bool(t):
      t = t != 0
    return ctx().branch(t)

  def __len__(self):
    n = self.shape_[0]
    if isinstance(n, int):
      return n
    raise Unsupported('len of symbolic tensor')

  def __iter__(self):
    if not self.shape_:
      raise TypeError('iteration over a 0-d tensor')
    n = self.shape_[0]
    if not isinstance(n, int):
      raise Unsupported('iteration over symbolic dimension')
    return iter([self[k] for k in range(n)])

  def __index__(self):
    t = self.term
    if z3.is_int_value(t):
      return t.as_long()
    raise Unsupported('concretisation of a symbolic integer')

  def __int__(self):
    return self.__index__()

  def __float__(self):
    t = self.term
    if z3.is_rational_value(t):
      return core._real(t)
    raise Unsupported('concretisation of a symbolic real')

  def __array__(self, *a, **k):
    c = self.concrete()
    if c is not None:
      return c
    raise Unsupported('concretisation of a symbolic tensor')

  def concrete(self):
    """numpy value when every element is a literal."""
    if not all(isinstance(d, int) for d in self.shape_):
      return None
    vals = []
    for idx in itertools.product(*[range(d) for d in self.shape_]):
      t = self.at(*idx)
      if z3.is_int_value(t):
        vals.append(t.as_long())
      elif z3.is_true(t) or z3.is_false(t):
        vals.append(z3.is_true(t))
      elif z3.is_rational_value(t):
        vals.append(core._real(t))
      else:
        return None
    return np.array(vals, dtype=self.dtype.as_numpy_dtype).reshape(self.shape_)

  def __format__(self, spec):
    return '<sym>'

  def __str__(self):
    return '<sym %s>' % (self.shape_,)

  __repr__ = __str__
  __hash__ = object.__hash__

  def __getitem__(self, key):
    return getitem(self, key)

  # arithmetic
  def __add__(self, o):
    return binop('add', self, o)

  def __radd__(self, o):
    return binop('add', o, self)

  def __sub__(self, o):
    return binop('sub', self, o)

  def __rsub__(self, o):
    return binop('sub', o, self)

  def __mul__(self, o):
    return binop('mul', self, o)

  def __rmul__(self, o):
    return binop('mul', o, self)

  def __truediv__(self, o):
    return binop('div', self, o)

  def __rtruediv__(self, o):
    return binop('div', o, self)

  def __floordiv__(self, o):
    return binop('floordiv', self, o)

  def __rfloordiv__(self, o):
    return binop('floordiv', o, self)

  def __mod__(self, o):
    return binop('mod', self, o)

  def __rmod__(self, o):
    if isinstance(o, str):
      return o
    return binop('mod', o, self)

  def __pow__(self, o):
    return binop('pow', self, o)

  def __rpow__(self, o):
    return binop('pow', o, self)

  def __matmul__(self, o):
    from dv import ops
    return ops.matmul(self, o)

  def __neg__(self):
    return unop('neg', self)

  def __pos__(self):
    return self

  def __abs__(self):
    return unop('abs', self)

  def __round__(self, n=None):
    r = unop('round', self)
    return pyint(z3.ToInt(r.term)) if n is None else r

  def __lt__(self, o):
    return binop('lt', self, o)

  def __le__(self, o):
    return binop('le', self, o)

  def __gt__(self, o):
    return binop('gt', self, o)

  def __ge__(self, o):
    return binop('ge', self, o)

  def __eq__(self, o):
    if o is None or isinstance(o, str):
      return False
    return binop('eq', self, o)

  def __ne__(self, o):
    if o is None or isinstance(o, str):
      return True
    return binop('ne', self, o)

  def __and__(self, o):
    return binop('and', self, o)

  __rand__ = __and__

  def __or__(self, o):
    return binop('or', self, o)

  __ror__ = __or__

  def __xor__(self, o):
    return binop('ne', self, o)

  def __invert__(self):
    return unop('not', self)


class Variable(T):
  """Mutable tensor; every write is logged (frame conditions)."""

  def __init__(self, cur, name='var'):  # pylint: disable=super-init-not-called
    self.cur = cur
    self.name = name
    self.py = False
    self.init = cur
    self.trainable = True
    self.writes = 0

  shape_ = property(lambda s: s.cur.shape_)
  dtype = property(lambda s: s.cur.dtype)
  fn = property(lambda s: s.cur.fn)
  _memo = property(lambda s: s.cur._memo)

  def read_value(self):
    return self.cur

  def value(self):
    return self.cur

  def numpy(self):
    return self.cur.numpy()

  def assign(self, v, **kw):
    v = lift(v, self.dtype)
    v = cast(v, self.dtype) if kind(v.dtype) != kind(self.dtype) else v
    if len(v.shape_) != len(self.shape_):
      raise ValueError('assign: rank mismatch')
    for a, b in zip(v.shape_, self.shape_):
      if not same_dim(a, b):
        if isinstance(a, int) and isinstance(b, int) or not ctx().branch(zi(a) == zi(b)):
          raise ValueError('assign: shape mismatch')
    self.cur = T(self.shape_, self.dtype, v.fn)
    self.writes += 1
    ctx().writes.append(self)
    return self

  def assign_add(self, v, **kw):
    return self.assign(binop('add', self.cur, v))

  def assign_sub(self, v, **kw):
    return self.assign(binop('sub', self.cur, v))

  __hash__ = object.__hash__

  def __eq__(self, o):
    return T.__eq__(self.cur, o)

  def __getitem__(self, key):
    r = getitem(self, key)
    if not isinstance(key, (slice, tuple)) and key is not None and key is not Ellipsis:
      kk, me = zi(iv(key)), self

      def assign(v, **kw):
        v = cast(lift(v, me.dtype), me.dtype)
        if len(v.shape_) != len(r.shape_):
          raise Unsupported('sliced assign with broadcasting')
        old = me.cur
        new = T(old.shape_, old.dtype, lambda i, *rest: z3.If(zi(i) == kk, v.at(*rest), old.at(i, *rest)))
        me.cur = new
        me.writes += 1
        ctx().writes.append(me)
        return me

      r.assign = assign
    return r


def _realval(r):
  if isinstance(r, bool):
    r = int(r)
  if isinstance(r, int):
    return z3.RealVal(r)
  f = float(r)
  if f != f or f in (float('inf'), float('-inf')):
    c = ctx()
    c.exact = False
    return c.fresh('nonfinite', 'R')
  import fractions
  # decimal literal as written (0.9 means 9/10)
  return z3.RealVal(str(fractions.Fraction(repr(f))))


def scalar(term, dtype, py=False):
  return T((), dtype, lambda: term, py=py)


def pyint(t):
  t = simp(t) if isz(t) else z3.IntVal(int(t))
  if z3.is_int_value(t):
    return t.as_long()
  return scalar(t, _tf().int32, py=True)


def pyreal(t):
  return scalar(t, _tf().float32, py=True)


def pybool(t):
  t = simp(t)
  if z3.is_true(t):
    return True
  if z3.is_false(t):
    return False
  return scalar(t, _tf().bool, py=True)


def fresh_tensor(name, shape, dtype, lo=None, hi=None):
  c = ctx()
  dt = as_dtype(dtype)
  k = kind(dt)
  shape = [iv(s) for s in shape]
  sorts = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}
  if not shape:
    t = {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[k](name)
    if lo is not None:
      c.pc.append(t >= lo)
    if hi is not None:
      c.pc.append(t <= hi)
    return scalar(t, dt)
  f = z3.Function(name, *([z3.IntSort()] * len(shape)), sorts[k])
  if isinstance(lo, int) and isinstance(hi, int) and k == 'I':
    c.memo.setdefault('bounds', {})[name] = (lo, hi)

  def fn(*idx):
    t = f(*[zi(i) for i in idx])
    if lo is not None:
      c.fact(t >= lo)
    if hi is not None:
      c.fact(t <= hi)
    return t

  return T(shape, dt, fn)


def const(a, dtype=None):
  a = np.asarray(a)
  if a.dtype == object:
    raise Unsupported('object array')
  dt = as_dtype(dtype) if dtype is not None else as_dtype(
      a.dtype if a.dtype != np.float64 else np.float32)
  if dtype is None and a.dtype == np.int64:
    dt = as_dtype('int32')
  lst = a

  def fn(*idx):
    if all(isinstance(i, int) for i in idx):
      v = lst[idx]
      return v.item() if hasattr(v, 'item') else v
    if lst.size > 512:
      raise Unsupported('symbolic index into a large constant')
    k = kind(dt)
    cells = list(itertools.product(*[range(d) for d in lst.shape]))

    def lit(v):
      v = v.item() if hasattr(v, 'item') else v
      return (z3.BoolVal(bool(v)) if k == 'B' else z3.IntVal(int(v))
              if k == 'I' else _realval(v))

    if not cells:
      return lit(0)
    if lst.size and (lst == lst.flat[0]).all():
      return lit(lst.flat[0])
    r = lit(lst[cells[-1]])
    for cidx in reversed(cells[:-1]):
      cond = z3.And([zi(i) == j for i, j in zip(idx, cidx)])
      r = z3.If(cond, lit(lst[cidx]), r)
    return r

  return T(a.shape, dt, fn)


def lift(x, dtype=None):
  """anything tensor-like -> T (dtype is a preference for Python numbers)."""
  tf = _tf()
  if isinstance(x, Variable):
    x = x.cur
  if isinstance(x, T):
    if x.py and dtype is not None:
      dt = as_dtype(dtype)
      if kind(dt) == kind(x.dtype) or kind(dt) == 'R':
        return cast(x, dt)
    return x
  if isinstance(x, SShape):
    return stack_scalars(list(x.d), dtype or tf.int32)
  if isz(x):
    dt = tf.bool if z3.is_bool(x) else tf.int32 if z3.is_int(x) else tf.float32
    return scalar(x, dt)
  if isinstance(x, (bool, np.bool_)):
    return scalar(z3.BoolVal(bool(x)), tf.bool, py=True)
  if isinstance(x, (int, np.integer)):
    dt = as_dtype(dtype) if dtype is not None else tf.int32
    if kind(dt) == 'B':
      dt = tf.int32
    return scalar(z3.IntVal(int(x)) if kind(dt) == 'I' else z3.RealVal(int(x)), dt, py=True)
  if isinstance(x, (float, np.floating)):
    dt = as_dtype(dtype) if dtype is not None and kind(as_dtype(dtype)) == 'R' else tf.float32
    return scalar(_realval(float(x)), dt, py=True)
  if isinstance(x, (list, tuple)):
    if any(_has_sym(y) for y in x):
      parts = [lift(y, dtype) for y in x]
      if all(len(p.shape_) == 0 for p in parts):
        dt = next((p.dtype for p in parts if not p.py), None) or (
            as_dtype(dtype) if dtype is not None else parts[0].dtype)
        if any(kind(p.dtype) == 'R' for p in parts) and kind(dt) == 'I':
          dt = tf.float32
        return stack_scalars([p.term for p in parts], dt)
      from dv import ops
      return ops.stack(parts, 0)
    x = np.array([y.numpy() if hasattr(y, 'numpy') else y for y in x])
    return const(x, dtype)
  if hasattr(x, 'as_list') and not hasattr(x, 'numpy'):
    return const(np.array(x.as_list()), dtype or tf.int32)
  if hasattr(x, 'numpy'):
    v = np.asarray(x.numpy())
    return const(v, x.dtype)
  if isinstance(x, np.ndarray):
    return const(x, dtype if dtype is not None else as_dtype(x.dtype))
  raise Unsupported('lift %r' % (type(x),))


def _has_sym(y):
  if isinstance(y, (T, SShape)) or isz(y):
    return True
  if isinstance(y, (list, tuple)):
    return any(_has_sym(z) for z in y)
  if isinstance(y, dict):
    return any(_has_sym(z) for z in y.values())
  return False


def stack_scalars(terms, dtype):
  dt = as_dtype(dtype)
  ts = [t for t in terms]

  def fn(i):
    if isinstance(i, int):
      return conv(ts[i], kind(dt))
    r = conv(ts[-1], kind(dt))
    for k in range(len(ts) - 2, -1, -1):
      r = z3.If(i == k, conv(ts[k], kind(dt)), r)
    return r

  return T((len(ts),), dt, fn)


def conv(t, k):
  """term -> term of kind k."""
  if not isz(t):
    return (z3.BoolVal(bool(t)) if k == 'B' else z3.IntVal(int(t))
            if k == 'I' else _realval(t))
  if k == 'R':
    if z3.is_bool(t):
      return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if z3.is_int(t) else t
  if k == 'I':
    if z3.is_bool(t):
      return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return core.trunc_t(t) if z3.is_real(t) else t
  if z3.is_bool(t):
    return t
  return t != 0


def cast(x, dtype):
  x = lift(x)
  dt = as_dtype(dtype)
  if kind(dt) == kind(x.dtype):
    return T(x.shape_, dt, x.fn)
  return T(x.shape_, dt, lambda *i: conv(x.at(*i), kind(dt)))


# ---- broadcasting ---------------------------------------------------------
def bdim(a, b):
  if same_dim(a, b):
    return a
  if isinstance(a, int) and a == 1:
    return b
  if isinstance(b, int) and b == 1:
    return a
  if isinstance(a, int) and isinstance(b, int):
    raise ValueError('Incompatible shapes %s %s' % (a, b))
  c = ctx()
  if c.branch(zi(a) == zi(b)):
    return a if isinstance(a, int) else b if isinstance(b, int) else a
  if c.branch(zi(a) == 1):
    return b
  if c.branch(zi(b) == 1):
    return a
  raise ValueError('Incompatible shapes')


def bshape(*shapes):
  r = max(len(s) for s in shapes)
  out = []
  for k in range(r):
    d = 1
    for s in shapes:
      j = k - (r - len(s))
      if j >= 0:
        d = bdim(d, s[j]) if not (isinstance(d, int) and d == 1) else s[j]
    out.append(d)
  return tuple(out)


def bat(x, idx, out_shape):
  """element of x broadcast to out_shape at idx."""
  off = len(out_shape) - len(x.shape_)
  sub = []
  for k, d in enumerate(x.shape_):
    if isinstance(d, int) and d == 1:
      sub.append(0)
    elif not same_dim(d, out_shape[off + k]):
      # dims proved equal or d proved 1 on this path
      sub.append(z3.If(zi(d) == 1, z3.IntVal(0), zi(idx[off + k])))
    else:
      sub.append(idx[off + k])
  return x.at(*sub)


def ew(dtype, fn, *xs, py=False):
  """elementwise op over broadcast operands."""
  shp = bshape(*[x.shape_ for x in xs])
  return T(shp, dtype, lambda *i: fn(*[bat(x, i, shp) for x in xs]), py=py)


def result_dtype(a, b):
  if a.py and not b.py:
    return b.dtype
  if b.py and not a.py:
    return a.dtype
  if kind(a.dtype) == 'R':
    return a.dtype
  if kind(b.dtype) == 'R':
    return b.dtype
  return a.dtype


def power_t(a, b):
  """real power; uninterpreted with sound facts unless the exponent is a small literal."""
  c = ctx()
  if z3.is_int(a) and z3.is_int_value(b) and 0 <= b.as_long() <= 64:
    r = z3.IntVal(1)
    if z3.is_int_value(a):
      return z3.IntVal(a.as_long()**b.as_long())
    for _ in range(b.as_long()):
      r = r * a
    return r
  if z3.is_int_value(a) and z3.is_int(b):
    base = a.as_long()
    f = c.memo.setdefault(('ipow', base), z3.Function('pow_%d' % base, z3.IntSort(), z3.IntSort()))
    # 0..64 table
    r = f(b)
    for k in range(64, -1, -1):
      r = z3.If(b == k, z3.IntVal(base**k), r)
    return r
  a, b = unify(a, b)
  if z3.is_int(a):
    a, b = z3.ToReal(a), z3.ToReal(b)
  b = simp(b)
  if z3.is_rational_value(b) and b.denominator_as_long() == 1 and 0 <= b.numerator_as_long() <= 4:
    r = z3.RealVal(1)
    for _ in range(b.numerator_as_long()):
      r = r * a
    return r
  f = z3.Function('rpow', z3.RealSort(), z3.RealSort(), z3.RealSort())
  t = f(a, b)
  key = ('rpow', simp(t).get_id())
  if key not in c.memo:
    c.memo[key] = t
    c.assumed_ops.add('pow: for b>0: 0^b=0, 1^b=1, a in [0,1] => a^b in [0,1], '
                      'a>0 => a^b>0, monotone in a>=0, a^1=a, a^2=a*a, a^3=a*a*a')
    pos = b > 0
    c.fact(z3.Implies(z3.And(a >= 0, a <= 1, pos), z3.And(t >= 0, t <= 1)))
    c.fact(z3.Implies(z3.And(a > 0, a < 1, pos), z3.And(t > 0, t < 1)))
    c.fact(z3.Implies(z3.And(a == 0, pos), t == 0))
    c.fact(z3.Implies(a == 1, t == 1))
    c.fact(z3.Implies(a > 1, z3.Implies(pos, t > 1)))
    c.fact(z3.Implies(b == 1, t == a))
    c.fact(z3.Implies(b == 2, t == a * a))
    c.fact(z3.Implies(b == 3, t == a * a * a))
    c.fact(z3.Implies(z3.And(b == 0), t == 1))
    for (a2, b2, t2) in c.powterms:
      c.fact(z3.Implies(z3.And(b == b2, a >= 0, a2 >= 0, pos),
                        z3.And(z3.Implies(a <= a2, t <= t2),
                               z3.Implies(a2 <= a, t2 <= t))))
    c.powterms.append((a, b, t))
  return t


def _int_ratio(x, y):
  """x / y for integer terms: the defining equation plus the linear facts solvers miss."""
  c = ctx()
  m = c.memo.setdefault('ratio', {})
  k = (x.get_id(), y.get_id())
  if k not in m:
    q = c.fresh('ratio', 'R')
    rx, ry = z3.ToReal(x), z3.ToReal(y)
    c.fact(z3.Implies(y != 0, q * ry == rx))
    c.fact(z3.Implies(z3.And(y > 0, x >= 0), q >= 0))
    c.fact(z3.Implies(z3.And(y > 0, x <= y), q <= 1))
    c.fact(z3.Implies(z3.And(y > 0, x == 0), q == 0))
    c.fact(z3.Implies(z3.And(y > 0, x == y), q == 1))
    c.fact(z3.Implies(y == 0, q == rx / ry))
    m[k] = (q, x, y)
  return m[k][0]


def digit_fact(x, y):
  """floor(t / d) == m * floor(t / (d * m)) + floor(t / d) % m  (theorem, helps the solvers)."""
  x, y = simp(x), simp(y)
  if not (z3.is_int_value(y) and y.as_long() > 1 and z3.is_app(x)):
    return
  m = y.as_long()
  t, d = x, 1
  if x.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() > 0:
    t, d = x.arg(0), x.arg(1).as_long()
  elif x.decl().kind() != z3.Z3_OP_UNINTERPRETED:
    return
  c = ctx()
  mk = ('digit', x.get_id(), m)
  if mk not in c.memo:
    c.memo[mk] = True
    c.memo.setdefault('keep', []).append(x)
    c.fact(x == m * (t / (d * m)) + x % m)


def interval(t):
  """Sound integer bounds of a term from its syntax (None = unknown)."""
  memo = ctx().memo.setdefault('intervals', {})
  k = t.get_id()
  if k in memo:
    return memo[k][1]
  memo[k] = (t, None)
  r = None
  if z3.is_int_value(t):
    r = (t.as_long(), t.as_long())
  elif z3.is_app(t):
    kd = t.decl().kind()
    if kd == z3.Z3_OP_UNINTERPRETED:
      r = ctx().memo.get('bounds', {}).get(t.decl().name())
    elif kd == z3.Z3_OP_ADD:
      rs = [interval(a) for a in t.children()]
      if all(rs):
        r = (sum(a[0] for a in rs), sum(a[1] for a in rs))
    elif kd == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
      b, m = interval(t.arg(1)), t.arg(0).as_long()
      if b:
        r = (min(b[0] * m, b[1] * m), max(b[0] * m, b[1] * m))
    elif kd == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
      r = (0, t.arg(1).as_long() - 1)
    elif kd == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
      b = interval(t.arg(0))
      if b:
        r = (b[0] // t.arg(1).as_long(), b[1] // t.arg(1).as_long())
    elif kd == z3.Z3_OP_ITE:
      a, b = interval(t.arg(1)), interval(t.arg(2))
      if a and b:
        r = (min(a[0], b[0]), max(a[1], b[1]))
  memo[k] = (t, r)
  return r


def radix_split(x, y):
  """x = y*A + B with the solver confirming 0 <= B < y: (A, B), i.e. (x // y, x % y)."""
  y = simp(y)
  if not (z3.is_int(x) and z3.is_int_value(y) and y.as_long() > 1):
    return None
  d = y.as_long()
  x = simp(x)
  c = ctx()
  mk = ('radix', x.get_id(), d)
  if mk in c.memo:
    return c.memo[mk]
  A, B = [], []
  for t in (x.children() if z3.is_add(x) else [x]):
    if z3.is_int_value(t):
      v = t.as_long()
      A.append(z3.IntVal(v // d))
      B.append(z3.IntVal(v % d))
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
      k = t.arg(0).as_long()
      if k % d == 0:
        A.append(z3.IntVal(k // d) * t.arg(1))
      else:
        B.append(t)
    else:
      B.append(t)
  r = None
  A, B = simp(z3.Sum(A)) if A else z3.IntVal(0), simp(z3.Sum(B)) if B else z3.IntVal(0)
  ib = interval(B)
  if ib is not None and 0 <= ib[0] and ib[1] < d:
    r = (A, B)
  elif c.refuted_fast(z3.Or(B < 0, B >= d)):
    r = (A, B)
  c.memo.setdefault('keep', []).append(x)
  c.memo[mk] = r
  return r


def binop(op, a, b):
  tf = _tf()
  try:
    if not isinstance(a, T) and not isinstance(b, T):
      if hasattr(b, 'dtype') and not isinstance(b, np.generic):
        b = lift(b)
      else:
        a = lift(a)
    if not isinstance(a, T):
      a = lift(a, b.dtype if not getattr(b, 'py', False) else None)
    else:
      a = lift(a)
    if not isinstance(b, T):
      b = lift(b, a.dtype if not a.py else None)
    else:
      b = lift(b)
  except Unsupported:
    raise
  if a.py and not b.py:
    a = lift(a, b.dtype)
  elif b.py and not a.py:
    b = lift(b, a.dtype)
  py = a.py and b.py
  if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'and', 'or'):
    def f(x, y):
      if op in ('and', 'or'):
        x, y = conv(x, 'B'), conv(y, 'B')
        return z3.And(x, y) if op == 'and' else z3.Or(x, y)
      if z3.is_bool(x) != z3.is_bool(y):
        x, y = conv(x, 'I'), conv(y, 'I')
      x, y = unify(x, y)
      return {'eq': lambda: x == y, 'ne': lambda: x != y, 'lt': lambda: x < y,
              'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[op]()
    r = ew(tf.bool, f, a, b, py=py)
    if py and not r.shape_:
      return pybool(r.term)
    return r
  dt = result_dtype(a, b)
  if kind(dt) == 'B':
    dt = tf.int32
  if op == 'div' and kind(dt) == 'I':
    dt = tf.float64

  def g(x, y):
    x, y = conv(x, kind(dt)) if z3.is_bool(x) else x, conv(y, kind(dt)) if z3.is_bool(y) else y
    if op == 'pow':
      return power_t(x, y)
    x, y = unify(x, y)
    if op == 'add':
      return x + y
    if op == 'sub':
      return x - y
    if op == 'mul':
      return x * y
    if op == 'div':
      if z3.is_int(x):
        if not z3.is_int_value(simp(y)):
          return _int_ratio(simp(x), simp(y))
        x, y = z3.ToReal(x), z3.ToReal(y)
      inv = core.sqrt_inverse(y)
      return x / y if inv is None else x * inv
    if op == 'floordiv':
      if z3.is_int(x) and z3.is_int_value(y) and y.as_long() > 1 and not z3.is_int_value(x):
        fm = ctx().memo.get('factors', {})
        if simp(x).get_id() in fm:
          q = size_div(x, y.as_long())
          if q is not None:
            return zi(q)
      ab = radix_split(x, y)
      if ab is not None:
        return ab[0]
      return core.floordiv_t(x, y)
    if op == 'mod':
      ab = radix_split(x, y)
      if ab is not None:
        return ab[1]
      if z3.is_int_value(simp(y)) and simp(y).as_long() == 2:
        digit_fact(x, y)
      return core.mod_t(x, y)
    raise Unsupported(op)

  if op == 'pow' and kind(a.dtype) == 'I' and kind(b.dtype) == 'R':
    dt = b.dtype
  r = ew(dt, g, a, b, py=py)
  if py and not r.shape_:
    t = r.term
    if z3.is_int(t):
      return pyint(t)
    return pyreal(t)
  return r


def unop(op, x):
  tf = _tf()
  x = lift(x)
  if op == 'not':
    return T(x.shape_, tf.bool, lambda *i: z3.Not(conv(x.at(*i), 'B')), py=x.py)
  f = {
      'neg': lambda t: -t,
      'abs': lambda t: z3.If(t >= 0, t, -t),
      'floor': lambda t: t if z3.is_int(t) else z3.ToReal(z3.ToInt(t)),
      'ceil': lambda t: t if z3.is_int(t) else -z3.ToReal(z3.ToInt(-t)),
      'round': lambda t: t if z3.is_int(t) else z3.ToReal(core.round_even_t(t)),
      'sign': lambda t: z3.If(t > 0, _one(t, 1), z3.If(t < 0, _one(t, -1), _one(t, 0))),
      'square': lambda t: t * t,
  }[op]
  return T(x.shape_, x.dtype, lambda *i: f(x.at(*i)), py=x.py)


def _one(t, v):
  return z3.IntVal(v) if z3.is_int(t) else z3.RealVal(v)


# ---- indexing --------------------------------------------------------------
def getitem(x, key):
  x = lift(x)
  if not isinstance(key, tuple):
    key = (key,)
  n_spec = sum(1 for k in key if k is not None and k is not Ellipsis)
  out_shape, plan = [], []   # plan: per input dim: ('i', idx) or ('s', start, step, outpos)
  full = []
  seen_e = False
  for k in key:
    if k is Ellipsis:
      full += [slice(None)] * (len(x.shape_) - n_spec)
      seen_e = True
    else:
      full.append(k)
  while sum(1 for k in full if k is not None) < len(x.shape_):
    full.append(slice(None))
  dimk = 0
  for k in full:
    if k is None:
      out_shape.append(1)
      continue
    d = x.shape_[dimk]
    if isinstance(k, slice):
      step = 1 if k.step is None else iv(k.step)
      if not isinstance(step, int):
        raise Unsupported('symbolic stride')
      if step < 0:
        if k.start is None and k.stop is None and step == -1:
          plan.append(('s', simp(zi(d) - 1), -1, len(out_shape)))
          out_shape.append(d)
          dimk += 1
          continue
        raise Unsupported('negative stride')
      st = 0 if k.start is None else iv(k.start)
      en = d if k.stop is None else iv(k.stop)
      st, en = _clampidx(st, d), _clampidx(en, d)
      ln = simp(zi(en) - zi(st)) if isz(en) or isz(st) else en - st
      ln = iv(ln)
      if isinstance(ln, int):
        ln = max(0, ln)
      elif not same_dim(en, d) or k.start is not None:
        ln = iv(simp(z3.If(zi(ln) >= 0, zi(ln), 0)))
      if step != 1:
        ln = iv(simp((zi(ln) + step - 1) / step))
      plan.append(('s', st, step, len(out_shape)))
      out_shape.append(ln)
    else:
      kk = iv(k)
      if isinstance(kk, int) and kk < 0:
        kk = iv(simp(zi(d) + kk)) if isz(d) else d + kk
      if isinstance(kk, int) and isinstance(d, int):
        if not 0 <= kk < d:
          raise IndexError('slice index %d of dimension out of bounds.' % kk)
      else:
        if not ctx().branch(z3.And(zi(kk) >= 0, zi(kk) < zi(d))):
          raise IndexError('index out of bounds')
      plan.append(('i', kk))
    dimk += 1

  def fn(*idx):
    src = []
    for p in plan:
      if p[0] == 'i':
        src.append(p[1])
      else:
        _, st, step, pos = p
        i = idx[pos]
        if step == 1 and isinstance(st, int) and st == 0:
          src.append(i)
        else:
          src.append(iv(simp(zi(st) + zi(i) * step)))
    return x.at(*src)

  return T(out_shape, x.dtype, fn, py=x.py and not out_shape)


def _clampidx(i, d):
  if isinstance(i, int) and isinstance(d, int):
    if i < 0:
      i += d
    return min(max(i, 0), d)
  if isinstance(i, int) and i == 0:
    return 0
  if same_dim(i, d):
    return d
  i, dz = zi(i), zi(d)
  i = z3.If(i < 0, i + dz, i)
  i = z3.If(i < 0, z3.IntVal(0), z3.If(i > dz, dz, i))
  # resolve when the path condition decides it
  c = ctx()
  s = z3.simplify(i)
  for cand in (z3.simplify(i),):
    pass
  return iv(s)
