r"""Verification-condition engine for Python functions that compute on tensors.

The functions verified are the function objects CPython builds from /repo's
current source.  They are *executed* on symbolic values: every branch on a
symbolic condition forks the run (both sides are explored whenever they are
feasible), every loop over a symbolic-length object is cut by its loop contract
or summarised by the contract of the library operation that performs it, and
every contract clause becomes an obligation  (path condition /\ op contracts)
=> clause  that an SMT solver has to accept.

One contract text has two interpretations:
  SymCtx   - inputs are symbolic, clauses become proof obligations;
  ConcCtx  - inputs are numbers/tensors, the real function runs on the real
             TensorFlow and clauses are evaluated (counterexample replay, the
             CPython cross-check of the engine, and the bounded stand-in).
"""
import itertools
import math
import os
import random
import subprocess
import sys
import tempfile
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
  import z3
except ImportError:
  sys.path.append(_VT)
  import z3


class Unsupported(BaseException):
  """The code left the fragment the engine understands (not a verdict)."""


class PathEnd(BaseException):
  """This path is infeasible / ends here."""


class Missing(BaseException):
  """A private helper the contract attaches to no longer exists."""


class Skip(BaseException):
  """Concrete input outside the precondition."""


class Violated(Exception):
  """A contract clause is false on concrete input."""

  def __init__(self, clause, info=''):
    super().__init__(clause, info)
    self.clause, self.info = clause, info


_CTX = [None]


def ctx():
  return _CTX[0]


def is_sym():
  return isinstance(_CTX[0], SymCtx)


def isz(x):
  return isinstance(x, z3.ExprRef)


# --------------------------------------------------------------------------
# logic helpers usable in both interpretations
def And(*a):
  a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
  if any(isz(x) for x in a):
    return z3.And([x if isz(x) else z3.BoolVal(bool(x)) for x in a])
  return all(bool(x) for x in a)


def Or(*a):
  a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
  if any(isz(x) for x in a):
    return z3.Or([x if isz(x) else z3.BoolVal(bool(x)) for x in a])
  return any(bool(x) for x in a)


def Not(a):
  return z3.Not(a) if isz(a) else (not bool(a))


def Implies(a, b):
  if isz(a) or isz(b):
    if not isz(a):
      return b if a else z3.BoolVal(True)
    return z3.Implies(a, b if isz(b) else z3.BoolVal(bool(b)))
  return (not a) or bool(b)


def Iff(a, b):
  if isz(a) or isz(b):
    a = a if isz(a) else z3.BoolVal(bool(a))
    b = b if isz(b) else z3.BoolVal(bool(b))
    return a == b
  return bool(a) == bool(b)


def _num(x):
  return x if isz(x) else (z3.RealVal(repr(x)) if isinstance(x, float)
                           else z3.IntVal(int(x)))


def If(c, a, b):
  if isz(c):
    a, b = _num(a) if not isz(a) and not isinstance(a, bool) else a, \
        _num(b) if not isz(b) and not isinstance(b, bool) else b
    a, b = unify(a, b)
    return z3.If(c, a, b)
  return a if c else b


def unify(a, b):
  """Same-sort pair (Int -> Real coercion)."""
  if isinstance(a, bool):
    a = z3.BoolVal(a)
  if isinstance(b, bool):
    b = z3.BoolVal(b)
  if not isz(a):
    a = _num(a)
  if not isz(b):
    b = _num(b)
  if a.sort() != b.sort():
    if z3.is_int(a) and z3.is_real(b):
      a = z3.ToReal(a)
    elif z3.is_real(a) and z3.is_int(b):
      b = z3.ToReal(b)
  return a, b


def simp(t):
  return z3.simplify(t) if isz(t) else t


TOL = 2e-4


def _close(a, b, tol):
  if a == b:
    return True
  if a != a or b != b:
    return False
  if math.isinf(a) or math.isinf(b):
    return False
  return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def eq(a, b, tol=None):
  """Equality; on machine floats up to the stated tolerance."""
  if isz(a) or isz(b):
    a, b = unify(a, b)
    return a == b
  return _close(float(a), float(b), TOL if tol is None else tol)


def le(a, b, tol=None):
  if isz(a) or isz(b):
    a, b = unify(a, b)
    return a <= b
  a, b = float(a), float(b)
  if a != a or b != b:
    return False
  return a <= b or _close(a, b, TOL if tol is None else tol)


def ge(a, b, tol=None):
  return le(b, a, tol)


def absz(x):
  if isz(x):
    return z3.If(x >= 0, x, -x)
  return abs(x)


def maxz(a, b):
  if isz(a) or isz(b):
    a, b = unify(a, b)
    return z3.If(a >= b, a, b)
  return max(a, b)


def minz(a, b):
  if isz(a) or isz(b):
    a, b = unify(a, b)
    return z3.If(a <= b, a, b)
  return min(a, b)


def lin_divmod(a, d):
  """a = d*q + r with a constant 0 <= r < d, syntactically; None if not of that form."""
  a = z3.simplify(a)
  q, r = [], 0
  for t in (a.children() if z3.is_add(a) else [a]):
    if z3.is_int_value(t):
      v = t.as_long()
      q.append(z3.IntVal(v // d))
      r += v % d
    elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % d == 0:
      q.append(z3.IntVal(t.arg(0).as_long() // d) * t.arg(1))
    else:
      return None
  return z3.simplify(z3.Sum(q)), r


# Python/TF floor semantics
def floordiv_t(a, b):
  a, b = unify(a, b)
  if z3.is_int(a):
    if z3.is_int_value(b) and b.as_long() > 0:
      l = lin_divmod(a, b.as_long())
      if l is not None:
        return l[0]
      return a / b  # z3 div is floor for positive divisors
    q = a / b
    return z3.If(b > 0, q, z3.If(b * q == a, q, q - 1))
  return z3.ToReal(z3.ToInt(a / b))


def mod_t(a, b):
  a, b = unify(a, b)
  if z3.is_int(a):
    if z3.is_int_value(b) and b.as_long() > 0:
      l = lin_divmod(a, b.as_long())
      if l is not None:
        return z3.IntVal(l[1])
      return a % b
    return a - b * floordiv_t(a, b)
  return a - b * z3.ToReal(z3.ToInt(a / b))


def round_even_t(x):
  f = z3.ToInt(x)
  fr = x - z3.ToReal(f)
  half = z3.RealVal('1/2')
  return z3.If(fr < half, f, z3.If(fr > half, f + 1,
                                   z3.If(f % 2 == 0, f, f + 1)))


def round_even_c(x):
  return float(round(x))


def trunc_t(x):
  return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


# --------------------------------------------------------------------------
class Univ:
  """A universally quantified fact: for all idx in dims: fn(*idx)."""

  def __init__(self, dims, fn, name):
    self.dims, self.fn, self.name = tuple(dims), fn, name


class Obl:

  def __init__(self, name):
    self.name = name
    self.status = []          # per path: 'proved'|'refuted'|'unknown'
    self.backends = set()
    self.time = 0.0
    self.models = []
    self.exact = True
    self.queries = 0
    self.win = None           # the attempt that last discharged it

  @property
  def verdict(self):
    if not self.status:
      return 'none'
    if all(s == 'proved' for s in self.status):
      return 'proved'
    if any(s == 'refuted' for s in self.status):
      return 'refuted'
    return 'unknown'


class Stats:
  solver_s = 0.0
  queries = 0
  cvc5 = 0


_ATOMS = {}


def _atoms(f):
  """Ids of the function applications (or constants) over uninterpreted symbols in f."""
  k = f.get_id()
  if k in _ATOMS and _ATOMS[k][0] is f:
    return _ATOMS[k][1]
  out, todo, seen = set(), [f], set()
  while todo:
    t = todo.pop()
    i = t.get_id()
    if i in seen:
      continue
    seen.add(i)
    if z3.is_app(t):
      if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        out.add(i)
      todo.extend(t.children())
  _ATOMS[k] = (f, out)
  return out


def _nonlinear(f):
  """Contains a product of two non-constants, or a division/modulo by a non-constant."""
  todo, seen = [f], set()
  while todo:
    t = todo.pop()
    k = t.get_id()
    if k in seen:
      continue
    seen.add(k)
    if z3.is_app(t):
      kd = t.decl().kind()
      if kd == z3.Z3_OP_MUL:
        if sum(1 for a in t.children() if not z3.is_rational_value(a) and not z3.is_int_value(a)) > 1:
          return True
      elif kd in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_POWER):
        a = t.arg(1)
        if not z3.is_rational_value(a) and not z3.is_int_value(a):
          return True
      todo.extend(t.children())
    elif z3.is_quantifier(t):
      todo.append(t.body())
  return False


def _is_sqrt(t, tab):
  return t.get_id() in tab and tab[t.get_id()][0].eq(t)


def sqrt_inverse(y):
  """1/y as a multiple of y's own root when y is q*sqrt(m) for rationals q, m; else None."""
  tab = ctx().memo.get('sqrtc')
  if not tab:
    return None
  y = simp(y)
  q, r = z3.RealVal(1), y
  if z3.is_mul(y) and y.num_args() == 2 and z3.is_rational_value(y.arg(0)):
    q, r = y.arg(0), y.arg(1)
  if not _is_sqrt(r, tab):
    return None
  return simp(r / (q * tab[r.get_id()][1]))


def reduce_roots(f, tab):
  """Expand products and rewrite sqrt(m)^2 to m (valid: the roots' defining facts)."""
  f = z3.simplify(f, som=True, som_blowup=100000)
  memo = {}

  def go(t):
    k = t.get_id()
    if k in memo:
      return memo[k]
    if not z3.is_app(t) or not t.num_args():
      r = t
    else:
      ch = [go(a) for a in t.children()]
      if z3.is_mul(t):
        cnt, rest = {}, []
        todo = list(ch)
        while todo:
          a = todo.pop(0)
          if z3.is_mul(a):
            todo = list(a.children()) + todo
          elif _is_sqrt(a, tab):
            cnt[a.get_id()] = cnt.get(a.get_id(), 0) + 1
          elif a.decl().kind() == z3.Z3_OP_POWER and _is_sqrt(a.arg(0), tab) and z3.is_rational_value(
              a.arg(1)) and a.arg(1).denominator_as_long() == 1 and a.arg(1).numerator_as_long() > 0:
            k0 = a.arg(0).get_id()
            cnt[k0] = cnt.get(k0, 0) + a.arg(1).numerator_as_long()
          else:
            rest.append(a)
        for k0, n in cnt.items():
          rt, m = tab[k0]
          if n // 2:
            rest.append(z3.RealVal(m ** (n // 2)))
          if n % 2:
            rest.append(rt)
        r = z3.Product(rest) if len(rest) > 1 else rest[0]
      elif t.decl().kind() == z3.Z3_OP_POWER and _is_sqrt(t.arg(0), tab) and z3.is_rational_value(
          t.arg(1)) and t.arg(1).denominator_as_long() == 1 and t.arg(1).numerator_as_long() > 1:
        rt, m = tab[t.arg(0).get_id()]
        n = t.arg(1).numerator_as_long()
        r = z3.RealVal(m ** (n // 2)) * (rt if n % 2 else z3.RealVal(1))
      else:
        r = t if all(a.eq(b) for a, b in zip(ch, t.children())) else t.decl()(*ch)
    memo[k] = r
    return r

  for _ in range(3):
    g = z3.simplify(go(f), som=True, som_blowup=100000)
    if g.eq(f):
      break
    f = g
    memo.clear()
  return f


class SymCtx:
  symbolic = True

  def __init__(self, contract, decisions, obls, opts):
    self.contract = contract
    self.dec = list(decisions)
    self.pos = 0
    self.alts = []
    self.pc = []
    self.facts = []
    self.univ = []
    self.pool = []
    self._pool_ids = set()
    self.n = 0
    self.obls = obls
    self.opts = opts
    self.inputs = {}     # name -> ('int',term) | ('real',term) | ('tensor',T) | ('bool',term)
    self.assumed_ops = set()
    self.tfops = set()
    self.writes = []
    self._skolem = []
    self._keep = []
    self.exact = True
    self.memo = {}
    self.powterms = []
    self.undo = []
    self.fast = None
    self.tier = opts.get('tier', 'quick')
    self.deadline = opts.get('deadline')

  # -- naming
  def fresh(self, base, sort='I'):
    self.n += 1
    nm = '%s!%d' % (base, self.n)
    return {'I': z3.Int, 'R': z3.Real, 'B': z3.Bool}[sort](nm)

  def freshf(self, base, arity, sort='R'):
    self.n += 1
    s = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[sort]
    return z3.Function('%s!%d' % (base, self.n), *([z3.IntSort()] * arity), s)

  # -- facts
  def fact(self, f):
    if isz(f):
      self.facts.append(f)

  def assume(self, f, what=''):
    if not isz(f):
      if not bool(f):
        raise PathEnd()
      return
    self.pc.append(f)

  def add_univ(self, dims, fn, name='u'):
    self.univ.append(Univ(dims, fn, name))

  def index(self, t):
    """Register an index term for instantiation of universal facts."""
    if isinstance(t, int):
      t = z3.IntVal(t)
    t = z3.simplify(t)
    k = t.get_id()
    if k not in self._pool_ids:
      self._pool_ids.add(k)
      self.pool.append(t)
    return t

  def stub(self, module, name, fn, what):
    """Use the contract of a callee (proved separately) instead of its body."""
    if not hasattr(module, name):
      return
    old = getattr(module, name)
    self.undo.append((module, name, old))
    setattr(module, name, fn)
    self.assumed_ops.add('callee contract: ' + what)

  def cleanup(self):
    for m, n, o in reversed(self.undo):
      setattr(m, n, o)
    self.undo = []

  # -- inputs
  def int(self, name, lo=None, hi=None, gen=None):
    from dv import tens
    t = z3.Int(name)
    self.inputs[name] = ('int', t)
    if lo is not None:
      self.pc.append(t >= lo)
    if hi is not None:
      self.pc.append(t <= hi)
    return tens.pyint(t)

  def real(self, name, lo=None, hi=None, gen=None, lo_strict=False, hi_strict=False):
    from dv import tens
    t = z3.Real(name)
    self.inputs[name] = ('real', t)
    if lo is not None:
      self.pc.append(t > lo if lo_strict else t >= lo)
    if hi is not None:
      self.pc.append(t < hi if hi_strict else t <= hi)
    return tens.pyreal(t)

  def bool(self, name):
    from dv import tens
    t = z3.Bool(name)
    self.inputs[name] = ('bool', t)
    return tens.pybool(t)

  def choice(self, name, options):
    """A finite enumeration decided by case split (complete over options)."""
    opts = list(options)
    t = z3.Int(name)
    self.inputs[name] = ('choice', t, opts)
    self.pc.append(z3.And(t >= 0, t < len(opts)))
    for k in range(len(opts) - 1):
      if self.branch(t == k):
        return opts[k]
    return opts[-1]

  def dim(self, name, lo=1, hi=6):
    """A tensor dimension: any integer >= lo (hi only bounds concrete runs)."""
    t = z3.Int(name)
    self.inputs[name] = ('dim', t, lo, hi)
    self.pc.append(t >= lo)
    return t

  def tensor(self, name, shape, dtype='float32', gen=None, lo=None, hi=None):
    from dv import tens
    T = tens.fresh_tensor(name, shape, dtype, lo=lo, hi=hi)
    self.inputs[name] = ('tensor', T)
    return T

  def var(self, name, shape, dtype='float32', gen=None, lo=None, hi=None):
    from dv import tens
    T = self.tensor(name, shape, dtype, gen=gen, lo=lo, hi=hi)
    return tens.Variable(T, name)

  # -- solving
  def _solver(self, timeout):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    return s

  def _check(self, s, *extra):
    t0 = time.time()
    r = s.check(*extra)
    Stats.solver_s += time.time() - t0
    Stats.queries += 1
    return r

  def feasible(self, cond):
    s = self._solver(self.opts.get('feas_ms', 3000))
    s.add(self.pc)
    s.add(self.facts)
    s.add(cond)
    return self._check(s) != z3.unsat

  def refuted_fast(self, cond, ms=1500):
    """True when the solver refutes cond from the facts at hand (no universal facts)."""
    if self.fast is None:
      self.fast = self._solver(ms)
      self.fast_n = [0, 0]
    for k, l in enumerate((self.pc, self.facts)):
      self.fast.add(l[self.fast_n[k]:])
      self.fast_n[k] = len(l)
    self.fast.push()
    self.fast.add(cond)
    r = self._check(self.fast)
    self.fast.pop()
    return r == z3.unsat

  def branch(self, cond):
    """Decide a symbolic condition; explores both sides."""
    if not isz(cond):
      return bool(cond)
    cond = z3.simplify(cond)
    if z3.is_true(cond):
      return True
    if z3.is_false(cond):
      return False
    if self.deadline and time.time() > self.deadline:
      raise Unsupported('time budget of the contract exhausted')
    if self.pos < len(self.dec):
      d = self.dec[self.pos]
      self.pos += 1
      self.pc.append(cond if d else z3.Not(cond))
      return d
    ft = self.feasible(cond)
    ff = self.feasible(z3.Not(cond))
    if not ft and not ff:
      raise PathEnd()
    if ft and ff:
      self.alts.append(self.dec[:self.pos] + [False])
      if len(self.dec) > self.opts.get('max_depth', 60):
        raise Unsupported('too many symbolic branches')
    d = ft
    self.dec.append(d)
    self.pos += 1
    self.pc.append(cond if d else z3.Not(cond))
    return d

  def entails(self, goal, timeout=8000):
    m = self._matched(goal if isz(goal) else z3.BoolVal(bool(goal)))
    s = self._solver(timeout)
    s.add(self.pc)
    s.add(self.facts)
    s.add(m)
    s.push()
    s.add(z3.Not(goal))
    if self._check(s) == z3.unsat:
      return True
    s.pop()
    inst = self._instances(cap=1500)
    s.add(self.facts)
    s.add(inst)
    s.add(z3.Not(goal))
    return self._check(s) == z3.unsat

  def consistent(self, full=True):
    """Canary: the accumulated assumptions must not prove False."""
    inst = self._instances(cap=500) + self._matched(z3.BoolVal(True)) if full else []
    s = self._solver(self.opts.get('canary_ms', 5000) if full else 1000)
    s.add(self.pc)
    s.add(self.facts)
    s.add(inst)
    return self._check(s)

  def _instances(self, extra_idx=(), cap=4000):
    out = []
    pool = list(self.pool) + [x for x in extra_idx]
    for u in list(self.univ):
      r = len(u.dims)
      cand = pool
      if len(cand)**r > cap:
        cand = pool[-int(cap**(1.0 / r)):]
      for tup in itertools.product(cand, repeat=r):
        dom = [z3.And(t >= 0, t < d) for t, d in zip(tup, u.dims)]
        b = u.fn(*tup)
        if isz(b):
          out.append(z3.Implies(z3.And(dom), b))
    return out

  def _matched(self, goal, rounds=2, cap=600):
    """Instances of the universal facts at index tuples that occur as arguments in the problem."""
    tuples, seen_t, seen_a = [], set(), set()

    def collect(f):
      todo = [f]
      while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen_a:
          continue
        seen_a.add(i)
        self._keep.append(t)
        if not z3.is_app(t):
          continue
        ch = t.children()
        if ch and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(z3.is_int(a) for a in ch):
          k = tuple(a.get_id() for a in ch)
          if k not in seen_t:
            seen_t.add(k)
            tuples.append(tuple(ch))
        todo.extend(ch)

    self._keep = []
    collect(goal)
    for f in self.pc:
      collect(f)
    for f in self.facts:
      collect(f)
    for t in self._skolem:
      tuples.append(t)
    out, done = [], set()
    for _ in range(rounds):
      cur = list(tuples)
      for ui, u in enumerate(list(self.univ)):
        r = len(u.dims)
        for tup in cur:
          for s in range(len(tup) - r + 1):
            sub = tup[s:s + r]
            key = (ui,) + tuple(t.get_id() for t in sub)
            if key in done:
              continue
            done.add(key)
            if len(out) >= cap:
              return out
            b = u.fn(*sub)
            if isz(b):
              dom = [z3.And(t >= 0, t < d) for t, d in zip(sub, u.dims)]
              f = z3.Implies(z3.And(dom), b)
              out.append(f)
              collect(f)
    return out

  def _quants(self):
    out = []
    for k, u in enumerate(self.univ):
      vs = [z3.Int('q%d_%d' % (k, j)) for j in range(len(u.dims))]
      b = u.fn(*vs)
      if isz(b):
        out.append(z3.ForAll(vs, z3.Implies(
            z3.And([z3.And(v >= 0, v < d) for v, d in zip(vs, u.dims)]), b)))
    return out

  def prove(self, name, goal, timeout=None, info=None):
    """Emit one obligation and ask the solvers to discharge it."""
    ob = self.obls.setdefault(name, Obl(name))
    t0 = time.time()
    timeout = timeout or self.opts.get('timeout_ms', 20000)
    if not isz(goal):
      goal = z3.BoolVal(bool(goal))
    goal = z3.simplify(goal)
    if self.memo.get('sqrtc'):
      goal = reduce_roots(goal, self.memo['sqrtc'])
    ob.queries += 1
    if z3.is_true(goal):
      ob.status.append('proved')
      ob.backends.add('simplifier')
      return True
    if z3.is_false(goal) and len(ob.models) >= 6:
      ob.status.append('unknown')      # refuted already; no need for more models
      return False
    # each attempt drops assumptions, so unsat is conclusive; the one that settled this obligation on an
    # earlier path goes first

    def relevant():
      if len(self.facts) <= 60:
        return None
      ga = _atoms(goal)
      return [f for f in self.facts if _atoms(f) & ga] + list(self.pc), 2000

    def ground():
      return list(self.pc) + list(self.facts), 3000

    def matched():
      if not self.univ:
        return None
      return list(self.pc) + list(self.facts) + list(self._matched(goal)), 5000

    def linear():
      if self.univ:
        self._instances()   # instantiation may add facts and indices
      inst = self._instances()
      every = list(self.pc) + list(self.facts) + inst
      lin = [f for f in every if not _nonlinear(f)]
      return (lin, 6000) if len(lin) < len(every) else None

    def full():
      if self.univ:
        self._instances()
      return list(self.pc) + list(self.facts) + list(self._instances()), 6000

    order = [relevant, ground, matched, linear]
    if ob.win == 'full':
      order = [full] + order
    elif ob.win:
      order.sort(key=lambda f: f.__name__ != ob.win)
    for f in order:
      a = f()
      if a is None:
        continue
      s0 = self._solver(min(timeout, a[1]))
      s0.add(a[0])
      s0.add(z3.Not(goal))
      if self._check(s0) == z3.unsat:
        ob.win = f.__name__
        ob.status.append('proved')
        ob.backends.add('z3')
        ob.time += time.time() - t0
        return True
    inst = self._instances()
    allf = list(self.pc) + list(self.facts) + inst
    s = self._solver(timeout)
    s.add(allf)
    s.add(z3.Not(goal))
    r = self._check(s)
    back = 'z3'
    if r == z3.unknown:
      # second tactic, then the second solver
      s2 = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'smt').solver()
      s2.set('timeout', timeout)
      s2.add(allf)
      s2.add(z3.Not(goal))
      r2 = self._check(s2)
      if r2 != z3.unknown:
        r, s = r2, s2
      else:
        r3 = cvc5_check(allf + [z3.Not(goal)], timeout)
        if r3 == 'unsat':
          r, back = z3.unsat, 'cvc5'
    if r == z3.sat and self.univ:
      # maybe too few instances: retry with the quantified facts
      s3 = self._solver(min(timeout, 8000))
      s3.add(allf)
      s3.add(self._quants())
      s3.add(z3.Not(goal))
      r3 = self._check(s3)
      if r3 == z3.unsat:
        r, back = r3, 'z3-quant'
      elif r3 == z3.sat:
        s = s3
    if r == z3.unsat:
      ob.win = 'full'
      ob.status.append('proved')
      ob.backends.add(back)
      ob.time += time.time() - t0
      return True
    if r == z3.sat:
      ob.status.append('refuted')
      m = s.model()
      ob.models.append(self.extract(m, allf, goal))
      ob.exact = ob.exact and self.exact
    else:
      ob.status.append('unknown')
    ob.time += time.time() - t0
    return False

  def lemma(self, name, goal, timeout=None):
    """Prove a ground fact, then use it for the obligations that follow on this path."""
    if self.prove(name, goal, timeout) and isz(goal):
      self.facts.append(goal)

  def forall(self, dims, fn, base='i'):
    """Skolemised universal goal."""
    idx, guard = [], []
    for d in dims:
      i = self.fresh(base)
      if isinstance(d, int) and d <= 0:
        return True
      if isinstance(d, int):
        self.pc.append(z3.And(i >= 0, i < d))
      else:
        self.pc.append(z3.Or(d <= 0, z3.And(i >= 0, i < d)))
        guard.append(d > 0)
      idx.append(self.index(i))
    if idx:
      self._skolem.append(tuple(idx))
    return Implies(And(guard), fn(*idx)) if guard else fn(*idx)

  def some_index(self, d, base='i'):
    """An arbitrary index below d (skolem constant of a universal goal)."""
    i = self.fresh(base)
    self.pc.append(z3.And(i >= 0, i < d))
    return self.index(i)

  def model_small(self, allf, goal):
    """Prefer a counterexample with small dimensions / simple values."""
    dims = [v[1] for v in self.inputs.values() if v[0] == 'dim']
    for bound in (2, 3, 4, 6, 8, 16, 40):
      s = self._solver(4000)
      s.add(allf)
      s.add(z3.Not(goal))
      for d in dims:
        s.add(d <= bound)
      if self._check(s) == z3.sat:
        return s.model()
      if not dims:
        break
    return None

  def extract(self, m, allf, goal):
    ms = self.model_small(allf, goal)
    if ms is not None:
      m = ms
    out = {}
    for name, v in self.inputs.items():
      try:
        if v[0] == 'int' or v[0] == 'dim':
          out[name] = m.eval(v[1], True).as_long()
        elif v[0] == 'choice':
          out[name] = ('choice', m.eval(v[1], True).as_long())
        elif v[0] == 'real':
          out[name] = _real(m.eval(v[1], True))
        elif v[0] == 'bool':
          out[name] = z3.is_true(m.eval(v[1], True))
        elif v[0] == 'tensor':
          T = v[1]
          shp = []
          for d in T.shape_:
            shp.append(d if isinstance(d, int) else m.eval(d, True).as_long())
          tot = 1
          for d in shp:
            tot *= d
          if tot > 200000:
            out[name] = None
            continue
          vals = []
          for idx in itertools.product(*[range(d) for d in shp]):
            t = m.eval(T.at(*idx), True)
            vals.append(z3.is_true(t) if z3.is_bool(t) else
                        (t.as_long() if z3.is_int(t) else _real(t)))
          out[name] = ('tensor', shp, str(T.dtype.name), vals)
      except Exception as e:  # model value not extractable
        out[name] = None
    return out

  def raises(self, fn, *a, **k):
    """Run fn; returns (exception or None, value)."""
    try:
      return None, fn(*a, **k)
    except Exception as e:  # pylint: disable=broad-except
      return e, None

  def cover(self, name):
    """Reachability of this program point (vacuity guard)."""
    s = self._solver(5000)
    s.add(self.pc)
    s.add(self.facts)
    r = self._check(s)
    self.covers = getattr(self, 'covers', {})
    self.covers[name] = self.covers.get(name, False) or r == z3.sat
    return r

  def havoc_note(self, what):
    self.assumed_ops.add(what)


def _real(t):
  if z3.is_int(t):
    return float(t.as_long())
  if z3.is_rational_value(t):
    return float(t.numerator_as_long()) / float(t.denominator_as_long())
  if z3.is_algebraic_value(t):
    return _real(t.approx(12))
  return float(t.as_decimal(12).rstrip('?'))


def cvc5_check(fs, timeout_ms):
  Stats.cvc5 += 1
  s = z3.Solver()
  s.add(fs)
  txt = '(set-logic ALL)\n' + s.to_smt2()
  t0 = time.time()
  with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
    f.write(txt)
    p = f.name
  try:
    r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', p],
                       capture_output=True, text=True,
                       timeout=timeout_ms / 1000.0 + 10)
    out = r.stdout.strip().splitlines()
    return out[0] if out else 'unknown'
  except Exception:  # pylint: disable=broad-except
    return 'unknown'
  finally:
    Stats.solver_s += time.time() - t0
    os.unlink(p)


# --------------------------------------------------------------------------
class ConcCtx:
  """Concrete interpretation on the real code with the real TensorFlow."""
  symbolic = False

  def __init__(self, contract, rng, values=None, tier='quick'):
    self.memo = {}
    self.tfops = set()
    self.contract = contract
    self.rng = rng
    self.values = values or {}
    self.used = {}
    self.clauses = 0
    self.tier = tier

  def stub(self, module, name, fn, what):
    pass

  def assume(self, f, what=''):
    if not bool(f):
      raise Skip()

  def fact(self, f):
    pass

  def index(self, t):
    return t

  def _pick(self, name, dflt):
    v = self.values.get(name)
    if v is None:
      v = dflt()
    self.used[name] = v
    return v

  def int(self, name, lo=None, hi=None, gen=None):
    r = self.rng

    def d():
      if gen is not None:
        return gen(r)
      l = -4 if lo is None else lo
      h = l + 12 if hi is None else hi
      h = min(h, l + 1000)
      return r.choice([l, h, r.randint(l, h), r.randint(l, min(h, l + 4))])

    v = int(self._pick(name, d))
    if (lo is not None and v < lo) or (hi is not None and v > hi):
      raise Skip()
    return v

  def real(self, name, lo=None, hi=None, gen=None, lo_strict=False, hi_strict=False):
    r = self.rng

    def d():
      if gen is not None:
        return gen(r)
      l = -4.0 if lo is None else float(lo)
      h = 4.0 if hi is None else float(hi)
      c = [l + (h - l) * r.randint(1, 15) / 16.0]
      if not lo_strict:
        c.append(l)
      if not hi_strict:
        c.append(h)
      c += [c[0], l + (h - l) * 0.5]
      return r.choice(c)

    v = float(self._pick(name, d))
    if lo is not None and (v < lo or (lo_strict and v == lo)):
      raise Skip()
    if hi is not None and (v > hi or (hi_strict and v == hi)):
      raise Skip()
    return v

  def bool(self, name):
    return bool(self._pick(name, lambda: self.rng.random() < 0.5))

  def choice(self, name, options):
    opts = list(options)
    v = self._pick(name, lambda: ('choice', self.rng.randrange(len(opts))))
    return opts[v[1] % len(opts)]

  def dim(self, name, lo=1, hi=6):
    return int(self._pick(name, lambda: self.rng.choice([lo, hi] + [self.rng.randint(lo, hi)] * 4)))

  def tensor(self, name, shape, dtype='float32', gen=None, lo=None, hi=None):
    import numpy as np
    import tensorflow as tf
    r = self.rng
    shape = [int(s) for s in shape]

    def d():
      n = int(np.prod(shape)) if shape else 1
      if gen is not None:
        vals = list(gen(r, n))
      elif dtype == 'bool':
        vals = [r.random() < 0.5 for _ in range(n)]
      elif dtype.startswith('int'):
        l = -8 if lo is None else lo
        h = 8 if hi is None else hi
        vals = [r.randint(l, h) for _ in range(n)]
      else:
        l = -4.0 if lo is None else lo
        h = 4.0 if hi is None else hi
        mode = r.randrange(5)
        if mode == 0:     # many ties
          vals = [l + (h - l) * r.randint(0, 4) / 4.0 for _ in range(n)]
        elif mode == 1:   # zeros
          z = min(max(0.0, l), h)
          vals = [z if r.random() < 0.5 else l + (h - l) * r.randint(0, 64) / 64.0
                  for _ in range(n)]
        elif mode == 2:   # constant
          c = l + (h - l) * r.randint(0, 8) / 8.0
          vals = [c] * n
        elif mode == 3:   # distinct
          vals = [l + (h - l) * (i + 1) / (n + 1.0) for i in range(n)]
          r.shuffle(vals)
        else:
          vals = [r.uniform(l, h) for _ in range(n)]
      return ('tensor', shape, dtype, vals)

    v = self._pick(name, d)
    _, shp, dt, vals = v
    if list(shp) != list(shape):
      raise Skip()
    a = np.array(vals, dtype=dtype if dtype != 'bfloat16' else 'float32').reshape(shape)
    if a.size:
      if lo is not None and a.min() < lo:
        raise Skip()
      if hi is not None and a.max() > hi:
        raise Skip()
    return tf.constant(a, dtype=dtype)

  def var(self, name, shape, dtype='float32', gen=None, lo=None, hi=None):
    import tensorflow as tf
    t = self.tensor(name, shape, dtype, gen=gen, lo=lo, hi=hi)
    return tf.Variable(t, name=name.replace('!', '_'))

  def prove(self, name, goal, timeout=None, info=None):
    self.clauses += 1
    if not bool(goal):
      raise Violated(name, info)
    return True

  def forall(self, dims, fn, base='i'):
    for idx in itertools.product(*[range(int(d)) for d in dims]):
      if not bool(fn(*idx)):
        self.last_idx = idx
        return False
    return True

  def raises(self, fn, *a, **k):
    try:
      return None, fn(*a, **k)
    except Exception as e:  # pylint: disable=broad-except
      return e, None

  def cover(self, name):
    pass


def _sym_kth(self, w, k):
  """k-th largest |w| (spec function; shares the ghost order with top_k)."""
  from dv import ops, tens
  a = tens.unop('abs', tens.lift(w))
  flat = ops.reshape(a, [-1])
  P, _ = ops.ghost_sort(flat)
  kz = k if isz(k) else z3.IntVal(int(k))
  i = self.index(kz - 1)
  j = P(i)
  self.index(j)
  return flat.at(j)


def _conc_kth(self, w, k):
  import numpy as np
  return float(np.sort(np.abs(np.asarray(w)).ravel())[::-1][int(k) - 1])


SymCtx.kth_largest_abs = _sym_kth
ConcCtx.kth_largest_abs = _conc_kth
