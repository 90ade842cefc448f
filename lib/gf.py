"""Exact evaluation homomorphism from sympy coefficient expressions into GF(p).

Every map used here is a ring homomorphism on the ring of expressions it accepts, so two
expressions that are equal as functions have equal images.  Anything it cannot map soundly raises
Unsupported (the observation is then skipped, never guessed); a denominator that vanishes at the
sampled point raises BadPoint (the caller samples another point); an expression that contains
zoo/nan/oo raises NonFinite (which is an observation in its own right).
"""
import random
import sympy
from sympy import S, Symbol, Rational, Integer, Add, Mul, Pow, Derivative
from sympy.core.function import AppliedUndef

SMALL = (2, 3, 5, 7, 11, 13, 17)


# 44641 = 1 (mod 8) is prime and -1 and every q in SMALL are squares modulo it; P*P + P < 2**31.
P = 44641


class Unsupported(Exception):
    pass


class BadPoint(Exception):
    pass


class NeedRoots(Exception):
    """a fractional power or angle occurs: sample again with lcm=12 (x = z**12)"""


class NonFinite(Exception):
    pass


class Malformed(Exception):
    """The expression is not a linear combination of basis blades."""


def sqrt_mod(a, p=P):
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    # Tonelli-Shanks
    q, s = p - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1:
        z += 1
    m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % p
            i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c = i, b * b % p
        t, r = t * c % p, r * b % p
    return min(r, p - r)


_ROOT = {}


def prime_root(q):
    if q not in _ROOT:
        _ROOT[q] = sqrt_mod(q)
    r = _ROOT[q]
    if r is None:
        raise Unsupported('sqrt(%d)' % q)
    return r


IMAG = sqrt_mod(P - 1)


def inv_mod(a):
    a %= P
    if a == 0:
        raise BadPoint()
    return pow(a, P - 2, P)


class Point:
    """One sample point; all values are drawn lazily and deterministically from the seed."""

    def __init__(self, seed, fixed=None, lcm=1):
        self.seed = seed
        self.lcm = lcm
        self.vals = {}
        self.base = {}
        self.memo = {}
        self.roots = {}
        if fixed:                       # symbol -> value in GF(p) given as 12-th root
            for k, v in fixed.items():
                self.base[('sym', k)] = v % P

    def _rnd(self, *key):
        if key not in self.base:
            r = random.Random('%s|%r' % (self.seed, key))
            self.base[key] = r.randrange(2, P - 1)
        return self.base[key]

    def red(self, v):
        return v % P

    # -- atoms ---------------------------------------------------------------
    def sym(self, name):
        return pow(self._rnd('sym', name), self.lcm, P)

    def _circ(self, kind, mono, k):
        """generator of exp(i*mono/12) (kind 'c') or exp(mono/12) (kind 'h'), raised to 12*k"""
        k = Rational(k) * self.lcm
        if k.q != 1:
            self._need('angle fraction')
        z = self._rnd(kind, mono)
        e = int(k)
        return pow(z, e, P) if e >= 0 else pow(inv_mod(z), -e, P)

    def _expi(self, kind, u):
        v = 1
        for t in Add.make_args(sympy.expand(u)):
            c, m = t.as_coeff_Mul()
            if t.is_Rational:
                c, m = t, S.One
            if not c.is_Rational:
                raise Unsupported('angle')
            if m.has(S.Pi):
                raise Unsupported('pi angle')
            if m.could_extract_minus_sign():
                c, m = -c, -m
            v = v * self._circ(kind, sympy.srepr(m), c) % P
        return v

    # -- expressions -----------------------------------------------------------
    def ev(self, e):
        try:
            return self.memo[e]
        except KeyError:
            pass
        if not isinstance(e, sympy.Expr):
            raise Malformed(repr(e)[:200])
        r = self._ev(e) % P
        self.memo[e] = r
        return r

    def _ev(self, e):
        if e.is_Integer:
            return int(e)
        if e.is_Rational:
            return int(e.p) * inv_mod(int(e.q))
        if e.is_Float:
            q = sympy.Rational(e)
            if q.q > 1 << 20 or abs(q.p) > 1 << 40:          # rounded, so not an exact value
                raise Unsupported('float')
            return int(q.p) * inv_mod(int(q.q))
        if e in (S.ComplexInfinity, S.Infinity, S.NegativeInfinity, S.NaN):
            raise NonFinite(str(e))
        if e is S.ImaginaryUnit:
            return IMAG
        if isinstance(e, Symbol) or type(e).__name__ == 'DotProductSymbol':
            if not e.is_commutative:
                raise Malformed('noncommutative symbol %s in coefficient' % e)
            return self.sym(str(e))
        if e.is_Add:
            return sum(self.ev(a) for a in e.args)
        if e.is_Mul:
            r = 1
            for a in e.args:
                r = r * self.ev(a) % P
            return r
        if e.is_Pow:
            return self._pow(e.base, e.exp)
        if isinstance(e, Derivative):
            return self._deriv(e)
        if isinstance(e, AppliedUndef):
            return self._rnd('fct', e.func.__name__, tuple(map(str, e.args)), ())
        f = e.func
        if f is sympy.sin or f is sympy.cos or f is sympy.tan or f is sympy.cot or f is sympy.sec or f is sympy.csc:
            z = self._expi('c', e.args[0])
            zi = inv_mod(z)
            c = (z + zi) * inv_mod(2) % P
            s = (z - zi) * inv_mod(2 * IMAG) % P
            if f is sympy.sin:
                return s
            if f is sympy.cos:
                return c
            if f is sympy.tan:
                return s * inv_mod(c)
            if f is sympy.cot:
                return c * inv_mod(s)
            if f is sympy.sec:
                return inv_mod(c)
            return inv_mod(s)
        if f is sympy.sinh or f is sympy.cosh or f is sympy.tanh or f is sympy.coth:
            z = self._expi('h', e.args[0])
            zi = inv_mod(z)
            c = (z + zi) * inv_mod(2) % P
            s = (z - zi) * inv_mod(2) % P
            if f is sympy.sinh:
                return s
            if f is sympy.cosh:
                return c
            if f is sympy.tanh:
                return s * inv_mod(c)
            return c * inv_mod(s)
        if f is sympy.exp:
            return self._expi('h', e.args[0])
        if f is sympy.Abs:          # on the domain where the symbols and the sines are positive
            return self._abs(e.args[0])
        if isinstance(e, sympy.Determinant):
            d = e.doit()
            return self._bad(e) if isinstance(d, sympy.Determinant) else self.ev(d)
        if isinstance(e, sympy.Subs):
            return self.ev(e.doit()) if not isinstance(e.doit(), sympy.Subs) else self._bad(e)
        if isinstance(e, sympy.Expr) and not e.is_commutative:
            raise Malformed(str(e))
        return self._bad(e)

    def _abs(self, u):
        v = 1
        for t in Mul.make_args(u):
            b, k = (t.base, t.exp) if t.is_Pow else (t, S.One)
            if t.is_Rational:
                v = v * self.ev(abs(t)) % P
            elif k.is_Integer and (isinstance(b, Symbol) or (isinstance(b, (sympy.sin, sympy.cos))
                                                             and isinstance(b.args[0], Symbol))):
                v = v * self.ev(t) % P
            else:
                raise Unsupported('abs')
        return v

    def _need(self, why):
        if self.lcm == 1:
            raise NeedRoots(why)
        raise Unsupported(why)

    def _bad(self, e):
        raise Unsupported(type(e).__name__)

    def _deriv(self, e):
        f = e.expr
        if not isinstance(f, AppliedUndef):
            d = e.doit()
            if isinstance(d, Derivative) and d.expr == f:
                raise Unsupported('derivative of %s' % f)
            return self.ev(d)
        vs = []
        for v, n in e.variable_count:
            if v not in f.args:
                return 0
            if not n.is_Integer:
                raise Unsupported('symbolic order')
            vs += [str(v)] * int(n)
        return self._rnd('fct', f.func.__name__, tuple(map(str, f.args)), tuple(sorted(vs)))

    def _pow(self, b, x):
        if b is S.Exp1:
            return self._expi('h', x)
        if x.is_Integer:
            v = self.ev(b)
            k = int(x)
            if k >= 0:
                return pow(v, k, P)
            if v == 0 and b == 0:
                raise NonFinite('1/0')
            return pow(inv_mod(v), -k, P)
        if x.is_Rational:
            if x.q == 2:
                r = self.root(b)
                k = int(x.p)
                return pow(r, k, P) if k >= 0 else pow(inv_mod(r), -k, P)
            if isinstance(b, Symbol) and 12 % x.q == 0:
                k = x * self.lcm
                if k.q != 1:
                    self._need('root')
                k = int(k)
                z = self._rnd('sym', str(b))
                return pow(z, k, P) if k >= 0 else pow(inv_mod(z), -k, P)
        raise Unsupported('power %s' % x)

    def root(self, b):
        if b.is_Rational:
            if b < 0:
                return IMAG * self.root(-b) % P
            v = 1
            for q, m in sympy.factorint(int(b.p)).items():
                v = v * pow(prime_root(q), m, P) % P
            d = 1
            for q, m in sympy.factorint(int(b.q)).items():
                d = d * pow(prime_root(q), m, P) % P
            return v * inv_mod(d) % P
        if b in self.roots:
            return self.roots[b]
        num, den = sympy.fraction(sympy.together(b))
        r = self._root_poly(num) * inv_mod(self._root_poly(den)) % P
        self.roots[b] = r
        return r

    def _root_poly(self, e):
        if e.is_Rational:
            return self.root(e)
        c, fs = sympy.factor_list(e)
        v = self.root(sympy.sympify(c)) if sympy.sympify(c).is_Rational else self._bad(e)
        for f, m in fs:
            m = int(m)
            if f.could_extract_minus_sign():
                if m % 2:
                    v = v * IMAG % P
                f = -f
            if isinstance(f, Symbol):
                if self.lcm % 2:
                    self._need('root')
                r = pow(self._rnd('sym', str(f)), self.lcm // 2, P)
            elif f.is_Pow and f.base is not S.Exp1 and f.exp.is_Rational:
                raise Unsupported('nested radical')
            else:
                key = ('root', f)
                if key not in self.roots:
                    r = sqrt_mod(self.ev(f))
                    if r is None:
                        raise BadPoint()
                    self.roots[key] = r
                r = self.roots[key]
            v = v * pow(r, m, P) % P
        return v

    # -- multivectors ------------------------------------------------------------
    def vec(self, e, index, n):
        """coefficients (list of 2**n ints) of an expression linear in the blade symbols.

        index: dict symbol -> bit mask.
        """
        out = [0] * (1 << n)
        if not isinstance(sympy.sympify(e), sympy.Expr):
            raise Malformed(repr(e)[:200])
        self._ix = frozenset(index.items())
        for m, v in self._vec(sympy.sympify(e), index).items():
            out[m] = self.red(v)
        return out

    def _vec(self, e, index):
        key = (self._ix, e)
        if key in self.memo:
            return self.memo[key]
        if e.is_commutative:
            r = {0: self.ev(e)}
        elif e in index:
            r = {index[e]: 1}
        elif e.is_Add:
            r = {}
            for a in e.args:
                for m, v in self._vec(a, index).items():
                    r[m] = self.red(r.get(m, 0) + v)
        elif e.is_Mul:
            c, nc = 1, None
            for a in e.args:
                if a.is_commutative:
                    c = self.red(c * self.ev(a))
                elif nc is None:
                    nc = a
                else:
                    raise Malformed(str(e))
            r = {m: self.red(v * c) for m, v in self._vec(nc, index).items()}
        else:
            raise Malformed(str(e))
        self.memo[key] = r
        return r


class IntPoint(Point):
    """Exact evaluation at a point with small integer values (where order matters: no modulus)."""

    def __init__(self, seed):
        Point.__init__(self, seed)
        self.sub = {}

    def red(self, v):
        return v

    def val(self, e):
        """the exact real number denoted by e at the point"""
        e = sympy.sympify(e)
        for s_ in e.free_symbols:
            if s_ not in self.sub:
                r = random.Random('%s|%s' % (self.seed, s_))
                self.sub[s_] = Integer(r.choice([-4, -3, -2, -1, 1, 2, 3, 4]))
        if e.has(S.ComplexInfinity, S.NaN, S.Infinity):
            raise NonFinite(str(e))
        return e.subs({k: self.sub[k] for k in e.free_symbols})

    def ev(self, e):
        v = sympy.nsimplify(sympy.simplify(self.val(e)))
        if not v.is_Integer:
            raise Unsupported('not an integer: %s' % v)
        if abs(v) > 30000:
            raise Unsupported('too big')
        return int(v)
