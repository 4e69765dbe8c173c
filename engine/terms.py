"""Terms dumped by symx, and their encoding for the solver.

A term is encoded as a fraction of polynomials over atoms.  Atoms are the
symbolic inputs and applications of the elementary functions to canonical
arguments.  The polynomials are kept in two forms: an unexpanded z3 expression
(what the solver is asked first) and an expanded normal form (used to key
function arguments and denominators, and as a second query when the first one
does not come back in time).
"""
from fractions import Fraction
import math

import z3

NEG, ZERO, POS = 1, 2, 4
MAXTERMS = 6000


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# dict: monomial -> Fraction, monomial = tuple of (atom, exp) sorted by atom
ONE = ()
P0 = {}


def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}


def padd(p, q, s=1):
    if not q:
        return p
    if not p and s == 1:
        return q
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def pkey(p):
    return tuple(sorted(p.items()))


def pprim(p):
    """p = content * monomial * primitive; returns (content, monomial, primitive)."""
    if not p:
        return Fraction(0), ONE, {}
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    mono = tuple(sorted(common.items())) if common else ONE
    if mono:
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in mono:
                if d[a] == e:
                    del d[a]
                else:
                    d[a] -= e
            q[tuple(sorted(d.items()))] = c
    else:
        q = p
    lead = q[max(q)]
    cont = lead
    q = {m: c / cont for m, c in q.items()}
    return cont, mono, q


class Enc:
    """One encoder per case; nodes are shared between the paths of that case."""

    def __init__(self):
        self.nodes = []          # (op, a, b) with op in c v + - * / ^ or function name
        self.cons = {}
        self.atoms = []          # (kind, payload, z3var)
        self.atomkey = {}
        self.reduce = {}         # atom -> polynomial for atom**2
        self.memo = {}
        self.axioms = {}         # atom -> list of z3 constraints
        self.rawmemo = {}

    # -------------------------------------------------------------- nodes
    def intern(self, key):
        i = self.cons.get(key)
        if i is None:
            i = len(self.nodes)
            self.nodes.append(key)
            self.cons[key] = i
        return i

    # -------------------------------------------------------------- atoms
    def atom(self, kind, key, name=None):
        k = (kind, key)
        i = self.atomkey.get(k)
        if i is None:
            i = len(self.atoms)
            zv = z3.Real(name or "%s!%d" % (kind, i))
            self.atoms.append((kind, key, zv))
            self.atomkey[k] = i
            self.axioms[i] = []
        return i

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > MAXTERMS * 10:
            raise TooBig()
        r = {}
        todo = []
        red = self.reduce
        for m, c in p.items():
            for n, d in q.items():
                mn = mmul(m, n)
                v = r.get(mn, 0) + c * d
                if v:
                    r[mn] = v
                else:
                    r.pop(mn, None)
        if red:
            r = self.preduce(r)
        if len(r) > MAXTERMS:
            raise TooBig()
        return r

    def preduce(self, p):
        red = self.reduce
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in red:
                        hit = (m, a)
                        break
                if hit:
                    break
            if not hit:
                return p
            out = {}
            for m, c in p.items():
                k = None
                for a, e in m:
                    if e >= 2 and a in red:
                        k = a
                        break
                if k is None:
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                d = dict(m)
                d[k] -= 2
                if not d[k]:
                    del d[k]
                base = {tuple(sorted(d.items())): c}
                for m2, c2 in red[k].items():
                    for m1, c1 in base.items():
                        mm = mmul(m1, m2)
                        v = out.get(mm, 0) + c1 * c2
                        if v:
                            out[mm] = v
                        else:
                            out.pop(mm, None)
                if len(out) > MAXTERMS * 2:
                    raise TooBig()
            p = out

    def ppow(self, p, n):
        r = {ONE: Fraction(1)}
        for _ in range(n):
            r = self.pmul(r, p)
        return r

    def pz3(self, p):
        ts = []
        for m, c in sorted(p.items()):
            t = z3.RealVal(str(c))
            fs = [] if c == 1 and m else [t]
            for a, e in m:
                for _ in range(e):
                    fs.append(self.atoms[a][2])
            ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def atoms_of(self, p, acc):
        for m in p:
            for a, _ in m:
                acc.add(a)
        return acc

    # -------------------------------------------------------------- fractions
    # value = num / prod(den);   den: dict key(primitive poly)->exp; keys hold the poly
    def fmk(self, num, den):
        if not num:
            return ({}, {})
        return (num, den)

    def denpoly(self, den):
        r = {ONE: Fraction(1)}
        for k, e in den.items():
            for _ in range(e):
                r = self.pmul(r, dict(k))
        return r

    def fadd(self, f, g, s=1):
        if not g[0]:
            return f
        if not f[0]:
            return (pscale(g[0], s), g[1])
        fd, gd = f[1], g[1]
        if fd == gd:
            return self.canc(padd(f[0], g[0], s), fd)
        fm, gm, den = {}, {}, {}
        for k in set(fd) | set(gd):
            e = max(fd.get(k, 0), gd.get(k, 0))
            den[k] = e
            if e - fd.get(k, 0):
                fm[k] = e - fd.get(k, 0)
            if e - gd.get(k, 0):
                gm[k] = e - gd.get(k, 0)
        n = padd(self.pmul(f[0], self.denpoly(fm)), self.pmul(g[0], self.denpoly(gm)), s)
        return self.canc(n, den)

    def canc(self, n, den):
        """cancel monomial denominators that divide the numerator"""
        if not n:
            return ({}, {})
        d = dict(den)
        for k in list(d):
            if len(k) == 1 and len(k[0][0]) == 1 and k[0][0][0][1] == 1:
                a = k[0][0][0][0]
                mn = min(dict(m).get(a, 0) for m in n)
                t = min(mn, d[k])
                if t:
                    n2 = {}
                    for m, c in n.items():
                        dm = dict(m)
                        dm[a] -= t
                        if not dm[a]:
                            del dm[a]
                        n2[tuple(sorted(dm.items()))] = c
                    n = n2
                    d[k] -= t
                    if not d[k]:
                        del d[k]
        return (n, d)

    def fmul(self, f, g):
        if not f[0] or not g[0]:
            return ({}, {})
        den = dict(f[1])
        for k, e in g[1].items():
            den[k] = den.get(k, 0) + e
        # cancel whole polynomial factors
        fn, gn = f[0], g[0]
        for side in (0, 1):
            p = fn if side == 0 else gn
            if len(p) > 1:
                c, m, q = pprim(p)
                kq = pkey(q)
                if kq in den:
                    den[kq] -= 1
                    if not den[kq]:
                        del den[kq]
                    p = {m: c}
                    if side == 0:
                        fn = p
                    else:
                        gn = p
        return self.canc(self.pmul(fn, gn), den)

    def finv(self, f):
        """1/f; f's numerator becomes a denominator"""
        c, m, q = pprim(f[0])
        num = self.denpoly(f[1])
        num = pscale(num, 1 / c)
        den = {}
        for a, e in m:
            den[((((a, 1),), Fraction(1)),)] = e
        if not (len(q) == 1 and ONE in q):
            den[pkey(q)] = 1
        return self.canc(num, den)

    def fkey(self, f):
        return (pkey(f[0]), tuple(sorted(f[1].items())))

    def fconst(self, f):
        if f[1]:
            return None
        if not f[0]:
            return Fraction(0)
        if len(f[0]) == 1 and ONE in f[0]:
            return f[0][ONE]
        return None

    # -------------------------------------------------------------- encoding of terms
    def enc(self, n):
        """iterative post-order"""
        memo = self.memo
        if n in memo:
            r = memo[n]
            if r is None:
                raise TooBig()
            return r
        st = [n]
        while st:
            i = st[-1]
            if i in memo:
                st.pop()
                continue
            op, a, b = self.nodes[i]
            kids = []
            if op in '+-*/^@':
                kids = [a, b]
            elif op not in 'cv':
                kids = [a]
            need = [k for k in kids if k not in memo]
            if need:
                st.extend(need)
                continue
            if any(memo[k] is None for k in kids):
                memo[i] = None
            else:
                try:
                    memo[i] = self.enc1(op, a, b)
                except (TooBig, ZeroDivisionError, RecursionError):
                    memo[i] = None
            st.pop()
        r = memo[n]
        if r is None:
            raise TooBig()
        return r

    def enc1(self, op, a, b):
        if op == 'c':
            return (pconst(a), {})
        if op == 'v':
            return ({((self.atom('v', a, a), 1),): Fraction(1)}, {})
        M = self.memo
        if op == '+':
            return self.fadd(M[a], M[b])
        if op == '-':
            return self.fadd(M[a], M[b], -1)
        if op == '*':
            return self.fmul(M[a], M[b])
        if op == '/':
            if not M[b][0]:
                return ({((self.atom('undef', (a, b)), 1),): Fraction(1)}, {})
            return self.fmul(M[a], self.finv(M[b]))
        if op == '^':
            return self.fpow(M[a], M[b])
        if op == '@':
            return self.mono(self.atom('atan2', (self.fkey(M[a]), self.fkey(M[b]))))
        return self.ffun(op, M[a])

    def fpow(self, f, g):
        c = self.fconst(g)
        if c is not None:
            if c.denominator == 1 and abs(c) <= 24:
                return self.fint(f, int(c))
            if c.denominator == 2 and abs(c) <= 12:
                s = self.ffun('sqrt', f)
                return self.fint(s, int(c.numerator))
        if c is None and not f[0]:
            return ({((self.atom('pow', (self.fkey(f), self.fkey(g))), 1),): Fraction(1)}, {})
        return self.ffun('exp', self.fmul(g, self.ffun('log', f)))

    def fint(self, f, k):
        if k == 0:
            return (pconst(1), {})
        if k < 0:
            if not f[0]:
                raise TooBig()
            return self.fint(self.finv(f), -k)
        r = f
        for _ in range(k - 1):
            r = self.fmul(r, f)
        return r

    def one_atom(self, kind, f):
        key = self.fkey(f)
        fresh = (kind, key) not in self.atomkey
        i = self.atom(kind, key)
        return i, fresh

    @staticmethod
    def mono(i):
        return ({((i, 1),): Fraction(1)}, {})

    def neg(self, f):
        return (pscale(f[0], -1), f[1])

    def isneg(self, f):
        return bool(f[0]) and f[0][max(f[0])] < 0

    def ffun(self, fn, f):
        c = self.fconst(f)
        half = Fraction(1, 2)
        if fn == 'tan':
            return self.fmul(self.ffun('sin', f), self.finv(self.ffun('cos', f)))
        if fn in ('sinh', 'cosh'):
            e = self.ffun('exp', f)
            ei = self.ffun('exp', self.neg(f))
            r = self.fadd(e, ei, -1 if fn == 'sinh' else 1)
            return (pscale(r[0], half), r[1])
        if fn == 'tanh':
            return self.fmul(self.ffun('sinh', f), self.finv(self.ffun('cosh', f)))
        if c == 0:
            if fn in ('sin', 'asin', 'atan', 'asinh', 'atanh', 'sqrt', 'abs'):
                return ({}, {})
            if fn in ('cos', 'exp'):
                return (pconst(1), {})
        if fn in ('sin', 'cos', 'asin', 'atan', 'asinh', 'atanh', 'abs') and self.isneg(f):
            r = self.ffun(fn, self.neg(f))
            return r if fn in ('cos', 'abs') else self.neg(r)
        if fn in ('sin', 'cos'):
            s, fresh = self.one_atom('sin', f)
            k, _ = self.one_atom('cos', f)
            if fresh:
                self.reduce[k] = {ONE: Fraction(1), ((s, 2),): Fraction(-1)}
                zs, zc = self.atoms[s][2], self.atoms[k][2]
                ax = [zs * zs + zc * zc == 1]
                self.axioms[s] += ax
                self.axioms[k] += ax
            return self.mono(s if fn == 'sin' else k)
        if fn == 'exp':
            return self.fexp(f)
        if fn == 'log':
            if c == 1:
                return ({}, {})
            # log(exp(t)) for a monomial in exp atoms only
            if len(f[0]) == 1:
                (m, cc), = f[0].items()
                dens = []
                ok = cc == 1
                for k, e in f[1].items():
                    if len(k) == 1 and len(k[0][0]) == 1:
                        dens.append((k[0][0][0][0], e))
                    else:
                        ok = False
                items = list(m) + [(a, -e) for a, e in dens]
                if ok and items and all(self.atoms[a][0] == 'exp' for a, _ in items):
                    r = ({}, {})
                    for a, e in items:
                        r = self.fadd(r, self.fmul((pconst(e), {}), self.exparg[a]))
                    return r
            i, fresh = self.one_atom('log', f)
            if fresh:
                self.logarg[i] = f
            return self.mono(i)
        if fn == 'sqrt':
            if c is not None and c > 0:
                r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
                if r * r == c:
                    return (pconst(r), {})
            # split off the denominator when the whole argument is a fraction: kept as one atom
            i, fresh = self.one_atom('sqrt', f)
            if fresh:
                z = self.atoms[i][2]
                if not f[1]:
                    self.reduce[i] = f[0]
                    self.axioms[i] += [z * z == self.pz3(f[0]), z >= 0]
                else:
                    self.axioms[i] += [z * z * self.pz3(self.denpoly(f[1])) == self.pz3(f[0]), z >= 0]
            return self.mono(i)
        if fn == 'abs':
            i, fresh = self.one_atom('abs', f)
            if fresh:
                z = self.atoms[i][2]
                self.axioms[i] += [z >= 0]
                if not f[1]:
                    self.reduce[i] = self.pmul(f[0], f[0])
                    e = self.pz3(f[0])
                    self.axioms[i] += [z3.Or(z == e, z == -e)]
                else:
                    d, e = self.pz3(self.denpoly(f[1])), self.pz3(f[0])
                    self.axioms[i] += [z3.Or(z * d == e, z * d == -e)]
            return self.mono(i)
        i, fresh = self.one_atom(fn, f)
        if fresh and fn in ('asin', 'atan', 'asinh', 'atanh') and not f[1]:
            z, e = self.atoms[i][2], self.pz3(f[0])
            self.axioms[i] += [z * e >= 0, (z == 0) == (e == 0)]
        return self.mono(i)

    logarg = None
    exparg = None

    def fexp(self, f):
        """exp of a sum: one factor per monomial with an integer coefficient; exp(k*log t) = t^k"""
        if self.exparg is None:
            self.exparg = {}
        r = (pconst(1), {})
        if f[1]:
            parts = [({m: c}, f[1]) for m, c in f[0].items()]
        else:
            parts = [({m: c}, {}) for m, c in f[0].items()]
        for p, d in parts:
            (m, c), = p.items()
            k = c.numerator
            unit = Fraction(1, c.denominator)
            if not d and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == 'log' and unit == 1:
                r = self.fmul(r, self.fint(self.logarg[m[0][0]], k) if abs(k) <= 24 else self._expatom(({m: unit}, d), k))
                continue
            r = self.fmul(r, self._expatom(({m: unit}, d), k))
        return r

    def _expatom(self, f, k):
        if abs(k) > 40:
            f = (pscale(f[0], k), f[1])
            k = 1
        i, fresh = self.one_atom('exp', f)
        if fresh:
            self.exparg[i] = f
            self.axioms[i] += [self.atoms[i][2] > 0]
        return self.fint(self.mono(i), k)

    # -------------------------------------------------------------- raw (unexpanded) z3 form
    def raw(self, n):
        """(num, den) as unexpanded z3 expressions; function applications use the canonical atoms"""
        memo = self.rawmemo
        st = [n]
        while st:
            i = st[-1]
            if i in memo:
                st.pop()
                continue
            op, a, b = self.nodes[i]
            kids = [a, b] if op in '+-*/' else []
            need = [k for k in kids if k not in memo]
            if need:
                st.extend(need)
                continue
            if op == 'c':
                memo[i] = (z3.RealVal(str(Fraction(a))), None)
            elif op == 'v':
                memo[i] = (self.atoms[self.atom('v', a, a)][2], None)
            elif op in '+-':
                (p, q), (r, s) = memo[a], memo[b]
                if q is None and s is None:
                    memo[i] = (p + r if op == '+' else p - r, None)
                elif q is not None and s is not None and q.eq(s):
                    memo[i] = (p + r if op == '+' else p - r, q)
                else:
                    x = p if s is None else p * s
                    y = r if q is None else r * q
                    memo[i] = (x + y if op == '+' else x - y, q if s is None else s if q is None else q * s)
            elif op == '*':
                (p, q), (r, s) = memo[a], memo[b]
                memo[i] = (p * r, q if s is None else s if q is None else q * s)
            elif op == '/':
                (p, q), (r, s) = memo[a], memo[b]
                num = p if s is None else p * s
                den = r if q is None else r * q
                memo[i] = (num, den)
            else:
                f = self.enc(i)
                memo[i] = (self.pz3(f[0]), self.pz3(self.denpoly(f[1])) if f[1] else None)
            st.pop()
        return memo[n]

    def init_maps(self):
        if self.logarg is None:
            self.logarg = {}
        if self.exparg is None:
            self.exparg = {}


# ------------------------------------------------------------------ numeric evaluation of the DAG
def feval(enc, order, env):
    """evaluate all nodes (list order is topological) with floats; nan on error"""
    v = [math.nan] * len(enc.nodes)
    fns = dict(sin=math.sin, cos=math.cos, tan=math.tan, sinh=math.sinh, cosh=math.cosh, tanh=math.tanh, asin=math.asin,
               acos=math.acos, atan=math.atan, asinh=math.asinh, acosh=math.acosh, atanh=math.atanh, sqrt=math.sqrt,
               exp=math.exp, log=math.log, abs=abs)
    for i, (op, a, b) in enumerate(enc.nodes):
        try:
            if op == 'c':
                v[i] = float(a)
            elif op == 'v':
                v[i] = env[a]
            elif op == '+':
                v[i] = v[a] + v[b]
            elif op == '-':
                v[i] = v[a] - v[b]
            elif op == '*':
                v[i] = v[a] * v[b]
            elif op == '/':
                v[i] = v[a] / v[b]
            elif op == '@':
                v[i] = math.atan2(v[a], v[b])
            elif op == '^':
                r = v[a] ** v[b]
                v[i] = r if not isinstance(r, complex) else math.nan
            else:
                v[i] = fns[op](v[a])
        except (ValueError, OverflowError, ZeroDivisionError):
            v[i] = math.nan
    return v
