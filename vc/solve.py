"""Discharge of proof obligations: algebraic normal form with case splitting, z3 and cvc5."""
import os, sys, time, subprocess, tempfile, math, signal
from fractions import Fraction
from expr import *
import expr as X
import z3

# ------------------------------------------------------------------ E -> z3
def s_ok(lo, hi, sg, w): return w <= 64 and lo >= 0 and hi < (1 << 63)
class Conv:
    def __init__(self, ctx=None):
        self.memo = {}; self.axioms = []; self.abstract = set(); self.vars = {}; self.ufs = {}
        self.rconst = {}; self.trs = []
    def sort(self, s):
        return z3.BoolSort() if s == "B" else z3.RealSort() if s == "R" else z3.BitVecSort(s)
    def c(self, root):
        memo = self.memo
        for n in postorder([root]):
            if n.id in memo: continue
            memo[n.id] = self.one(n, [memo[a.id] for a in n.args])
        return memo[root.id]
    def one(self, n, a):
        op, s = n.op, n.sort
        if op == "c":
            if s == "B": return z3.BoolVal(n.val)
            if s == "R": return z3.RealVal(str(n.val))
            return z3.BitVecVal(n.val, s)
        if op == "v":
            v = z3.Const(n.val, self.sort(s)); self.vars[n.val] = (n, v)
            return v
        if op == "not": return z3.Not(a[0])
        if op == "and": return z3.And(*a)
        if op == "ite": return z3.If(a[0], a[1], a[2])
        if op == "eq": return a[0] == a[1]
        if op == "ult": return z3.ULT(a[0], a[1])
        if op == "slt": return a[0] < a[1]
        if op == "rlt": return a[0] < a[1]
        if op == "lin":
            r = None
            for t, k in zip(a, n.val[0]):
                k = sgn(k, s)
                x = t if k == 1 else t * z3.BitVecVal(k, s)
                r = x if r is None else r + x
            k = sgn(n.val[1], s)
            return r if k == 0 else r + z3.BitVecVal(k, s)
        if op == "bvmul":
            r = a[0]
            for x in a[1:]: r = r * x
            return r
        if op == "udiv": return z3.UDiv(a[0], a[1])
        if op == "urem": return z3.URem(a[0], a[1])
        if op == "sdiv": return a[0] / a[1]
        if op == "srem": return z3.SRem(a[0], a[1])
        if op == "bvand": return a[0] & a[1]
        if op == "bvor": return a[0] | a[1]
        if op == "bvxor": return a[0] ^ a[1]
        if op == "shl": return a[0] << a[1]
        if op == "lshr": return z3.LShR(a[0], a[1])
        if op == "ashr": return a[0] >> a[1]
        if op == "trunc": return z3.Extract(s - 1, 0, a[0])
        if op == "zext": return z3.ZeroExt(s - n.args[0].sort, a[0])
        if op == "sext": return z3.SignExt(s - n.args[0].sort, a[0])
        if op == "radd": return a[0] + a[1]
        if op == "rmul": return a[0] * a[1]
        if op == "neg": return -a[0]
        if op == "rdiv": return a[0] / a[1]
        if op == "toreal":
            x = n.args[0]
            lo, hi = siv(x) if n.val == "s" else interval(x)
            if hi - lo <= 64:
                r = z3.RealVal(hi)
                for k in range(lo, hi): r = z3.If(a[0] == z3.BitVecVal(k, x.sort), z3.RealVal(k), r)
                return r
            v = z3.Real("toreal!%d" % n.id)
            self.axioms += [v >= lo, v <= hi]
            self.abstract.add("toreal")
            self.rconst[n.id] = v
            # integer order and equality carry over to the reals
            sg = n.val == "s"
            if s_ok(lo, hi, sg, x.sort) and len(self.trs) < 9:
                xa = z3.ZeroExt(64 - x.sort, a[0]) if x.sort < 64 else a[0]
                for (yb, w) in self.trs:
                    one = z3.BitVecVal(1, 64)
                    self.axioms += [z3.ULT(xa, yb) == (v + 1 <= w), z3.ULT(yb, xa) == (w + 1 <= v), (xa == yb) == (v == w),
                                    (xa + one == yb) == (v + 1 == w), (yb + one == xa) == (w + 1 == v),
                                    z3.Or(v <= w, v == w + 1, v >= w + 2), z3.Or(w <= v, w == v + 1, w >= v + 2)]
                self.axioms += [(xa == z3.BitVecVal(0, 64)) == (v == 0), (xa == z3.BitVecVal(1, 64)) == (v == 1), z3.Or(v == 0, v == 1, v >= 2)]
                self.trs.append((xa, v))
            return v
        if op == "fromreal":
            x = a[0]
            v = z3.BitVec("fromreal!%d" % n.id, s)
            t = toreal(n, n.val == "s")
            self.memo[n.id] = v
            rv = self.c(t)
            rng = z3.And(x > -1, x < z3.RealVal(2 ** s)) if n.val == "u" else z3.And(x > -(2 ** (s - 1)) - 1, x < 2 ** (s - 1))
            self.axioms += [z3.Implies(rng, z3.If(x >= 0, z3.And(rv <= x, x < rv + 1), z3.And(rv >= x, x > rv - 1)))]
            self.abstract.add("fromreal")
            return v
        if op == "uf":
            if n.val == "urem!": self.abstract.add("urem")
            f = self.ufs.get((n.val, len(a)))
            if f is None:
                f = z3.Function(n.val, *[self.sort(x.sort) for x in n.args], self.sort(s)); self.ufs[(n.val, len(a))] = f
            return f(*a) if a else z3.Const(n.val, self.sort(s))
        if op == "rf":
            f = z3.Function("rf_" + n.val, *[self.sort(x.sort) for x in n.args], z3.RealSort())
            r = f(*a)
            nm = n.val
            if nm == "sqrt": self.axioms += [z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0]))]
            elif nm in ("exp", "exp2"): self.axioms += [r > 0]
            elif nm == "pow": self.axioms += [z3.Implies(a[0] > 0, r > 0), z3.Implies(a[0] >= 0, r >= 0)]
            elif nm == "floor":
                iv = z3.Int("floor!%d" % n.id)
                self.axioms += [r == z3.ToReal(iv), r <= a[0], a[0] < r + 1]
            elif nm in ("sin", "cos", "tanh"): self.axioms += [r <= 1, r >= -1]
            elif nm == "hypot": self.axioms += [r >= 0, r * r == a[0] * a[0] + a[1] * a[1]]
            else: pass
            if nm != "sqrt": self.abstract.add(nm)
            return r
        raise Exception("z3 " + op)

# ------------------------------------------------------------------ machine integers as mathematical integers
class IntConv:
    """Non-linear integer obligations: every bit-vector term is an integer in [0,2^w); wrap-around is explicit.
    Terms that have no integer counterpart are fresh variables, so only an unsat answer is used."""
    def __init__(self): self.memo = {}; self.ax = []; self.fs = {}; self.n = 0
    def fresh(self, w=None, hi=None, lo=0):
        self.n += 1; v = z3.Int("i!%d" % self.n)
        if w is not None: self.ax += [v >= lo, v <= ((1 << w) - 1 if hi is None else hi)]
        return v
    def wrap(self, n, x, exact):
        if exact: return x
        t = self.fresh(n.sort, interval(n)[1], interval(n)[0]); m = self.fresh()
        self.ax += [t == x + m * (1 << n.sort)]
        return t
    def c(self, root):
        memo = self.memo
        for n in postorder([root]):
            if n.id not in memo: memo[n.id] = self.one(n, [memo[a.id] for a in n.args])
        return memo[root.id]
    def div(self, a, b, bpos):
        q = self.fresh(); self.ax += [q >= 0]
        f = [q * b <= a, a < q * b + b, q <= a]
        self.ax += f if bpos else [z3.Implies(b > 0, z3.And(*f))]
        return q
    def one(self, n, a):
        op, s = n.op, n.sort
        if s == "R": return z3.Real("r!%d" % n.id)
        if s == "B":
            if op == "c": return z3.BoolVal(n.val)
            if op == "v": return z3.Bool(n.val)
            if op == "not": return z3.Not(a[0])
            if op == "and": return z3.And(*a)
            if op == "ite": return z3.If(a[0], a[1], a[2])
            if op == "eq": return a[0] == a[1]
            if op == "ult": return a[0] < a[1]
            if op == "slt":
                x, y = n.args
                def sg(t, e):
                    h = 1 << (t.sort - 1)
                    return e if interval(t)[1] < h else z3.If(e >= h, e - 2 * h, e)
                return sg(x, a[0]) < sg(y, a[1])
            return z3.Bool("b!%d" % n.id)
        if op == "c": return z3.IntVal(n.val)
        if op == "v":
            lo, hi = interval(n); v = z3.Int(n.val); self.ax += [v >= lo, v <= hi]; return v
        if op == "zext": return a[0]
        if op == "ite": return z3.If(a[0], a[1], a[2])
        if op == "lin":
            x = z3.IntVal(sgn(n.val[1], s)); lo = hi = sgn(n.val[1], s)
            for t, at, k in zip(n.args, a, n.val[0]):
                k = sgn(k, s); x = x + k * at; tl, th = interval(t)
                if k >= 0: lo += k * tl; hi += k * th
                else: lo += k * th; hi += k * tl
            return self.wrap(n, x, lo >= 0 and hi < (1 << s))
        if op == "bvmul":
            x = a[0]; hi = interval(n.args[0])[1]
            for t, e in zip(n.args[1:], a[1:]): x = x * e; hi *= interval(t)[1]
            return self.wrap(n, x, hi < (1 << s))
        if op == "udiv": return self.div(a[0], a[1], interval(n.args[1])[0] > 0)
        if op == "urem":
            q = self.div(a[0], a[1], interval(n.args[1])[0] > 0); return a[0] - q * a[1] if interval(n.args[1])[0] > 0 else self.fresh(s)
        if op == "lshr" and n.args[1].op == "c" and n.args[1].val < s: return self.div(a[0], z3.IntVal(1 << n.args[1].val), True)
        if op == "trunc":
            if interval(n.args[0])[1] < (1 << s): return a[0]
            t = self.fresh(s); m = self.fresh(); self.ax += [a[0] == t + m * (1 << s)]; return t
        if op == "uf":
            k = (n.val, len(a))
            if k not in self.fs: self.fs[k] = z3.Function(n.val, *[z3.RealSort() if x.sort == "R" else z3.BoolSort() if x.sort == "B" else z3.IntSort() for x in n.args], z3.IntSort())
            v = self.fs[k](*a) if a else z3.Int(n.val); lo, hi = interval(n); self.ax += [v >= lo, v <= hi]; return v
        lo, hi = interval(n); v = z3.Int("t!%d" % n.id); self.ax += [v >= lo, v <= hi]; return v
def nonlinear_int(es):
    for n in postorder(es):
        if n.op == "bvmul" or (n.op in ("udiv", "urem") and n.args[1].op != "c"): return True
    return False
def smt_int(hyps, goal, timeout):
    cv = IntConv()
    fs = [cv.c(h) for h in hyps] + [z3.Not(cv.c(goal))]
    t1 = time.time()
    s = z3.Solver(); s.set("timeout", int(timeout * 1000))
    for f in fs + cv.ax: s.add(f)
    try: r = s.check()
    except z3.Z3Exception: r = z3.unknown
    STATS["z3"] += time.time() - t1
    return r == z3.unsat

# ------------------------------------------------------------------ incremental feasibility
class Inc:
    def __init__(self, ex):
        self.ex = ex; self.cv = Conv(); self.s = z3.Solver(); self.na = 0; self.nx = 0; self.cache = {}
        self.time = 0
    def check(self, g, timeout):
        t0 = time.time()
        while self.na < len(self.ex.assumes):
            e = self.ex.assumes[self.na]; self.na += 1
            self.s.add(self.cv.c(e))
        c = self.cv.c(g)
        while self.nx < len(self.cv.axioms):
            self.s.add(self.cv.axioms[self.nx]); self.nx += 1
        self.s.set("timeout", timeout)
        r = self.s.check(c)
        self.time += time.time() - t0
        return r != z3.unsat

# ------------------------------------------------------------------ rational normal form
class Rat:
    """num: {mono: Fraction}; den: {factor index: exp}"""
    __slots__ = ("n", "d")
    def __init__(self, n, d): self.n = n; self.d = d
ONEM = ()
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def mmul(x, y):
    if not x: return y
    if not y: return x
    d = dict(x)
    for k, e in y: d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))
class TooBig(Exception): pass
def pmul(a, b, cap=400000):
    if len(a) * len(b) > cap: raise TooBig()
    r = {}
    if len(a) > len(b): a, b = b, a
    for m, c in a.items():
        for m2, c2 in b.items():
            k = mmul(m, m2); v = r.get(k, 0) + c * c2
            if v: r[k] = v
            else: r.pop(k, None)
    return r
class NF:
    def __init__(self):
        self.memo = {}; self.facs = []; self.facidx = {}; self.sq = {}   # atom id -> Rat of its square
        self.atoms = {}
        self.dens = set(); self.lazy = {}; self.ori = {}
    def factor(self, p):
        """register polynomial p as a denominator factor; returns (dict fac->exp, Fraction scalar)"""
        if len(p) == 1:
            (m, c), = p.items()
            return {("a", k): e for k, e in m}, c
        # content monomial
        common = None
        for m in p:
            d = dict(m)
            if common is None: common = d
            else: common = {k: min(e, d[k]) for k, e in common.items() if k in d}
            if not common: break
        out = {}
        if common:
            out = {("a", k): e for k, e in common.items()}
            p = {tuple(sorted((k, e - common.get(k, 0)) for k, e in m if e - common.get(k, 0))): c for m, c in p.items()}
        lead = min(p)
        sc = p[lead]
        q = {m: c / sc for m, c in p.items()}
        key = tuple(sorted(q.items()))
        i = self.facidx.get(key)
        if i is None:
            i = len(self.facs); self.facs.append(q); self.facidx[key] = i
        out[("p", i)] = 1
        return out, sc
    def facpoly(self, f):
        return {((f[1], 1),): Fraction(1)} if f[0] == "a" else self.facs[f[1]]
    def reduce(self, p):
        """apply s^2 -> square for sqrt atoms with polynomial squares"""
        if not self.sq: return Rat(p, {})
        out = Rat({}, {})
        dirty = False
        for m, c in p.items():
            hit = next(((k, e) for k, e in m if e >= 2 and k in self.sq), None)
            if hit: dirty = True; break
        if not dirty: return Rat(p, {})
        keep = {}
        for m, c in p.items():
            hit = next(((k, e) for k, e in m if e >= 2 and k in self.sq), None)
            if not hit: keep[m] = c; continue
            k, e = hit
            m2 = tuple(sorted([(a, b) for a, b in m if a != k] + ([(k, e % 2)] if e % 2 else [])))
            t = Rat({m2: c}, {})
            for _ in range(e // 2): t = self.mul(t, self.sq[k])
            out = self.add(out, t)
        return self.add(out, Rat(keep, {}))
    def cancel(self, r):
        # cancel atom factors common to all monomials, and a polynomial factor equal to the numerator
        if not r.n: return Rat({}, {})
        d = r.d
        for f in list(d):
            if f[0] == "a":
                k = f[1]
                mn = min(dict(m).get(k, 0) for m in r.n)
                t = min(mn, d[f])
                if t:
                    n = {}
                    for m, c in r.n.items():
                        dd = dict(m); dd[k] -= t
                        n[tuple(sorted((a, b) for a, b in dd.items() if b))] = c
                    d = dict(d); d[f] -= t
                    if not d[f]: del d[f]
                    r = Rat(n, d)
            else:
                q = self.facs[f[1]]
                while f in d and len(q) == len(r.n) or (f in d and len(q) <= 6 and len(r.n) <= 400):
                    x = pdivexact(r.n, q)
                    if x is None: break
                    d = dict(d); d[f] -= 1
                    if not d[f]: del d[f]
                    r = Rat(x, d)
                    if not d: break
        return r
    def add(self, a, b, k=1):
        if not b.n: return a
        if not a.n: return Rat({m: k * c for m, c in b.n.items()}, b.d) if k != 1 else b
        if a.d == b.d: 
            return self.cancel(Rat(padd(a.n, b.n, k), a.d)) if a.d else Rat(padd(a.n, b.n, k), {})
        l = dict(a.d)
        for f, e in b.d.items(): l[f] = max(l.get(f, 0), e)
        an, bn = a.n, b.n
        for f, e in l.items():
            for _ in range(e - a.d.get(f, 0)): an = pmul(an, self.facpoly(f))
            for _ in range(e - b.d.get(f, 0)): bn = pmul(bn, self.facpoly(f))
        r = Rat(padd(an, bn, k), l)
        x = self.reduce(r.n)
        if x.n is not r.n or x.d: r = self.mulden(x, l)
        return self.cancel(r)
    def mulden(self, x, l):
        d = dict(x.d)
        for f, e in l.items(): d[f] = d.get(f, 0) + e
        return Rat(x.n, d)
    def mul(self, a, b):
        if not a.n or not b.n: return Rat({}, {})
        n = pmul(a.n, b.n)
        d = dict(a.d)
        for f, e in b.d.items(): d[f] = d.get(f, 0) + e
        x = self.reduce(n)
        if x.d or x.n is not n:
            return self.cancel(self.mulden(x, d))
        return self.cancel(Rat(n, d)) if d else Rat(n, {})
    def inv(self, a):
        if not a.n: raise ZeroDivisionError()
        fs, sc = self.factor(a.n)
        n = {ONEM: Fraction(1) / sc}
        for f, e in a.d.items():
            for _ in range(e): n = pmul(n, self.facpoly(f))
        return self.cancel(Rat(n, fs))
    def nf(self, root):
        memo = self.memo
        for x in postorder_real(root, memo, self.deep):
            if x.id in memo: continue
            op = x.op
            if op == "c": r = Rat({ONEM: x.val} if x.val else {}, {})
            elif op == "radd": r = self.add(memo[x.args[0].id], memo[x.args[1].id])
            elif op == "neg":
                a = memo[x.args[0].id]; r = Rat({m: -c for m, c in a.n.items()}, a.d)
            elif op == "rmul": r = self.mul(memo[x.args[0].id], memo[x.args[1].id])
            elif op == "rdiv":
                b = memo[x.args[1].id]
                if not b.n: r = self.atom(x)
                else: r = self.mul(memo[x.args[0].id], self.inv(b))
            elif op == "rf" and x.val == "sqrt":
                r = self.fun(x)
                (m, c), = r.n.items()
                k = m[0][0]
                if k not in self.sq:
                    a = memo.get(x.args[0].id) or self.nf(x.args[0])
                    self.sq[k] = a
            elif op == "rf" or op == "uf" and x.sort == "R": r = self.fun(x)
            elif op == "ite" and self.deep: r = self.choice(x)
            else: r = self.atom(x)
            memo[x.id] = self.shrink(r)
            if self.until and time.time() > self.until: raise TooBig()
        return memo[root.id]
    deep = False; until = None
    def form(self, e):
        r = self.memo.get(e.id) or self.nf(e)
        return (tuple(sorted(r.n.items())), tuple(sorted(r.d.items())))
    def cond(self, c):
        """key of a condition: equal keys, equivalent conditions"""
        if c.op == "rlt" or c.op == "eq" and c.args[0].sort == "R":
            r = self.nf(rsub(*c.args))
            if not r.n: return (c.op, 0)
            lead = r.n[min(r.n)]; k = abs(lead) if c.op == "rlt" else lead
            return (c.op, tuple(sorted((m, v / k) for m, v in r.n.items())), tuple(sorted(r.d.items())))
        if c.op == "not": return ("not", self.cond(c.args[0]))
        if c.op == "and": return ("and", tuple(sorted((self.cond(a) for a in c.args), key=repr)))
        return c.id
    def orient(self, x):
        """condition and branches of a conditional; where the branches agree on the border of a strict inequality (min, max, absolute value) the sign is normalised"""
        c, t, e = x.args
        if c.op == "not" and c.args[0].op == "rlt": c = c.args[0]; t, e = e, t
        if c.op != "rlt": return None, c, t, e
        y = self.ori.get(x.id)
        if y is None:
            u = self.nf(rsub(*c.args)); y = (None, c, t, e)
            if u.n:
                v = self.add(self.nf(t), Rat({m: -k for m, k in self.nf(e).n.items()}, self.nf(e).d))
                if v.n and len(v.n) == len(u.n) and v.d == u.d:
                    m0 = min(u.n)
                    if m0 in v.n:
                        q = v.n[m0] / u.n[m0]
                        if all(m in v.n and v.n[m] == k * q for m, k in u.n.items()):
                            l = abs(u.n[m0]); pos = u.n[m0] > 0
                            key = ("rlt", tuple(sorted((m, (k if pos else -k) / l) for m, k in u.n.items())), tuple(sorted(u.d.items())))
                            y = (key, c, t, e) if pos else (key, c, e, t)
            self.ori[x.id] = y
        return y
    def choice(self, x):
        """conditional value modulo normal forms of its conditions and branches: nested conditionals become one decision tree in a fixed order of the atomic conditions"""
        keys = {}
        def ckeys(c):
            if c.op == "not": ckeys(c.args[0])
            elif c.op == "and":
                for a in c.args: ckeys(a)
            elif c.op != "c":
                if c.id not in ck: ck[c.id] = self.cond(c)
                keys[ck[c.id]] = 1
        ck = {}; seen = set(); st = [x]
        while st:
            y = st.pop()
            if y.op != "ite" or y.id in seen: continue
            seen.add(y.id)
            k, c, t, e = self.orient(y)
            if k is not None: keys[k] = 1
            else: ckeys(c)
            if len(keys) > 7: break
            st += [t, e]
        if len(keys) > 7:
            key = ("ite", self.cond(x.args[0]), self.form(x.args[1]), self.form(x.args[2]))
        else:
            order = sorted(keys, key=repr); env = {}
            def cv(c):
                if c.op == "not":
                    v = cv(c.args[0]); return None if v is None else not v
                if c.op == "and":
                    r = True
                    for a in c.args:
                        v = cv(a)
                        if v is False: return False
                        if v is None: r = None
                    return r
                if c.op == "c": return bool(c.val)
                return env.get(ck[c.id])
            def val(y):
                while y.op == "ite":
                    k, c, t, e = self.orient(y)
                    v = env.get(k) if k is not None else cv(c)
                    if v is None: return None
                    y = t if v else e
                return y
            def build(i):
                y = val(x)
                if y is not None: return ("leaf", self.form(y), y)
                k = order[i]
                env[k] = True; a = build(i + 1)
                env[k] = False; b = build(i + 1)
                del env[k]
                if a[:2] == b[:2]: return a
                return ("if", (k, a[:2], b[:2]))
            key = build(0)
            if key[0] == "leaf": return self.memo[key[2].id]
        y = self.memo.get(key)
        if y is None: y = self.atom(x); self.memo[key] = y
        return y
    def shrink(self, r): return r
    def atom(self, x):
        self.atoms[x.id] = x
        return Rat({((x.id, 1),): Fraction(1)}, {})
    def fun(self, x):
        """function application modulo normal forms of real arguments"""
        ks = []
        for a in x.args:
            if a.sort == "R":
                r = self.memo.get(a.id) or self.nf(a)
                ks.append((tuple(sorted(r.n.items())), tuple(sorted(r.d.items()))))
            else: ks.append(a.id)
        key = ("fun", x.op, x.val, tuple(ks))
        y = self.memo.get(key)
        if y is None: y = self.atom(x); self.memo[key] = y
        return y
    def is_zero(self, e):
        for T in (5, 14):
            if len(self.memo) + 1 and not size_below((e,), 40):
                l = self.lazy.get(T)
                if l is None: l = self.lazy[T] = LazyNF(T)
                try:
                    if not l.nf(e).n: return True
                except (TooBig, ZeroDivisionError): pass
        try: r = self.nf(e)
        except (TooBig, ZeroDivisionError): return False
        return not r.n
class LazyNF(NF):
    """subexpressions with many terms are replaced by one symbol per value up to a constant factor (equal forms, equal symbol)"""
    def __init__(self, T): super().__init__(); self.T = T; self.big = {}
    def shrink(self, r):
        if len(r.n) + sum(e if f[0] == "a" else 2 * e for f, e in r.d.items()) <= self.T or len(r.n) < 2: return r
        lead = r.n[min(r.n)]
        key = (tuple(sorted((m, c / lead) for m, c in r.n.items())), tuple(sorted(r.d.items())))
        k = self.big.get(key)
        if k is None: k = self.big[key] = -1 - len(self.big)
        return Rat({((k, 1),): lead}, {})
    def is_zero(self, e): return not self.nf(e).n
def pdivexact(n, q):
    """exact division of polynomial n by q, None if not exact (lex leading term by sorted key)"""
    try:
        ql = max(q, key=lambda m: mkey(m)); qc = q[ql]
        rem = dict(n); out = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 600: return None
            ml = max(rem, key=lambda m: mkey(m))
            d = dict(ml)
            for k, e in ql:
                d[k] = d.get(k, 0) - e
                if d[k] < 0: return None
            m = tuple(sorted((a, b) for a, b in d.items() if b))
            c = rem[ml] / qc
            out[m] = c
            for m2, c2 in q.items():
                k = mmul(m, m2); v = rem.get(k, 0) - c * c2
                if v: rem[k] = v
                else: rem.pop(k, None)
        return out
    except KeyError: return None
def pinideal(n, qs, cap=3000):
    """multivariate division of n by the polynomials qs leaves no remainder (so n vanishes where they all do)"""
    ls = []
    for q in qs:
        l = max(q, key=mkey)
        if not l: continue
        ls.append((l, q[l], q))
    rem = dict(n)
    for _ in range(cap):
        if not rem: return True
        ml = max(rem, key=mkey); d0 = dict(ml)
        for l, lc, q in ls:
            d = dict(d0)
            for k, e in l:
                d[k] = d.get(k, 0) - e
                if d[k] < 0: break
            else:
                m = tuple(sorted((a, b) for a, b in d.items() if b)); c = rem[ml] / lc
                for m2, c2 in q.items():
                    k = mmul(m, m2); v = rem.get(k, 0) - c * c2
                    if v: rem[k] = v
                    else: rem.pop(k, None)
                break
        else: return False
        if len(rem) > 20000: return False
    return False
def mkey(m):
    return (sum(e for _, e in m), tuple((-k, e) for k, e in m))
def postorder_real(root, memo, deep=False):
    seen = set(); out = []
    st = [(root, 0)]
    while st:
        n, i = st.pop()
        if i == 0 and (n.id in seen or n.id in memo): continue
        args = n.args if n.op in ("radd", "rmul", "neg", "rdiv", "rf", "uf") or deep and n.op == "ite" else ()
        args = [a for a in args if a.sort == "R"]
        if i < len(args):
            st.append((n, i + 1)); st.append((args[i], 0))
        elif n.id not in seen:
            seen.add(n.id); out.append(n)
    return out

# ------------------------------------------------------------------ SMT
STATS = {"z3": 0, "cvc5": 0}
def range_of(h):
    """h states only a constant range of one uninterpreted application: that application, else None"""
    x = None
    for l in conj(h):
        a = l.args[0] if l.op == "not" else l
        if a.op not in ("ult", "slt", "rlt") or len(a.args) != 2: return None
        p, q = a.args
        t = p if q.op == "c" else q if p.op == "c" else None
        if t is None or t.op != "uf" or (x is not None and t is not x): return None
        x = t
    return x
def drop_ranges(hyps, goal):
    """range facts about applications that occur nowhere else are dropped (they can not help)"""
    rs = [(h, range_of(h)) for h in hyps]
    core = [h for h, r in rs if r is None]
    if len(core) == len(hyps): return hyps
    occ = {n.id for n in postorder(core + [goal]) if n.op == "uf"}
    return [h for h, r in rs if r is None or r.id in occ]
def related(hyps, goal):
    """hypotheses sharing (transitively) variables/uninterpreted terms with the goal"""
    hyps = drop_ranges(hyps, goal)
    syms = lambda e: {n.id for n in postorder([e]) if n.op in ("v",)} | {("f", n.val) for n in postorder([e]) if n.op == "uf"}
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal)
    if not cur: return list(hyps)
    used = [False] * len(hs); ch = True
    while ch:
        ch = False
        for i, (h, s) in enumerate(hs):
            if not used[i] and (s & cur or not s):
                used[i] = True; ch = True; cur |= s
    return [h for i, (h, s) in enumerate(hs) if used[i]]

def near(hyps, goal, hops):
    """hypotheses within a few hops of shared symbols of the goal (a subset: only an unsat answer is meaningful)"""
    syms = lambda e: {n.id for n in postorder([e]) if n.op in ("v",)} | {("f", n.val) for n in postorder([e]) if n.op == "uf"}
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal); out = set()
    for _ in range(hops):
        new = set(cur)
        for i, (h, s) in enumerate(hs):
            if i not in out and (s & cur): out.add(i); new |= s
        cur = new
    return [hyps[i] for i in sorted(out)]
def smt(hyps, goal, timeout, want_model=False, back=("z3",), seed=0):
    """returns (status, by, model|None, abstract set); status in proved / cex / unknown"""
    if len(hyps) > 12 and "z3" in back and goal is not FALSE:
        rel = near(hyps, goal, 1)
        if len(rel) < len(hyps) * 0.8:
            cv = Conv()
            fs = [cv.c(h) for h in rel] + [cv.c(not_(goal))]
            s = z3.Solver(); s.set("timeout", 400)
            for f in fs + cv.axioms: s.add(f)
            t1 = time.time()
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            STATS["z3"] += time.time() - t1
            if r == z3.unsat: return "proved", "z3", None, cv.abstract
    neg = not_(goal)
    t0 = time.time()
    hyps = related(hyps, goal)
    last = "unknown"
    cv = Conv()
    fs = [cv.c(h) for h in hyps] + [cv.c(neg)]
    allf = fs + cv.axioms
    hasreal = any(n.sort == "R" for h in hyps + [neg] for n in postorder([h]))
    for b in back:
        t1 = time.time()
        if b == "z3":
            if hasreal: s = z3.Solver()
            else: s = z3.Solver() if cv.ufs else z3.SolverFor("QF_BV")
            s.set("timeout", int(timeout * 1000))
            for f in allf: s.add(f)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            STATS["z3"] += time.time() - t1
            if r == z3.unsat: return "proved", "z3", None, cv.abstract
            if r == z3.sat:
                m = s.model()
                return "cex", "z3", model_values(m, cv, hyps + [neg]) if want_model else None, cv.abstract
        elif b == "z3nl":
            s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "qfnra-nlsat").solver() if hasreal and not cv.ufs else None
            if s is None: continue
            s.set("timeout", int(timeout * 1000))
            for f in allf: s.add(f)
            try: r = s.check()
            except z3.Z3Exception: r = z3.unknown
            STATS["z3"] += time.time() - t1
            if r == z3.unsat: return "proved", "z3-nlsat", None, cv.abstract
            if r == z3.sat:
                try: return "cex", "z3-nlsat", model_values(s.model(), cv, hyps + [neg]) if want_model else None, cv.abstract
                except z3.Z3Exception: pass
        elif b == "cvc5":
            s = z3.Solver()
            for f in allf: s.add(f)
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "-q", f.name], capture_output=True, text=True, timeout=timeout + 5)
                out = p.stdout.strip().split("\n")[0] if p.stdout else ""
            except subprocess.TimeoutExpired: out = ""
            os.unlink(f.name)
            STATS["cvc5"] += time.time() - t1
            if out == "unsat": return "proved", "cvc5", None, cv.abstract
            if out == "sat": last = "cex-nomodel"
    return ("unknown" if last == "unknown" else "cex"), ",".join(back), None, cv.abstract

def zval(v):
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20); return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v): return v.as_long()
    return None
def model_values(m, cv, es):
    out = {"vars": {}, "ufs": []}
    for name, (n, v) in cv.vars.items():
        x = zval(m.eval(v, model_completion=True))
        if x is not None: out["vars"][name] = x
    seen = set()
    for n in postorder(es):
        if n.op == "uf" and n.id not in seen:
            seen.add(n.id)
            args = [zval(m.eval(cv.memo[a.id], model_completion=True)) for a in n.args]
            val = zval(m.eval(cv.memo[n.id], model_completion=True))
            if val is not None and None not in args: out["ufs"].append((n.val, args, val))
    return out

# ------------------------------------------------------------------ case splitting
class Budget(Exception): pass
def conj(e): return list(e.args) if e.op == "and" else [e]

def find_split(es):
    """a condition of an if-then-else inside es whose own expression contains no if-then-else, preferring shared ones"""
    best = None
    cnt = {}
    isfree = {}
    for n in postorder(es):
        f = n.op != "ite" and all(isfree[a.id] for a in n.args)
        isfree[n.id] = f
        if n.op == "ite":
            for c in atoms_of(n.args[0]):
                if isfree.get(c.id): cnt[c.id] = (cnt.get(c.id, (0,))[0] + 1, c)
    if not cnt: return None
    return max(cnt.values(), key=lambda p: (p[0], -p[1].id))[1]
def atoms_of(c):
    out = []; st = [c]
    while st:
        x = st.pop()
        if x.op == "not": st.append(x.args[0])
        elif x.op == "and": st.extend(x.args)
        elif x.op == "ite" and x.sort == "B": st.extend(x.args)
        elif x.op == "eq" and x.args[0].sort == "B": st.extend(x.args)
        elif x.op == "c": pass
        else: out.append(x)
    return out

def size_below(roots, k):
    seen = set(); st = list(roots)
    while st:
        n = st.pop()
        if n.id in seen: continue
        seen.add(n.id)
        if len(seen) > k: return False
        st.extend(n.args)
    return True
class Prover:
    def __init__(self, timeout=20, total=120, back=("z3", "z3nl", "cvc5"), want_model=True):
        self.timeout = timeout; self.deadline = time.time() + total; self.back = back
        self.by = set(); self.leaves = 0; self.want_model = want_model; self.model = None; self.abstract = set(); self.nf = NF(); self.dry = 0; self.keys = {}; self.pairs = {}; self.hasite = set(); self.pos = set()
    def prove(self, hyps, goal):
        """'proved' / 'cex' / 'unknown'"""
        if goal is TRUE: self.by.add("folding"); return "proved"
        if any(h is FALSE for h in hyps): self.by.add("folding"); return "proved"
        goals = conj(goal)
        if len(goals) > 1:
            res = "proved"
            for g in goals:
                r = self.prove(hyps, g)
                if r == "cex": return r
                if r != "proved": res = r
            return res
        isreal = any(n.sort == "R" for n in postorder([goal]))
        if not isreal:
            back = tuple(b for b in self.back if b != "z3nl")
            if nonlinear_int([goal] + hyps) and not any(n.sort == "R" for h in hyps for n in postorder([h])):
                if smt_int(related(hyps, goal), goal, min(self.timeout, 12)): self.by.add("z3-int"); return "proved"
            r, by, m, ab = smt(hyps, goal, self.timeout, self.want_model, back)
            if r == "unknown" and self.timeout < 60 and False: pass
            self.by.add(by)
            if r == "cex": self.model = m; self.abstract |= ab
            return r
        return self.split(hyps, goal, 0)
    # sign store: what the conditions met so far say about the sign of real expressions, up to rational normal form
    def signkey(self, a, b):
        k = (a.id, b.id); m = self.keys
        if k not in m:
            m[k] = None; self.pairs[k] = (a, b)
            if time.time() < self.deadline and size_below((a, b), 4000):
                try:
                    r = self.nf.nf(rsub(a, b))
                    if not r.n: m[k] = (0, 0)
                    else:
                        r = self.strip(r)
                        lead = r.n[min(r.n)]
                        m[k] = ((tuple(sorted((x, c / lead) for x, c in r.n.items())), tuple(sorted(r.d.items()))), 1 if lead > 0 else -1)
                except (TooBig, ZeroDivisionError, RecursionError): pass
        return m[k]
    def posatom(self, k):
        if k in self.pos: return True
        q = self.nf.sq.get(k)
        return q is not None and self.pospoly(q.n) and all(self.posfac(f) for f in q.d)
    def pospoly(self, p): return bool(p) and all(c > 0 and all(self.posatom(a) for a, _ in m) for m, c in p.items())
    def posfac(self, f): return self.posatom(f[1]) if f[0] == "a" else self.pospoly(self.nf.facs[f[1]])
    def strip(self, r):
        """r without factors known to be positive (same sign)"""
        d = {f: e for f, e in r.d.items() if not self.posfac(f)}
        common = None
        for m in r.n:
            common = dict(m) if common is None else {k: min(e, dict(m)[k]) for k, e in common.items() if k in dict(m)}
            if not common: break
        common = {k: e for k, e in (common or {}).items() if self.posatom(k)}
        n = {tuple(sorted((k, e - common.get(k, 0)) for k, e in m if e - common.get(k, 0))): c for m, c in r.n.items()} if common else r.n
        return Rat(n, d)
    def learnpos(self, hyps):
        for h in hyps:
            for l in conj(h):
                a, neg = (l.args[0], True) if l.op == "not" else (l, False)
                if a.op != "rlt": continue
                x, y = a.args
                if neg and y.op == "c" and x.op == "v" and y.val > 0: self.pos.add(x.id)
                if not neg and x.op == "c" and y.op == "v" and x.val >= 0: self.pos.add(y.id)
    def fact(self, signs, l):
        """signs updated with the literal l; None when l contradicts what is known"""
        neg = l.op == "not"; a = l.args[0] if neg else l
        if a.op not in ("rlt", "eq") or a.args[0].sort != "R": return signs
        if l.id in self.hasite: return signs
        if any(n.op == "ite" for n in postorder([a])): self.hasite.add(l.id); return signs
        k = self.signkey(*a.args)
        if k is None: return signs
        key, s = k
        if key == 0: return signs if (a.op == "eq") != neg else None
        ok = {"0"} if a.op == "eq" else {"-"} if s > 0 else {"+"}
        if neg: ok = {"-", "0", "+"} - ok
        old = signs.get(key, frozenset("-0+")); new = old & ok
        if not new: return None
        if new == old: return signs
        signs = dict(signs); signs[key] = frozenset(new); return signs
    def split(self, hyps, goal, depth, signs=None):
        if time.time() > self.deadline: return "unknown"
        if goal is TRUE or any(h is FALSE for h in hyps): self.by.add("folding"); return "proved"
        goals = conj(goal)
        if len(goals) > 1:
            res = "proved"
            for g in goals:
                r = self.split(hyps, g, depth, signs)
                if r == "cex": return r
                if r != "proved": res = r
            return res
        # goal of the form  A -> B  (not(and(A, not B))): move A to hypotheses
        if goal.op == "not" and goal.args[0].op == "and":
            parts = list(goal.args[0].args)
            # choose as conclusion a real relation
            reals = [p for p in parts if p.op == "not" and p.args[0].op in ("eq", "rlt") and p.args[0].args[0].sort == "R"]
            con = reals[-1] if reals else parts[-1]
            parts.remove(con)
            return self.split(hyps + parts, not_(con), depth)
        if signs is None:
            signs = {}; self.learnpos(hyps)
            for h in hyps:
                for l in conj(h):
                    signs = self.fact(signs, l)
                    if signs is None: self.by.add("algebra"); return "proved"
        c = find_split([goal])
        if c is not None and depth == 0 and goal.op == "eq" and goal.args[0].sort == "R":
            # equal whatever the conditionals inside are
            for T in (14, 300):
                try:
                    z = LazyNF(T); z.deep = True; z.until = time.time() + 5
                    if not z.nf(rsub(*goal.args)).n: self.by.add("algebra"); return "proved"
                except (TooBig, ZeroDivisionError): pass
        if c is None:
            self.leaves += 1
            if goal.op == "eq" and goal.args[0].sort == "R":
                if self.nf.is_zero(rsub(goal.args[0], goal.args[1])):
                    self.by.add("algebra"); return "proved"
                ties = [dict(k[0]) for k, v in signs.items() if v == {"0"}]
                if ties:
                    try:
                        n = self.nf.nf(rsub(goal.args[0], goal.args[1])).n
                        if pinideal(n, ties): self.by.add("algebra"); return "proved"
                        mm = {}
                        for (i, j), (a, b) in self.pairs.items():
                            k = self.keys.get((i, j))
                            if k and k[0] != 0 and signs.get(k[0]) == {"0"}:
                                if a.op == "c": a, b = b, a
                                if a.op != "c" and a.op != "v" and a.id not in mm: mm[a.id] = b
                        if mm:
                            g = subst([goal], mm)[0]
                            if g is TRUE or g.op == "eq" and self.nf.is_zero(rsub(*g.args)): self.by.add("algebra"); return "proved"
                    except (TooBig, ZeroDivisionError): pass
            g2 = goal
            # goal may still contain boolean structure (conditions on reals)
            r, by, m, ab = smt(hyps, g2, min(self.timeout, max(1, self.deadline - time.time())), self.want_model, self.back)
            if r == "proved": self.by.add(by)
            if r == "cex": self.model = m; self.abstract |= ab
            return r
        if depth > 3 and depth % 2 == 0 and (self.dry < 5 or depth % 6 == 0 and self.dry < 40):
            # prune infeasible branches now and then (less often when the solver does not decide them)
            r, by, m, ab = smt(hyps, FALSE, 0.5, False, ("z3",))
            if r == "proved": self.by.add(by); self.dry = 0; return "proved"
            if r == "unknown": self.dry += 1
        res = "proved"
        for v in (TRUE, FALSE):
            mm = {c.id: v}
            n = c if v is TRUE else not_(c)
            sg = self.fact(signs, n)
            if sg is None: self.by.add("algebra"); continue
            # complement forms
            if c.op == "rlt":
                rv = X._mk("rlt", "B", (c.args[1], c.args[0]))
                if v is TRUE: mm[rv.id] = FALSE
                e = eq(c.args[0], c.args[1])
                if v is TRUE and not e.is_const(): mm[e.id] = FALSE
            if c.op == "eq" and v is TRUE and c.args[0].sort == "R":
                for p, q in ((c.args[0], c.args[1]), (c.args[1], c.args[0])):
                    mm[X._mk("rlt", "B", (p, q)).id] = FALSE
            sub = subst([goal] + hyps, mm)
            h2 = [h for h in sub[1:] if h is not TRUE]
            bad = False
            for h, o in zip(sub[1:], hyps):
                if h is not o:
                    for l in conj(h):
                        sg = self.fact(sg, l)
                        if sg is None: bad = True; break
                    if bad: break
            if bad: self.by.add("algebra"); continue
            r = self.split(h2 + [n], sub[0], depth + 1, sg)
            if r == "cex": return r
            if r != "proved": res = r
        return res

def propagate(hyps, goal):
    """unit propagation: selector variables fixed by a hypothesis (v == constant, boolean v) are substituted everywhere else"""
    mm = {}
    lits = []
    todo = list(hyps)
    for h in hyps:
        for l in conj(h):
            if l.op == "eq" and l.args[0].sort not in ("B", "R"):
                a, b = l.args
                if b.op == "v" and a.op == "c": a, b = b, a
                if a.op == "v" and b.op == "c": mm[a.id] = b; lits.append(l)
            elif l.op == "v": mm[l.id] = TRUE; lits.append(l)
            elif l.op == "not" and l.args[0].op == "v": mm[l.args[0].id] = FALSE; lits.append(l)
    if not mm: return hyps, goal
    r = subst([goal] + list(hyps), mm)
    keep = []
    seen = set()
    for h in r[1:] + lits:
        if h is TRUE or h.id in seen: continue
        seen.add(h.id); keep.append(h)
    return keep, r[0]
class _Ob:
    def __init__(self, cond, guard): self.cond = cond; self.guard = guard
def discharge(ex, ob, timeout=20, total=120):
    t0 = time.time()
    hyps = [h for h in ex.assumes[:ob.na]] + conj(ob.guard)
    p = Prover(timeout, total)
    if not (ob.cond is TRUE or ob.guard is FALSE):
        hyps, cond = propagate(hyps, ob.cond)
        if cond is not FALSE or ob.cond is FALSE: ob = _Ob(cond, ob.guard)
        if any(h is FALSE for h in hyps): return dict(status="proved", by=["folding"], time=time.time() - t0, model=None, abstract=[])
    if ob.cond is TRUE or ob.guard is FALSE:
        return dict(status="proved", by=["folding"], time=0, model=None, abstract=[])
    try:
        if ob.cond is FALSE:
            # reachability obligation: guard must be infeasible
            r, by, m, ab = smt(hyps[:-0] if False else hyps, FALSE, timeout, True, ("z3", "cvc5"))
            p.by.add(by); p.model = m; p.abstract |= ab
            if r != "proved" and any(n.sort == "R" for n in postorder([ob.guard])):
                g = not_(ob.guard)
                r2 = p.split(list(hyps), g, 0)
                if r2 == "proved": r = r2
        else:
            r = p.prove(hyps, ob.cond)
    except RecursionError:
        r = "unknown"
    return dict(status=r, by=sorted(p.by), time=time.time() - t0, model=p.model, abstract=sorted(p.abstract))
