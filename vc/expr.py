"""Hash-consed expression DAG: booleans, machine integers (bit-vectors) and mathematical reals.

Sorts: 'B' boolean, int w bit-vector of width w, 'R' real.
Constructors simplify on the fly; the simplifications are part of the trusted base (they are
cross-checked against concrete evaluation by vc/selftest.py).
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

class E:
    __slots__ = ("op", "sort", "args", "val", "id", "_iv", "_h", "__weakref__")
    def __repr__(self):
        return show(self, 6)
    def is_const(self):
        return self.op == "c"

_tab = {}
_next = [0]

def _mk(op, sort, args=(), val=None):
    key = (op, sort, tuple(a.id for a in args), val)
    n = _tab.get(key)
    if n is None:
        n = E()
        n.op = op; n.sort = sort; n.args = tuple(args); n.val = val
        n.id = _next[0]; _next[0] += 1
        n._iv = None
        _tab[key] = n
    return n

def reset():
    """forget all nodes but keep the constants TRUE/FALSE valid"""
    pass

TRUE = _mk("c", "B", (), True)
FALSE = _mk("c", "B", (), False)

def boolc(b): return TRUE if b else FALSE
def bv(v, w): return _mk("c", w, (), v & ((1 << w) - 1))
def real(v):
    if isinstance(v, float): v = Fraction(v)
    else: v = Fraction(v)
    return _mk("c", "R", (), v)

_freshn = {}
def var(name, sort, lo=None, hi=None):
    n = _mk("v", sort, (), name)
    if lo is not None: n._iv = (lo, hi)
    return n
def fresh(prefix, sort, lo=None, hi=None):
    k = _freshn.get(prefix, 0); _freshn[prefix] = k + 1
    return var("%s!%d" % (prefix, k), sort, lo, hi)
def uf(name, sort, args):
    return _mk("uf", sort, tuple(args), name)

# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    return _mk("not", "B", (a,))

def _conj(a):
    return a.args if a.op == "and" else (a,)

def and_(*xs):
    s = {}
    st = list(xs)
    for x in st:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in _conj(x):
            s[y.id] = y
    if not s: return TRUE
    for y in s.values():
        n = y.args[0] if y.op == "not" else None
        if n is not None and n.id in s: return FALSE
        # and(a, not(and(a,b))) -> and(a, not b)
    ys = [s[k] for k in sorted(s)]
    changed = False
    out = []
    for y in ys:
        if y.op == "not" and y.args[0].op == "and":
            inner = y.args[0].args
            rest = [z for z in inner if z.id not in s]
            if len(rest) < len(inner):
                out.append(not_(and_(*rest))); changed = True
                continue
        out.append(y)
    if changed: return and_(*out)
    if len(ys) == 1: return ys[0]
    return _mk("and", "B", tuple(ys))

def or_(*xs):
    xs = [x for x in xs]
    if not xs: return FALSE
    r = xs[0]
    for x in xs[1:]: r = _or2(r, x)
    return r

def _or2(a, b):
    if a is TRUE or b is TRUE: return TRUE
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return a
    ca = {x.id: x for x in _conj(a)}
    cb = {x.id: x for x in _conj(b)}
    common = [ca[k] for k in ca if k in cb]
    ra = [ca[k] for k in ca if k not in cb]
    rb = [cb[k] for k in cb if k not in ca]
    if not ra or not rb: return and_(*common)
    A = and_(*ra); B = and_(*rb)
    if not_(A) is B: return and_(*common)
    # A or (not A and C) -> A or C
    if common:
        return and_(*common, _or2(A, B))
    nA = not_(A)
    cB = {x.id: x for x in _conj(B)}
    if nA.id in cB:
        return _or2(A, and_(*[x for x in cB.values() if x is not nA]))
    nB = not_(B)
    cA = {x.id: x for x in _conj(A)}
    if nB.id in cA:
        return _or2(B, and_(*[x for x in cA.values() if x is not nB]))
    return not_(and_(not_(A), not_(B)))

def implies(a, b): return or_(not_(a), b)
def iff(a, b): return eq(a, b)

def rel_cond(g, other):
    """g simplified by removing conjuncts shared with other"""
    co = {x.id for x in _conj(other)}
    return and_(*[x for x in _conj(g) if x.id not in co])

# ---------------------------------------------------------------- ite
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    # collapse nested same condition
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == "ite" and b.args[1] is a:   # ite(c,a,ite(d,a,e)) -> ite(c|d,a,e)
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:   # ite(c,a,ite(d,e,a)) -> ite(c|!d,a,e)
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "ite" and a.args[2] is b:   # ite(c,ite(d,e,b),b) -> ite(c&d,e,b)
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == "ite" and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if c.op == "rlt":
        x, y = c.args
        if a is x and b is y or a is y and b is x:      # min / max: one form whatever the order of the arguments
            if y.id < x.id: return _mk("ite", "R", (rlt(y, x), b, a)) if rlt(y, x).op == "rlt" else _mk("ite", "R", (c, a, b))
        elif a.op == "neg" and b.op == "neg" and (a.args[0] is x and b.args[0] is y or a.args[0] is y and b.args[0] is x):
            return rneg(ite(c, a.args[0], b.args[0]))
    return _mk("ite", a.sort, (c, a, b))

# ---------------------------------------------------------------- bit-vectors
def _mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

def _lin(e):
    """-> (dict id->(term,coef), const)"""
    w = e.sort
    if e.op == "c": return {}, e.val
    if e.op == "lin":
        return {t.id: (t, c) for t, c in zip(e.args, e.val[0])}, e.val[1]
    return {e.id: (e, 1)}, 0

def _mklin(d, k, w):
    m = _mask(w)
    items = [(t, c & m) for t, c in d.values() if c & m]
    k &= m
    if not items: return bv(k, w)
    if len(items) == 1 and items[0][1] == 1 and k == 0: return items[0][0]
    items.sort(key=lambda p: p[0].id)
    return _mk("lin", w, tuple(t for t, c in items), (tuple(c for t, c in items), k))

def bvlinop(a, ca, b, cb):
    w = a.sort
    d, k = _lin(a)
    if ca != 1:
        d = {i: (t, c * ca) for i, (t, c) in d.items()}; k *= ca
    d2, k2 = _lin(b)
    for i, (t, c) in d2.items():
        if i in d: d[i] = (t, d[i][1] + c * cb)
        else: d[i] = (t, c * cb)
    return _mklin(d, k + k2 * cb, w)

def _small_ite(e):
    return e.op == "ite" and e.args[1].op == "c" and e.args[2].op == "c"

def bvadd(a, b):
    if a.op == "c" and b.op == "c": return bv(a.val + b.val, a.sort)
    if b.op == "c" and b.val == 0: return a
    if a.op == "c" and a.val == 0: return b
    return bvlinop(a, 1, b, 1)
def bvsub(a, b):
    if a is b: return bv(0, a.sort)
    return bvlinop(a, 1, b, -1)
def bvneg(a): return bvlinop(bv(0, a.sort), 1, a, -1)
def bvmul(a, b):
    if a.op == "c": a, b = b, a
    w = a.sort
    if b.op == "c":
        if b.val == 0: return b
        if b.val == 1: return a
        d, k = _lin(a)
        return _mklin({i: (t, c * b.val) for i, (t, c) in d.items()}, k * b.val, w)
    if a.op == "ite" and _small_ite(a): return ite(a.args[0], bvmul(a.args[1], b), bvmul(a.args[2], b))
    if b.op == "ite" and _small_ite(b): return ite(b.args[0], bvmul(a, b.args[1]), bvmul(a, b.args[2]))
    # distribute over lin with few terms
    if a.op == "lin" or b.op == "lin":
        da, ka = _lin(a); db, kb = _lin(b)
        if len(da) * len(db) <= 16:
            r = bv(ka * kb, w)
            for t, c in da.values():
                r = bvadd(r, bvmul(t, bv(c * kb, w)))
            for t, c in db.values():
                r = bvadd(r, bvmul(t, bv(c * ka, w)))
            for t, c in da.values():
                for u, e in db.values():
                    r = bvadd(r, bvmul(_mulatom(t, u), bv(c * e, w)))
            return r
    return _mulatom(a, b)
def _mulatom(a, b):
    fs = list(a.args if a.op == "bvmul" else (a,)) + list(b.args if b.op == "bvmul" else (b,))
    fs.sort(key=lambda x: x.id)
    return _mk("bvmul", a.sort, tuple(fs))

def udiv(a, b):
    w = a.sort
    if b.op == "c" and b.val != 0:
        if a.op == "c": return bv(a.val // b.val, w)
        if b.val == 1: return a
        if b.val & (b.val - 1) == 0: return lshr(a, bv(b.val.bit_length() - 1, w))
    if a.op == "c" and a.val == 0: return a
    return _mk("udiv", w, (a, b))
UREM_ATOM = [False]
def urem(a, b):
    w = a.sort
    if b.op == "c" and b.val != 0:
        if a.op == "c": return bv(a.val % b.val, w)
        if b.val == 1: return bv(0, w)
        if b.val & (b.val - 1) == 0: return bvand(a, bv(b.val - 1, w))
        lo, hi = interval(a)
        if hi < b.val: return a
        if hi < 2 * b.val: return ite(ult(a, b), a, bvsub(a, b))
        return _mk("urem", w, (a, b))
    if a.op == "c" and a.val == 0: return a
    if b.op == "bvmul" or any(t.op == "bvmul" and b in t.args for t, _ in _lin(a)[0].values()): return bvsub(a, bvmul(b, udiv(a, b)))
    if UREM_ATOM[0]: return _mk("urem", w, (a, b))
    # a % b = a or a - b when the quotient is 0 or 1
    a1 = bvsub(a, b); a2 = bvsub(a1, b)
    return ite(ult(a, b), a, ite(ult(a1, b), a1, ite(ult(a2, b), a2, bvsub(a, bvmul(b, udiv(a, b))))))
def sdiv(a, b):
    w = a.sort
    if a.op == "c" and b.op == "c" and b.val:
        x, y = sgn(a.val, w), sgn(b.val, w)
        q = abs(x) // abs(y)
        return bv(q if (x < 0) == (y < 0) else -q, w)
    if b.op == "c" and b.val == 1: return a
    if nonneg(a) and nonneg(b): return udiv(a, b)
    return _mk("sdiv", w, (a, b))
def srem(a, b):
    w = a.sort
    if a.op == "c" and b.op == "c" and b.val:
        x, y = sgn(a.val, w), sgn(b.val, w)
        r = abs(x) % abs(y)
        return bv(r if x >= 0 else -r, w)
    if nonneg(a) and nonneg(b): return urem(a, b)
    return _mk("srem", w, (a, b))
def nonneg(a):
    return interval(a)[1] < (1 << (a.sort - 1))

def bvand(a, b):
    w = a.sort
    if a.op == "c": a, b = b, a
    if a.op == "c": return bv(a.val & b.val, w)
    if b.op == "c":
        if b.val == 0: return b
        if b.val == _mask(w): return a
        m = b.val
        # mask covering the whole range of a
        if m & (m + 1) == 0 and interval(a)[1] <= m: return a
        if a.op == "bvand" and a.args[1].op == "c": return bvand(a.args[0], bv(a.args[1].val & m, w))
        if a.op == "zext" and m >> a.args[0].sort == 0 and False: pass
    if a is b: return a
    if b.op != "c" and b.id < a.id: a, b = b, a
    return _mk("bvand", w, (a, b))
def _tz(e):
    """number of low bits of a linear term known to be zero"""
    n = e.sort
    for k in list(e.val[0]) + [e.val[1]]:
        if k: n = min(n, (k & -k).bit_length() - 1)
    return n
def bvor(a, b):
    w = a.sort
    if a.op == "c": a, b = b, a
    if a.op == "c": return bv(a.val | b.val, w)
    if b.op == "c":
        if b.val == 0: return a
        if b.val == _mask(w): return b
    if a is b: return a
    for p, q in ((a, b), (b, a)):   # disjoint bits: the sum
        if p.op == "lin" and interval(q)[1] < 1 << _tz(p): return bvadd(p, q)
    if b.op != "c" and b.id < a.id: a, b = b, a
    return _mk("bvor", w, (a, b))
def bvxor(a, b):
    w = a.sort
    if a.op == "c": a, b = b, a
    if a.op == "c": return bv(a.val ^ b.val, w)
    if b.op == "c":
        if b.val == 0: return a
        if b.val == _mask(w): return bvlinop(bv(-1, w), 1, a, -1)
    if a is b: return bv(0, w)
    if b.op != "c" and b.id < a.id: a, b = b, a
    return _mk("bvxor", w, (a, b))
def shl(a, b):
    w = a.sort
    if b.op == "c":
        if b.val >= w: return bv(0, w)
        return bvmul(a, bv(1 << b.val, w))
    if a.op == "c" and a.val == 0: return a
    if _small_ite(b): return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    if b.op == "lin" and 0 < b.val[1] < w:      # x << (t + k) = (x << t) * 2^k when t + k does not wrap
        t = _mklin({u.id: (u, c) for u, c in zip(b.args, b.val[0])}, 0, w)
        if interval(t)[1] + b.val[1] <= _mask(w): return bvmul(shl(a, t), bv(1 << b.val[1], w))
    return _mk("shl", w, (a, b))
def lshr(a, b):
    w = a.sort
    if b.op == "c":
        if b.val == 0: return a
        if b.val >= w: return bv(0, w)
        if a.op == "c": return bv(a.val >> b.val, w)
        if a.op == "lshr" and a.args[1].op == "c": return lshr(a.args[0], bv(a.args[1].val + b.val, w))
        if interval(a)[1] >> b.val == 0: return bv(0, w)
    if a.op == "c" and a.val == 0: return a
    if _small_ite(b): return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return _mk("lshr", w, (a, b))
def ashr(a, b):
    w = a.sort
    if nonneg(a): return lshr(a, b)
    if a.op == "c" and b.op == "c": return bv(sgn(a.val, w) >> min(b.val, w - 1), w)
    if b.op == "c" and b.val == 0: return a
    return _mk("ashr", w, (a, b))
def trunc(a, w):
    if a.sort == w: return a
    if a.op == "c": return bv(a.val, w)
    if a.op in ("zext", "sext"):
        b = a.args[0]
        if b.sort == w: return b
        if b.sort > w: return trunc(b, w)
        return zext(b, w) if a.op == "zext" else sext(b, w)
    if a.op == "lin":
        d = {}
        r = bv(a.val[1], w)
        for t, c in zip(a.args, a.val[0]):
            r = bvlinop(r, 1, trunc(t, w), c)
        return r
    if a.op == "bvmul":
        r = trunc(a.args[0], w)
        for x in a.args[1:]: r = bvmul(r, trunc(x, w))
        return r
    if a.op in ("bvand", "bvor", "bvxor"):
        f = {"bvand": bvand, "bvor": bvor, "bvxor": bvxor}[a.op]
        return f(trunc(a.args[0], w), trunc(a.args[1], w))
    if a.op == "ite": return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == "trunc": return trunc(a.args[0], w)
    if a.op == "lshr" and a.args[1].op == "c" and a.args[0].op == "lin":     # bits k..k+w-1 do not see multiples of 2^(k+w)
        x = a.args[0]; k = a.args[1].val; m = (1 << (k + w)) - 1
        if k + w < a.sort and any(not (c & m) for c in x.val[0]):
            d, c0 = _lin(x)
            return trunc(lshr(_mklin({i: tc for i, tc in d.items() if tc[1] & m}, c0, a.sort), a.args[1]), w)
    return _mk("trunc", w, (a,))
def _ext_lin_ok(a, w, signed):
    """can the extension be pushed through a linear form without wrap? uses intervals"""
    return None
def zext(a, w):
    if a.sort == w: return a
    if a.op == "c": return bv(a.val, w)
    if a.op == "zext": return zext(a.args[0], w)
    if a.op == "trunc":
        x = a.args[0]
        if interval(x)[1] < 1 << a.sort: return x if x.sort == w else trunc(x, w) if x.sort > w else zext(x, w)
    if a.op == "ite" and (_small_ite(a)): return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    if a.op == "lin":
        r = _ext_push(a, w, False)
        if r is not None: return r
    return _mk("zext", w, (a,))
def _ext_push(a, w, signed):
    # no-wrap check by intervals on the mathematical value of the linear form
    w0 = a.sort
    lo = hi = sgn(a.val[1], w0)
    parts = []
    for t, c in zip(a.args, a.val[0]):
        c = sgn(c, w0)
        tl, th = siv(t) if signed else interval(t)
        if c >= 0: lo += c * tl; hi += c * th
        else: lo += c * th; hi += c * tl
        parts.append((t, c))
    if signed:
        if lo < -(1 << (w0 - 1)) or hi >= (1 << (w0 - 1)): return None
    else:
        if lo < 0 or hi >= (1 << w0): return None
    r = bv(sgn(a.val[1], w0), w)
    for t, c in parts:
        r = bvlinop(r, 1, sext(t, w) if signed else zext(t, w), c)
    return r
def sext(a, w):
    if a.sort == w: return a
    if a.op == "c": return bv(sgn(a.val, a.sort), w)
    if nonneg(a): return zext(a, w)
    if a.op == "sext": return sext(a.args[0], w)
    if a.op == "trunc":
        lo, hi = siv(a.args[0]); h = 1 << (a.sort - 1)
        if -h <= lo and hi < h:
            x = a.args[0]
            return x if x.sort == w else sext(x, w) if x.sort < w else trunc(x, w)
    if a.op == "ite" and (_small_ite(a)): return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    if a.op == "lin":
        r = _ext_push(a, w, True)
        if r is not None: return r
    return _mk("sext", w, (a,))

def interval(e):
    """unsigned interval of a bit-vector"""
    if e._iv is not None: return e._iv
    w = e.sort
    full = (0, _mask(w))
    op = e.op
    r = full
    if op == "c": r = (e.val, e.val)
    elif op == "zext": r = interval(e.args[0])
    elif op == "ite":
        a, b = interval(e.args[1]), interval(e.args[2])
        r = (min(a[0], b[0]), max(a[1], b[1]))
    elif op == "bvand":
        r = (0, min(interval(e.args[0])[1], interval(e.args[1])[1]))
    elif op == "bvor" or op == "bvxor":
        m = max(interval(e.args[0])[1], interval(e.args[1])[1])
        r = (0, (1 << m.bit_length()) - 1)
    elif op == "lshr":
        if e.args[1].op == "c":
            a = interval(e.args[0]); r = (a[0] >> e.args[1].val, a[1] >> e.args[1].val)
        else: r = (0, interval(e.args[0])[1])
    elif op == "urem":
        b = interval(e.args[1]); 
        r = (0, min(interval(e.args[0])[1], b[1] - 1)) if b[0] > 0 else (0, interval(e.args[0])[1])
    elif op == "udiv":
        a = interval(e.args[0]); b = interval(e.args[1])
        if b[0] > 0: r = (a[0] // b[1], a[1] // b[0])
    elif op == "lin":
        lo = hi = e.val[1]
        ok = True
        for t, c in zip(e.args, e.val[0]):
            tl, th = interval(t)
            lo += c * tl; hi += c * th
        if hi > _mask(w):
            # try signed coefs
            lo = hi = sgn(e.val[1], w)
            for t, c in zip(e.args, e.val[0]):
                c = sgn(c, w)
                tl, th = interval(t)
                if c >= 0: lo += c * tl; hi += c * th
                else: lo += c * th; hi += c * tl
            if lo < 0 or hi > _mask(w): lo, hi = full
        r = (lo, hi)
    elif op == "bvmul":
        lo = hi = 1
        for t in e.args:
            a = interval(t); lo *= a[0]; hi *= a[1]
        r = (lo, hi) if hi <= _mask(w) else full
    elif op == "shl":
        a = interval(e.args[0]); b = interval(e.args[1])
        if b[1] < w and (a[1] << b[1]) <= _mask(w): r = (a[0] << b[0], a[1] << b[1])
    elif op == "trunc":
        a = interval(e.args[0])
        if a[1] <= _mask(w): r = a
    e._iv = r
    return r

_sivh = {}
def set_siv(e, lo, hi): _sivh[e.id] = (lo, hi)
def siv(e):
    """signed interval"""
    if e.id in _sivh: return _sivh[e.id]
    lo, hi = interval(e)
    w = e.sort
    h = 1 << (w - 1)
    if hi < h: return (lo, hi)
    if lo >= h: return (lo - (1 << w), hi - (1 << w))
    if e.op == "sext": return siv(e.args[0])
    if e.op == "trunc":
        a = siv(e.args[0])
        if -h <= a[0] and a[1] < h: return a
    if e.op == "ite":
        a, b = siv(e.args[1]), siv(e.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if e.op == "lin":
        lo = hi = sgn(e.val[1], w)
        for t, c in zip(e.args, e.val[0]):
            c = sgn(c, w)
            tl, th = siv(t)
            if c >= 0: lo += c * tl; hi += c * th
            else: lo += c * th; hi += c * tl
        if -h <= lo and hi < h: return (lo, hi)
    return (-h, h - 1)

# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b: return TRUE
    if a.op == "c" and b.op == "c": return boolc(a.val == b.val)
    s = a.sort
    if s == "B":
        if a.op == "c": a, b = b, a
        if b is TRUE: return a
        if b is FALSE: return not_(a)
        if not_(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return _mk("eq", "B", (a, b))
    if s == "R":
        if a.op == "c": a, b = b, a
        if b.op == "c":
            if a.op == "toreal":
                x = a.args[0]
                if b.val.denominator != 1: return FALSE
                v = int(b.val); w = x.sort
                if a.val == "u": return eq(x, bv(v, w)) if 0 <= v <= _mask(w) else FALSE
                return eq(x, bv(v, w)) if -(1 << (w-1)) <= v < (1 << (w-1)) else FALSE
        if a.op == "toreal" and b.op == "toreal" and a.val == b.val and a.args[0].sort == b.args[0].sort:
            return eq(a.args[0], b.args[0])
    else:
        if a.op == "c": a, b = b, a
        if b.op == "c":
            if a.op == "zext":
                x = a.args[0]
                return eq(x, bv(b.val, x.sort)) if b.val <= _mask(x.sort) else FALSE
            if a.op == "sext":
                x = a.args[0]
                v = sgn(b.val, s)
                return eq(x, bv(v, x.sort)) if -(1 << (x.sort-1)) <= v < (1 << (x.sort-1)) else FALSE
            lo, hi = interval(a)
            if not (lo <= b.val <= hi): return FALSE
        elif (a.op == "zext" and b.op == "zext" or a.op == "sext" and b.op == "sext") and a.args[0].sort == b.args[0].sort:
            return eq(a.args[0], b.args[0])
        ia, ib = interval(a), interval(b)
        if ia[1] < ib[0] or ib[1] < ia[0]: return FALSE
        if a.op == "lin" or b.op == "lin":
            d = bvsub(a, b)
            if d.op == "c": return boolc(d.val == 0)
            if d.op == "lin":
                # normalise: move the constant to the right, first coef positive
                k = d.val[1]
                if sgn(d.val[0][0], s) < 0: d = bvneg(d); k = d.val[1] if d.op == "lin" else 0
                if d.op == "lin":
                    dd = _mklin({t.id: (t, c) for t, c in zip(d.args, d.val[0])}, 0, s)
                    kk = bv(-k, s)
                    if dd.op != "lin": return eq(dd, kk)
                    # two-term difference x - y = 0
                    if kk.val == 0 and len(dd.args) == 2 and sorted(dd.val[0]) == [1, _mask(s)]:
                        x, y = dd.args
                        if x.id > y.id: x, y = y, x
                        return _mk("eq", "B", (x, y))
                    return _mk("eq", "B", (dd, kk))
                return eq(d, bv(0, s))
    # ite with constants
    if b.op == "c" and a.op == "ite":
        x, y = a.args[1], a.args[2]
        if x.op == "c" or y.op == "c":
            return ite(a.args[0], eq(x, b), eq(y, b))
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if b.op != "c" and a.id > b.id: a, b = b, a
    return _mk("eq", "B", (a, b))
def ne(a, b): return not_(eq(a, b))

def ult(a, b):
    if a is b: return FALSE
    ia, ib = interval(a), interval(b)
    if ia[1] < ib[0]: return TRUE
    if ia[0] >= ib[1]: return FALSE
    if b.op == "c" and b.val == 1: return eq(a, bv(0, a.sort))
    if a.op == "c" and a.val == 0: return ne(b, a)
    if a.op == "zext" and b.op == "zext" and a.args[0].sort == b.args[0].sort: return ult(a.args[0], b.args[0])
    if a.op == "zext" and b.op == "c": return ult(a.args[0], bv(b.val, a.args[0].sort))
    if b.op == "zext" and a.op == "c": return ult(bv(a.val, b.args[0].sort), b.args[0])
    if _small_ite(a) and b.op == "c" or _small_ite(b) and a.op == "c":
        if a.op == "ite": return ite(a.args[0], ult(a.args[1], b), ult(a.args[2], b))
        return ite(b.args[0], ult(a, b.args[1]), ult(a, b.args[2]))
    return _mk("ult", "B", (a, b))
def ule(a, b): return not_(ult(b, a))
def slt(a, b):
    if a is b: return FALSE
    ia, ib = siv(a), siv(b)
    if ia[1] < ib[0]: return TRUE
    if ia[0] >= ib[1]: return FALSE
    if ia[0] >= 0 and ib[0] >= 0: return ult(a, b)
    if a.op == "sext" and b.op == "sext" and a.args[0].sort == b.args[0].sort: return slt(a.args[0], b.args[0])
    if a.op == "sext" and b.op == "c":
        return slt(a.args[0], bv(sgn(b.val, b.sort), a.args[0].sort))
    if b.op == "sext" and a.op == "c":
        return slt(bv(sgn(a.val, a.sort), b.args[0].sort), b.args[0])
    if _small_ite(a) and b.op == "c": return ite(a.args[0], slt(a.args[1], b), slt(a.args[2], b))
    if _small_ite(b) and a.op == "c": return ite(b.args[0], slt(a, b.args[1]), slt(a, b.args[2]))
    return _mk("slt", "B", (a, b))
def sle(a, b): return not_(slt(b, a))

# ---------------------------------------------------------------- reals
ZERO = real(0); ONE = real(1)
def radd(a, b):
    if a.op == "c" and b.op == "c": return real(a.val + b.val)
    if a is ZERO: return b
    if b is ZERO: return a
    if a.op == "neg" and a.args[0] is b or b.op == "neg" and b.args[0] is a: return ZERO
    if a.id > b.id: a, b = b, a
    return _mk("radd", "R", (a, b))
def rneg(a):
    if a.op == "c": return real(-a.val)
    if a.op == "neg": return a.args[0]
    return _mk("neg", "R", (a,))
def rsub(a, b):
    if a is b: return ZERO
    return radd(a, rneg(b))
def rmul(a, b):
    if a.op == "c" and b.op == "c": return real(a.val * b.val)
    if a.op == "c": a, b = b, a
    if b.op == "c":
        if b.val == 0: return ZERO
        if b.val == 1: return a
        if b.val == -1: return rneg(a)
    if a.op == "neg": return rneg(rmul(a.args[0], b))
    if b.op == "neg": return rneg(rmul(a, b.args[0]))
    if a.id > b.id: a, b = b, a
    return _mk("rmul", "R", (a, b))
def rdiv(a, b):
    if b.op == "c" and b.val != 0:
        return rmul(a, real(1 / b.val))
    if a is ZERO: return ZERO
    if a.op == "neg": return rneg(rdiv(a.args[0], b))
    if b.op == "neg": return rneg(rdiv(a, b.args[0]))
    return _mk("rdiv", "R", (a, b))
def rlt(a, b):
    if a is b: return FALSE
    if a.op == "c" and b.op == "c": return boolc(a.val < b.val)
    if a.op == "neg" and b.op == "neg": return rlt(b.args[0], a.args[0])
    if a.op == "neg" and b.op == "c": return rlt(real(-b.val), a.args[0])
    if b.op == "neg" and a.op == "c": return rlt(b.args[0], real(-a.val))
    for p, q in ((a, b), (b, a)):
        if p.op == "rmul" and q.op == "c":
            cs = [t for t in p.args if t.op == "c"]
            if len(cs) == 1 and cs[0].val > 0 and len(p.args) == 2:
                t = p.args[1] if p.args[0] is cs[0] else p.args[0]; k = real(q.val / cs[0].val)
                return rlt(t, k) if p is a else rlt(k, t)
    if a.op == "toreal" and b.op == "c":
        x = a.args[0]; w = x.sort
        import math
        k = math.ceil(b.val)   # x < c  <=> x < ceil(c)
        if a.val == "u":
            if k <= 0: return FALSE
            if k > _mask(w): return TRUE
            return ult(x, bv(k, w))
        if k <= -(1 << (w-1)): return FALSE
        if k > (1 << (w-1)) - 1: return TRUE
        return slt(x, bv(k, w))
    if b.op == "toreal" and a.op == "c":
        x = b.args[0]; w = x.sort
        import math
        k = math.floor(a.val)  # c < x <=> floor(c) < x
        if b.val == "u":
            if k < 0: return TRUE
            if k >= _mask(w): return FALSE
            return ult(bv(k, w), x)
        if k < -(1 << (w-1)): return TRUE
        if k >= (1 << (w-1)) - 1: return FALSE
        return slt(bv(k, w), x)
    if a.op == "toreal" and b.op == "toreal" and a.val == b.val and a.args[0].sort == b.args[0].sort:
        return (ult if a.val == "u" else slt)(a.args[0], b.args[0])
    if a.op == "ite" and b.op == "c" and (a.args[1].op == "c" or a.args[2].op == "c"):
        return ite(a.args[0], rlt(a.args[1], b), rlt(a.args[2], b))
    if b.op == "ite" and a.op == "c" and (b.args[1].op == "c" or b.args[2].op == "c"):
        return ite(b.args[0], rlt(a, b.args[1]), rlt(a, b.args[2]))
    return _mk("rlt", "B", (a, b))
def rle(a, b): return not_(rlt(b, a))
def toreal(a, signed):
    w = a.sort
    if w == "B": return ite(a, real(-1 if signed else 1), ZERO)
    if a.op == "c": return real(sgn(a.val, w) if signed else a.val)
    if a.op == "ite": return ite(a.args[0], toreal(a.args[1], signed), toreal(a.args[2], signed))
    if signed and nonneg(a): signed = False
    if a.op == "zext": return toreal(a.args[0], False)
    if a.op == "sext" and signed: return toreal(a.args[0], True)
    if a.op == "trunc":
        x = a.args[0]; lo, hi = siv(x) if signed else interval(x)
        if (-(1 << (w - 1)) <= lo and hi < 1 << (w - 1)) if signed else hi <= _mask(w): return toreal(x, signed)
    if a.op == "lin":
        r = _ext_push(a, w + 16, signed)
        if r is not None:
            s = real(sgn(a.val[1], w))
            for t, c in zip(a.args, a.val[0]):
                s = radd(s, rmul(real(sgn(c, w)), toreal(t, signed)))
            return s
    if a.op == "bvmul":
        hi = 1
        for t in a.args: hi *= interval(t)[1]
        if hi <= (_mask(w) >> 1 if signed else _mask(w)):
            r = ONE
            for t in a.args: r = rmul(r, toreal(t, False))
            return r
    return _mk("toreal", "R", (a,), "s" if signed else "u")
def fromreal(a, w, signed):
    """truncation toward zero (C cast); out of range is UB and guarded by the caller"""
    if a.op == "c":
        v = a.val
        q = abs(v).numerator // abs(v).denominator
        return bv(q if v >= 0 else -q, w)
    if a.op == "ite": return ite(a.args[0], fromreal(a.args[1], w, signed), fromreal(a.args[2], w, signed))
    if a.op == "toreal":
        x = a.args[0]
        if x.sort <= w: return zext(x, w) if a.val == "u" else sext(x, w)
    return _mk("fromreal", w, (a,), "s" if signed else "u")
def rabs(a):
    if a.op == "c": return real(abs(a.val))
    return ite(rlt(a, ZERO), rneg(a), a)
def rfun(name, *args):
    """uninterpreted real function (sqrt, pow, exp ...) with axioms supplied by the solver layer"""
    if name == "sqrt" and args[0].op == "c":
        v = args[0].val
        import math
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator: return real(Fraction(n, d))
    if name == "floor" and args[0].op == "c":
        import math
        return real(math.floor(args[0].val))
    if name == "pow" and args[1].op == "c" and args[1].val.denominator == 1 and 0 <= args[1].val <= 8:
        r = ONE
        for _ in range(int(args[1].val)): r = rmul(r, args[0])
        return r
    if name == "ceil":
        return rneg(rfun("floor", rneg(args[0])))
    return _mk("rf", "R", tuple(args), name)

# ---------------------------------------------------------------- traversal
def postorder(roots):
    seen = set(); out = []
    st = [(r, 0) for r in reversed(list(roots))]
    while st:
        n, i = st.pop()
        if n.id in seen and i == 0: continue
        if i < len(n.args):
            st.append((n, i + 1))
            if n.args[i].id not in seen: st.append((n.args[i], 0))
        elif n.id not in seen:
            seen.add(n.id); out.append(n)
    return out

REBUILD = None
def rebuild(n, args):
    op = n.op
    if op in ("c", "v"): return n
    if op == "not": return not_(args[0])
    if op == "and": return and_(*args)
    if op == "ite": return ite(*args)
    if op == "eq": return eq(*args)
    if op == "ult": return ult(*args)
    if op == "slt": return slt(*args)
    if op == "rlt": return rlt(*args)
    if op == "lin":
        r = bv(n.val[1], n.sort)
        for t, c in zip(args, n.val[0]): r = bvlinop(r, 1, t, c)
        return r
    if op == "bvmul":
        r = args[0]
        for x in args[1:]: r = bvmul(r, x)
        return r
    f = {"udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "bvand": bvand, "bvor": bvor, "bvxor": bvxor,
         "shl": shl, "lshr": lshr, "ashr": ashr, "radd": radd, "rmul": rmul, "rdiv": rdiv, "neg": rneg}.get(op)
    if f: return f(*args)
    if op == "zext": return zext(args[0], n.sort)
    if op == "sext": return sext(args[0], n.sort)
    if op == "trunc": return trunc(args[0], n.sort)
    if op == "toreal": return toreal(args[0], n.val == "s")
    if op == "fromreal": return fromreal(args[0], n.sort, n.val == "s")
    if op == "rf": return rfun(n.val, *args)
    if op == "uf": return uf(n.val, n.sort, args)
    raise Exception("rebuild " + op)

def subst(roots, m):
    """m: dict id -> replacement"""
    memo = dict(m)
    for n in postorder(roots):
        if n.id in memo: continue
        if not n.args: memo[n.id] = n; continue
        na = tuple(memo[a.id] for a in n.args)
        memo[n.id] = n if all(x is y for x, y in zip(na, n.args)) else rebuild(n, na)
    return [memo[r.id] for r in roots]

def show(e, d=8):
    if d == 0: return "…"
    if e.op == "c":
        if e.sort == "R": return str(float(e.val)) if e.val.denominator != 1 else str(e.val)
        return str(e.val)
    if e.op == "v": return e.val
    if e.op == "lin":
        return "(" + " + ".join(["%s*%s" % (sgn(c, e.sort), show(t, d - 1)) for t, c in zip(e.args, e.val[0])] + [str(sgn(e.val[1], e.sort))]) + ")"
    nm = e.val if e.op in ("uf", "rf") else e.op
    return "%s(%s)" % (nm, ", ".join(show(a, d - 1) for a in e.args))

# ---------------------------------------------------------------- concrete evaluation
import math
def evaluate(roots, env, ufs=None, floats=False):
    """env: var name -> python value (int, bool, Fraction/float). ufs: (name, args tuple) -> value"""
    memo = {}
    for n in postorder(roots):
        a = [memo[x.id] for x in n.args]
        op, s = n.op, n.sort
        if op == "c": v = n.val
        elif op == "v":
            v = env.get(n.val)
            if v is None: v = False if s == "B" else (Fraction(0) if s == "R" else 0)
        elif op == "not": v = not a[0]
        elif op == "and": v = all(a)
        elif op == "ite": v = a[1] if a[0] else a[2]
        elif op == "eq": v = a[0] == a[1]
        elif op == "ult": v = a[0] < a[1]
        elif op == "slt":
            w = n.args[0].sort; v = sgn(a[0], w) < sgn(a[1], w)
        elif op == "rlt": v = a[0] < a[1]
        elif op == "lin": v = (sum(c * x for c, x in zip(n.val[0], a)) + n.val[1]) & _mask(s)
        elif op == "bvmul":
            v = 1
            for x in a: v = v * x & _mask(s)
        elif op == "udiv": v = a[0] // a[1] if a[1] else _mask(s)
        elif op == "urem": v = a[0] % a[1] if a[1] else a[0]
        elif op in ("sdiv", "srem"):
            x, y = sgn(a[0], s), sgn(a[1], s)
            if y == 0: v = 0
            else:
                q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
                v = (q if op == "sdiv" else x - q * y) & _mask(s)
        elif op == "bvand": v = a[0] & a[1]
        elif op == "bvor": v = a[0] | a[1]
        elif op == "bvxor": v = a[0] ^ a[1]
        elif op == "shl": v = (a[0] << a[1]) & _mask(s) if a[1] < s else 0
        elif op == "lshr": v = a[0] >> a[1] if a[1] < s else 0
        elif op == "ashr": v = (sgn(a[0], s) >> min(a[1], s - 1)) & _mask(s)
        elif op == "trunc": v = a[0] & _mask(s)
        elif op == "zext": v = a[0]
        elif op == "sext": v = sgn(a[0], n.args[0].sort) & _mask(s)
        elif op == "radd": v = a[0] + a[1]
        elif op == "rmul": v = a[0] * a[1]
        elif op == "neg": v = -a[0]
        elif op == "rdiv": v = a[0] / a[1] if a[1] != 0 else Fraction(0)
        elif op == "toreal":
            v = sgn(a[0], n.args[0].sort) if n.val == "s" else a[0]
            v = float(v) if floats else Fraction(v)
        elif op == "fromreal":
            try: v = int(a[0]) & _mask(s)
            except (OverflowError, ValueError): v = 0
        elif op == "rf":
            try:
                x = [float(y) for y in a]
                if n.val == "floor": v = math.floor(a[0])
                elif n.val == "fmod": v = math.fmod(*x)
                else: v = getattr(math, n.val)(*x)
                if not floats: v = Fraction(v)
            except (ValueError, OverflowError, ZeroDivisionError): v = Fraction(0)
        elif op == "uf":
            v = (ufs or {}).get((n.val, tuple(a)))
            if v is None: v = False if s == "B" else (Fraction(0) if s == "R" else 0)
        else: raise Exception("eval " + op)
        memo[n.id] = v
    return [memo[r.id] for r in roots]
