"""Guarded symbolic execution of LLVM IR with state merging (verification-condition generation).

One state flows through each function; every block is executed once under the disjunction of the
conditions of its incoming edges and values are merged with if-then-else at joins, so the conditions
collected are the exact verification conditions of the code (no path enumeration).  Loops are unrolled
until their back-edge condition is false (decided by simplification or by the solver); a loop whose
back edge cannot be closed is reported as 'unwind-cap' and the run is marked bounded.
"""
import re, subprocess, os
from fractions import Fraction
from expr import *
import expr as X
import ir
from ir import sizeof, offsets

class VCError(Exception): pass
class Unsupported(VCError): pass

class Obj:
    __slots__ = ("id", "name", "size", "kind", "fn", "init", "extra", "elt")
    n = 0
    def __init__(self, name, size, kind="mem", fn=None, init="undef"):
        Obj.n += 1
        self.id = Obj.n; self.name = name; self.size = size; self.kind = kind; self.fn = fn; self.init = init; self.extra = None
    def __repr__(self): return "<%s %s#%d>" % (self.kind, self.name, self.id)

Z64 = bv(0, 64)

class Ptr:
    """alts: list of (cond, obj|None, off E64, key tuple|None)"""
    __slots__ = ("alts",)
    def __init__(self, alts): self.alts = alts
    def __repr__(self): return "Ptr" + repr([(show(c, 3), o, show(f, 3), k) for c, o, f, k in self.alts])
def mkptr(obj, off=Z64, key=None): return Ptr([(TRUE, obj, off, key)])
NULL = mkptr(None)

class Agg:
    __slots__ = ("v",)
    def __init__(self, v): self.v = list(v)

class RBits:  # integer image of a real
    __slots__ = ("e",)
    def __init__(self, e): self.e = e

class PBits:  # integer image of a pointer stored/loaded as integer bytes
    __slots__ = ("p",)
    def __init__(self, p): self.p = p

def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if isinstance(a, E) and isinstance(b, E):
        if a.sort != b.sort: raise VCError("merge of sorts %s %s" % (a.sort, b.sort))
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return ptr_merge(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([vite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, RBits) and isinstance(b, RBits): return RBits(ite(c, a.e, b.e))
    if a is None: return b
    if b is None: return a
    # undef in one side: choose the other one only if it is a pointer (ints keep their undef variables)
    if isinstance(a, Ptr) and isinstance(b, E): return a
    if isinstance(b, Ptr) and isinstance(a, E): return b
    if isinstance(a, RBits) and isinstance(b, E) or isinstance(b, RBits) and isinstance(a, E):
        raise Unsupported("merge of float bits with int")
    raise VCError("merge %r %r" % (type(a), type(b)))

def keys_same(k1, k2):
    if k1 is None or k2 is None: return k1 is k2
    return len(k1) == len(k2) and all(x is y for x, y in zip(k1, k2))

def ptr_merge(c, a, b):
    out = []
    nc = not_(c)
    for (g, alts) in ((c, a.alts), (nc, b.alts)):
        for (k, o, f, key) in alts:
            kk = and_(g, k)
            if kk is FALSE: continue
            for i, (k2, o2, f2, key2) in enumerate(out):
                if o2 is o and keys_same(key, key2):
                    out[i] = (or_(k2, kk), o, ite(kk, f, f2), key2); break
                if o2 is o and key is not None and key2 is not None and len(key) == len(key2) and \
                        all((x is None) == (y is None) and not isinstance(x, tuple) and not isinstance(y, tuple) for x, y in zip(key, key2)):
                    nk = tuple(None if x is None else ite(kk, x, y) for x, y in zip(key, key2))
                    out[i] = (or_(k2, kk), o, ite(kk, f, f2), nk); break
            else: out.append((kk, o, f, key))
    if len(out) == 1: out = [(TRUE,) + out[0][1:]]
    return Ptr(out)

class MemC:
    __slots__ = ("cells", "owner", "zero")
    def __init__(self, cells, owner, zero=()): self.cells = cells; self.owner = owner; self.zero = zero

class LogC:
    """write log of a view / symbolic array: persistent list"""
    __slots__ = ("prev", "ent", "n", "depth_id")
    def __init__(self, prev, ent):
        self.prev = prev; self.ent = ent; self.n = (prev.n + 1) if prev else 1

class State:
    __slots__ = ("mem", "tok")
    cnt = 0
    def __init__(self, mem):
        self.mem = mem; State.cnt += 1; self.tok = State.cnt
    def fork(self):
        # after a fork nobody owns the contents
        State.cnt += 1; self.tok = State.cnt
        return State(dict(self.mem))

def merge_states(edges):
    """edges: list of (guard, state). returns (guard, state)"""
    edges = [e for e in edges if e[0] is not FALSE]
    if not edges: return FALSE, None
    if len(edges) == 1: return edges[0]
    g, s = edges[0]
    for g2, s2 in edges[1:]:
        s = merge2(g, s, g2, s2)
        g = or_(g, g2)
    return g, s

def merge2(g1, s1, g2, s2):
    c = rel_cond(g1, g2)      # choose s1 if c
    c2 = rel_cond(g2, g1)
    if c is TRUE and c2 is not TRUE: c = not_(c2)
    mem = {}
    m1, m2 = s1.mem, s2.mem
    for k, a in m1.items():
        b = m2.get(k)
        if b is None or a is b: mem[k] = a; continue
        mem[k] = merge_content(c, a, b, g1, g2)
    for k, b in m2.items():
        if k not in m1: mem[k] = b
    return State(mem)

_und = [0]
def undef_for(n, like=None):
    _und[0] += 1
    if like is not None and isinstance(like, E):
        return var("undef!%d" % _und[0], like.sort)
    return var("undef!%d" % _und[0], n * 8)

def merge_content(c, a, b, g1, g2):
    if isinstance(a, MemC) and isinstance(b, MemC):
        cells = {}
        ca, cb = a.cells, b.cells
        if a.zero != b.zero:
            a = concretise_zero(a, b); b = concretise_zero(b, a)
            ca, cb = a.cells, b.cells
        zr = tuple(z for z in a.zero if z in b.zero)
        keys = set(ca) | set(cb)
        for o in keys:
            x, y = ca.get(o), cb.get(o)
            if x is y: cells[o] = x; continue
            if x is not None and y is not None:
                if x[0] == y[0]:
                    cells[o] = (x[0], merge_val(c, x[1], y[1], x[0])); continue
                # different sizes: split the larger
                n = min(x[0], y[0])
                cells[o] = (n, merge_val(c, load_raw(ca, a.zero, o, n), load_raw(cb, b.zero, o, n), n))
                big, src, z = (x, ca, a.zero) if x[0] > n else (y, cb, b.zero)
                oth, oz = (cb, b.zero) if x[0] > n else (ca, a.zero)
                # remaining bytes one by one
                p = n
                while p < big[0]:
                    q = p + 1
                    step = 1
                    for st in (4, 2, 1):
                        if p + st <= big[0] and (o + p) % st == 0 and all((o + p + t) not in oth for t in range(1, st)): step = st; break
                    va = load_raw(src, z, o + p, step); vb = load_raw(oth, oz, o + p, step)
                    cells[o + p] = (step, merge_val(c, va, vb, step) if x[0] > n else merge_val(c, vb, va, step))
                    p += step
                continue
            one, other, oz = (x, cb, b.zero) if x is not None else (y, ca, a.zero)
            if o in cells: continue
            # the other side may hold these bytes in an overlapping cell, in a zero range, or be uninitialised
            ov = load_raw(other, oz, o, one[0], like=one[1])
            cells[o] = (one[0], merge_val(c, one[1], ov, one[0]) if x is not None else merge_val(c, ov, one[1], one[0]))
        # drop cells overlapped by an earlier larger one
        ks = sorted(cells); end = -1; out = {}
        for o in ks:
            n = cells[o][0]
            if o < end:
                if o + n <= end: continue
            out[o] = cells[o]; end = max(end, o + n)
        return MemC(out, 0, zr)
    # logs
    la, lb = a, b
    sa, sb = [], []
    def ln(x): return x.n if x is not None and isinstance(x, LogC) else 0
    while ln(la) > ln(lb): sa.append(la.ent); la = la.prev
    while ln(lb) > ln(la): sb.append(lb.ent); lb = lb.prev
    while la is not lb:
        sa.append(la.ent); la = la.prev
        sb.append(lb.ent); lb = lb.prev
    cur = la
    nc = not_(c)
    for e in reversed(sa): cur = LogC(cur, (e[0], e[1], e[2], and_(e[3], c), e[4], e[5]))
    for e in reversed(sb): cur = LogC(cur, (e[0], e[1], e[2], and_(e[3], nc), e[4], e[5]))
    return cur

def concretise_zero(a, b):
    return a

def merge_val(c, x, y, n):
    if isinstance(x, E) and isinstance(y, E) and x.sort != y.sort:
        # undef int against real, or int image
        if x.op == "v" and str(x.val).startswith("undef!"): x = var(x.val + "R", y.sort)
        elif y.op == "v" and str(y.val).startswith("undef!"): y = var(y.val + "R", x.sort)
        elif x.op == "c" and x.val == 0 and y.sort == "R": x = ZERO
        elif y.op == "c" and y.val == 0 and x.sort == "R": y = ZERO
        elif x.sort == "R": x = RBits(x); raise Unsupported("merge int/real cell")
    if isinstance(x, Ptr) and isinstance(y, E):
        y = NULL if (y.op == "c" and y.val == 0) else x
    if isinstance(y, Ptr) and isinstance(x, E):
        x = NULL if (x.op == "c" and x.val == 0) else y
    return vite(c, x, y)

def load_raw(cells, zero, off, n, like=None):
    """value of n bytes at off: E bv, or real/ptr if exact cell"""
    c = cells.get(off)
    if c is not None and c[0] == n: return c[1]
    # inside a larger cell?
    for o, (m, v) in cells.items():
        if o <= off and off + n <= o + m:
            if isinstance(v, E) and v.sort not in ("R", "B"):
                return trunc(lshr(v, bv(8 * (off - o), v.sort)), 8 * n)
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is None: return bv(0, 8 * n)
            raise Unsupported("partial load of real/pointer")
    # composed from smaller cells
    parts = []
    p = off
    any_ = False
    while p < off + n:
        d = cells.get(p)
        if d is not None and p + d[0] <= off + n:
            parts.append((p - off, d[0], d[1])); p += d[0]; any_ = True; continue
        inz = any(a <= p < b for a, b in zero)
        # enclosing cell
        enc = None
        for o, (m, v) in cells.items():
            if o <= p < o + m: enc = (o, m, v); break
        if enc is not None:
            o, m, v = enc
            if isinstance(v, E) and v.sort not in ("R", "B"):
                parts.append((p - off, 1, trunc(lshr(v, bv(8 * (p - o), v.sort)), 8))); p += 1; any_ = True; continue
            raise Unsupported("partial load")
        if inz: parts.append((p - off, 1, bv(0, 8))); any_ = True
        else: parts.append((p - off, 1, None))
        p += 1
    if not any_ or all(x[2] is None for x in parts):
        return undef_for(n, like)
    if all(isinstance(x[2], E) and x[2].op == "c" and x[2].val == 0 for x in parts):
        if like is not None and isinstance(like, E) and like.sort == "R": return ZERO
        if isinstance(like, Ptr): return NULL
        return bv(0, 8 * n)
    r = bv(0, 8 * n)
    for (o, m, v) in parts:
        if v is None: v = undef_for(m)
        if not isinstance(v, E) or v.sort in ("R", "B"): raise Unsupported("composed load of non-int")
        r = bvor_disj(r, shl(zext(v, 8 * n), bv(8 * o, 8 * n)))
    return r
def bvor_disj(a, b):
    if a.op == "c" and a.val == 0: return b
    if b.op == "c" and b.val == 0: return a
    return bvadd(a, b)

class Obligation:
    def __init__(self, kind, label, guard, cond, na, fn): 
        self.kind = kind; self.label = label; self.guard = guard; self.cond = cond; self.na = na; self.fn = fn
        self.status = None; self.by = None; self.time = 0; self.model = None
        self.abstract = False; self.lhs = self.rhs = None; self.payload = None

class Module2(ir.Module):
    def __init__(self, path):
        super().__init__(path)
        names = list(self.funcs)
        r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        self.dem = dict(zip(names, r.stdout.split("\n")))

class Exec:
    fixed = {}
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.assumes = []       # list of E
        self.obls = []
        self.covers = []        # (label, guard, number of assumes)
        self.globs = {}
        self.fnobjs = {}
        self.inputs = {}        # name -> (kind, E, lo, hi)
        self.uf_inputs = {}     # uf base -> info
        self.notes = set()
        self.called = {}        # functions symbolically executed
        self.external = {}
        self.replaced = []
        for rx, name in (self.opts.get("replace") or []):
            self.replaced.append((re.compile(rx), name))
        self._rep_cache = {}
        self.depth = 0
        self.stack = []
        self.bounded = []
        self.unwind = self.opts.get("unwind", 70)
        self.steps = 0
        self.anycount = {}
        self.par_stack = []
        self.feas = None
        self.throws = []
        self.static_objs = {}
        self.check_ub = self.opts.get("check_ub", False)
        self.path_facts = []
        self.scratch_ok = set(); self.par_obj = {}; self.reds = []
        self.addrs = {}
    # ------------------------------------------------------------- util
    def assume(self, g, c):
        e = implies(g, c)
        if e is not TRUE: self.assumes.append(e)
    def oblige(self, kind, label, g, c, **kw):
        ob = Obligation(kind, label, g, c, len(self.assumes), self.stack[-1] if self.stack else "")
        for k, v in kw.items(): setattr(ob, k, v)
        self.obls.append(ob)
        return ob
    def fnobj(self, name):
        name = self.m.resolve_alias(name)
        o = self.fnobjs.get(name)
        if o is None:
            o = Obj(name, 1, "fn", fn=name); self.fnobjs[name] = o
        return o
    def addr(self, o):
        if o.id not in self.addrs:
            v = var("addr!%s#%d" % (o.name, o.id), 64)
            self.addrs[o.id] = v
            self.byaddr = getattr(self, "byaddr", {}); self.byaddr[v.id] = o
        return self.addrs[o.id]
    def ptr2int(self, p):
        if isinstance(p, E): return p
        r = None
        for c, o, f, k in p.alts:
            if k is not None and any(x is not None for x in k):
                a = uf("eltaddr!%d" % o.id, 64, [x for x in k if x is not None]) if True else None
                a = bvadd(a, f)
            else:
                a = f if o is None else bvadd(self.addr(o), f)
            r = a if r is None else ite(c, a, r)
        return r
    def int2ptr(self, e):
        if isinstance(e, PBits): return e.p
        if e.op == "c": return mkptr(None, e)
        d, k = X._lin(e)
        base = [(t, c) for t, c in d.values() if t.id in getattr(self, "byaddr", {}) and c == 1]
        if len(base) == 1:
            o = self.byaddr[base[0][0].id]
            return mkptr(o, bvsub(e, base[0][0]))
        if e.op == "ite":
            return vite(e.args[0], self.int2ptr(e.args[1]), self.int2ptr(e.args[2]))
        raise Unsupported("inttoptr " + show(e, 4))
    def ptr_add(self, p, d):
        if isinstance(p, E): p = self.int2ptr(p)
        if d.op == "c" and d.val == 0: return p
        return Ptr([(c, o, bvadd(f, d), k) for c, o, f, k in p.alts])
    def ptr_eq(self, a, b):
        if isinstance(a, E): a = self.int2ptr(a)
        if isinstance(b, E): b = self.int2ptr(b)
        r = FALSE
        for c, o, f, k in a.alts:
            for c2, o2, f2, k2 in b.alts:
                if o is not o2: continue
                e = eq(f, f2)
                if k is not None and k2 is not None:
                    for x, y in zip(k, k2):
                        if x is not None and y is not None: e = and_(e, eq(x, y))
                r = or_(r, and_(c, c2, e))
        return r
    def feasible(self, g, timeout=3000):
        """is guard satisfiable under the assumptions so far (bit-vector part); True if unknown"""
        if g is FALSE: return False
        if g is TRUE: return True
        import solve
        if self.feas is None: self.feas = solve.Inc(self)
        return self.feas.check(g, timeout)
    # ------------------------------------------------------------- constants / globals
    def const(self, ty, v):
        k = v[0]
        if k == "i": return bv(v[1], v[2]) if v[2] != 1 else boolc(v[1] & 1)
        if k == "f":
            return fconst(v[1])
        if k == "null": return NULL if ty.k == "ptr" else NULL
        if k == "undef": return self.undef(ty)
        if k == "zero": return self.zero(ty)
        if k == "agg": return Agg([self.const(t, x) for t, x in v[2]])
        if k == "bytes": return Agg([bv(b, 8) for b in v[1]])
        if k == "g":
            n = self.m.resolve_alias(v[1])
            if n in self.m.funcs: return mkptr(self.fnobj(n))
            return mkptr(self.glob(n))
        if k == "cegep":
            t, ops = v[1], v[2]
            return self.gep(t, self.const(*ops[0]), [(ty2, self.const(ty2, o)) for ty2, o in ops[1:]])
        if k == "cecast":
            x = self.const(v[2], v[3])
            if v[1] in ("bitcast", "addrspacecast"): return x
            if v[1] == "ptrtoint": return trunc(self.ptr2int(x), v[4].w)
            if v[1] == "inttoptr": return self.int2ptr(x)
            return {"trunc": trunc, "zext": zext, "sext": sext}[v[1]](x, v[4].w)
        if k == "cebin":
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            return {"add": bvadd, "sub": bvsub, "mul": bvmul, "xor": bvxor, "and": bvand, "or": bvor, "shl": shl, "lshr": lshr}[v[1]](a, b)
        if k == "cecmp":
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            if v[2].k == "ptr":
                e = self.ptr_eq(a, b); return e if v[1] == "eq" else not_(e)
        if k == "meta": return None
        raise Unsupported("const " + k)
    def undef(self, ty):
        if ty.k == "int":
            if ty.w == 1:
                _und[0] += 1; return var("undef!%d" % _und[0], "B")
            _und[0] += 1; return var("undef!%d" % _und[0], ty.w)
        if ty.k in ("double", "float"): _und[0] += 1; return var("undef!%d" % _und[0], "R")
        if ty.k == "ptr": return NULL
        if ty.k == "struct": return Agg([self.undef(t) for t in ty.elts])
        if ty.k in ("array", "vec"): return Agg([self.undef(ty.elt) for _ in range(ty.n)])
        if ty.k == "void": return None
        raise Unsupported("undef " + ty.k)
    def zero(self, ty):
        if ty.k == "int": return FALSE if ty.w == 1 else bv(0, ty.w)
        if ty.k in ("double", "float"): return ZERO
        if ty.k == "ptr": return NULL
        if ty.k == "struct": return Agg([self.zero(t) for t in ty.elts])
        if ty.k in ("array", "vec"): return Agg([self.zero(ty.elt) for _ in range(ty.n)])
        raise Unsupported("zero " + ty.k)
    def glob(self, n):
        o = self.globs.get(n)
        if o is None:
            if n not in self.m.globals: raise Unsupported("global " + n)
            kind, t, init = self.m.parse_global(n)
            sz = sizeof(t) if t.k not in ("opaque", "func") else 0
            o = Obj(n, bv(sz, 64), "mem")
            o.extra = (kind, t, init)
            self.globs[n] = o
        return o
    def glob_content(self, o):
        kind, t, init = o.extra
        c = MemC({}, 0, ())
        if init is None: return c
        if init[0] == "zero": return MemC({}, 0, ((0, sizeof(t)),))
        cells = {}
        self.flat(t, self.const_shallow(t, init), 0, cells)
        return MemC(cells, 0, ())
    def const_shallow(self, t, init): return self.const(t, init)
    def flat(self, t, v, off, cells):
        if t.k == "struct":
            for e, o, x in zip(t.elts, offsets(t), v.v): self.flat(e, x, off + o, cells)
        elif t.k in ("array", "vec"):
            s = sizeof(t.elt)
            for i, x in enumerate(v.v): self.flat(t.elt, x, off + i * s, cells)
        else:
            if t.k == "int" and isinstance(v, E) and v.sort == "B": v = ite(v, bv(1, 8), bv(0, 8))
            cells[off] = (sizeof(t), v)
    # ------------------------------------------------------------- memory
    def content(self, st, o):
        c = st.mem.get(o.id)
        if c is None:
            if o.kind == "mem" and o.id and o.extra is not None and isinstance(o.extra, tuple) and len(o.extra) == 3 and o.name in self.globs:
                c = self.glob_content(o)
            else: c = MemC({}, 0, ()) if o.kind == "mem" else None
            st.mem[o.id] = c
        return c
    def own(self, st, o):
        c = self.content(st, o)
        if c.owner != st.tok:
            c = MemC(dict(c.cells), st.tok, c.zero); st.mem[o.id] = c
        return c
    def new_obj(self, st, name, size, kind="mem", init="undef"):
        o = Obj(name, size, kind, init=init)
        if kind == "mem": st.mem[o.id] = MemC({}, st.tok, ((0, size.val),) if init == "zero" and size.op == "c" else ())
        else: st.mem[o.id] = None
        return o
    def const_offs(self, o, f, g):
        """enumerate possible constant offsets of a symbolic offset: list of (cond, off)"""
        if f.op == "c": return [(TRUE, sgn(f.val, 64))]
        out = []
        def rec(e, c):
            if e.op == "c": out.append((c, sgn(e.val, 64))); return True
            if e.op == "ite": return rec(e.args[1], and_(c, e.args[0])) and rec(e.args[2], and_(c, not_(e.args[0])))
            return False
        if rec(f, TRUE) and len(out) <= 64:
            m = {}
            for c, k in out: m[k] = or_(m.get(k, FALSE), c)
            return [(c, k) for k, c in m.items()]
        return None
    def cell_load(self, c, off, ty):
        """c MemC, off int"""
        n = sizeof(ty)
        cell = c.cells.get(off)
        if cell is not None and cell[0] == n: v = cell[1]
        else:
            like = ZERO if ty.k in ("double", "float") else (NULL if ty.k == "ptr" else None)
            v = load_raw(c.cells, c.zero, off, n, like)
        return self.retype(v, ty)
    def retype(self, v, ty):
        if ty.k in ("double", "float"):
            if isinstance(v, RBits): return v.e
            if isinstance(v, E) and v.sort != "R":
                if v.op == "c":
                    import struct
                    if v.sort == 64: return fconst(struct.unpack("<d", struct.pack("<Q", v.val))[0])
                    return fconst(struct.unpack("<f", struct.pack("<I", v.val))[0])
                if v.op == "v" and str(v.val).startswith("undef!"): return var(v.val + "R", "R")
                return X._mk("rf", "R", (v,), "bits2real")
            return v
        if ty.k == "int":
            if isinstance(v, RBits): return v
            if isinstance(v, E):
                if v.sort == "R": return RBits(v)
                if ty.w == 1 and v.sort == 8: return ne(bvand(v, bv(1, 8)), bv(0, 8))
                if v.sort == "B": return ite(v, bv(1, ty.w), bv(0, ty.w)) if ty.w != 1 else v
                if v.sort > ty.w: return trunc(v, ty.w)
                return v
            if isinstance(v, Ptr):
                if ty.w == 64: return PBits(v) if not all(k is None for _, _, _, k in v.alts) or any(o is not None and o.kind != "mem" for _, o, _, _ in v.alts) else self.ptr2int(v)
            return v
        if ty.k == "ptr":
            if isinstance(v, E): 
                if v.op == "v" and str(v.val).startswith("undef!"): return NULL
                return self.int2ptr(v)
            if isinstance(v, PBits): return v.p
            return v
        return v
    def load(self, st, g, p, ty):
        if isinstance(p, E): p = self.int2ptr(p)
        if ty.k == "struct":
            return Agg([self.load(st, g, self.ptr_add(p, bv(o, 64)), t) for t, o in zip(ty.elts, offsets(ty))])
        if ty.k in ("array", "vec"):
            s = sizeof(ty.elt)
            return Agg([self.load(st, g, self.ptr_add(p, bv(i * s, 64)), ty.elt) for i in range(ty.n)])
        res = None
        alts = p.alts
        for c, o, f, k in reversed(alts):
            if o is None:
                cc = and_(g, c)
                if cc is FALSE: continue
                self.oblige("memory", "null dereference", cc, FALSE)
                v = self.undef(ty)
            elif o.kind == "view": v = self.view_load(st, and_(g, c), o, k, f, ty)
            elif o.kind == "fn": raise Unsupported("load from function")
            else: v = self.mem_load(st, and_(g, c), o, f, ty)
            res = v if res is None else vite(c, v, res)
        if res is None: res = self.undef(ty)
        return res
    def mem_load(self, st, g, o, f, ty):
        cnt = self.content(st, o)
        n = sizeof(ty)
        if isinstance(cnt, LogC) or o.kind == "arr": return self.arr_load(st, g, o, f, ty)
        offs = self.const_offs(o, f, g)
        if offs is None:
            offs = self.enum_offs(o, f, n, g)
        r = None
        for c, k in offs:
            gc = and_(g, c)
            if gc is FALSE: continue
            if o.size is not None and o.size.op == "c" and (k < 0 or k + n > o.size.val) and o.size.val > 0:
                self.oblige("memory", "out of bounds read of %s" % o.name, gc, FALSE); continue
            v = self.cell_load(cnt, k, ty)
            if o.size is not None and o.size.op != "c":
                self.oblige("memory", "read of %s in bounds" % o.name, gc, not_(ult(o.size, bv(k + n, 64))))
            r = v if r is None else vite(c, v, r)
        return r if r is not None else self.undef(ty)
    def enum_offs(self, o, f, n, g):
        if o.size is None or o.size.op != "c" or o.size.val > 4096: raise Unsupported("symbolic offset in %s: %s" % (o.name, show(f, 5)))
        sz = o.size.val
        # alignment: offset = k + sum c_i*t_i : stride = gcd of coefs
        from math import gcd
        if f.op == "lin":
            s = 0
            for c in f.val[0]: s = gcd(s, c)
            k0 = f.val[1] % s
        else: s = 1; k0 = 0
        if f.op == "bvmul" or f.op not in ("lin",): s = 1; k0 = 0
        lo, hi = interval(f)
        cands = [k for k in range(k0, sz - n + 1, max(1, s)) if lo <= k <= hi]
        if s == 1: cands = [k for k in cands if k % n == 0]
        if len(cands) > 300: raise Unsupported("too many offsets in " + o.name)
        inb = or_(*[eq(f, bv(k, 64)) for k in cands]) if cands else FALSE
        self.oblige("memory", "index in bounds of %s" % o.name, g, inb)
        return [(eq(f, bv(k, 64)), k) for k in cands]
    def store(self, st, g, p, ty, v):
        if isinstance(p, E): p = self.int2ptr(p)
        if ty.k == "struct":
            for t, o, x in zip(ty.elts, offsets(ty), v.v): self.store(st, g, self.ptr_add(p, bv(o, 64)), t, x)
            return
        if ty.k in ("array", "vec"):
            s = sizeof(ty.elt)
            for i, x in enumerate(v.v): self.store(st, g, self.ptr_add(p, bv(i * s, 64)), ty.elt, x)
            return
        if ty.k == "int" and isinstance(v, E) and v.sort == "B": v = ite(v, bv(1, 8), bv(0, 8))
        single = len(p.alts) == 1
        for c, o, f, k in p.alts:
            if c is FALSE: continue
            if o is None:
                gc = and_(g, c)
                if gc is not FALSE: self.oblige("memory", "null pointer write", gc, FALSE)
                continue
            if o.kind == "view": self.view_store(st, and_(g, c), c, o, k, f, ty, v)
            else: self.mem_store(st, and_(g, c), c, o, f, ty, v)
    def mem_store(self, st, g, c, o, f, ty, v):
        n = sizeof(ty)
        cnt = self.content(st, o)
        if isinstance(cnt, LogC) or o.kind == "arr": return self.arr_store(st, g, c, o, f, ty, v)
        offs = self.const_offs(o, f, g)
        if offs is None: offs = self.enum_offs(o, f, n, g)
        cnt = self.own(st, o)
        for c2, k in offs:
            cc = and_(c, c2)
            if o.size is not None and o.size.op == "c" and (k < 0 or k + n > o.size.val) and o.size.val > 0:
                self.oblige("memory", "out of bounds write of %s" % o.name, and_(g, c2), FALSE); continue
            if o.size is not None and o.size.op != "c":
                self.oblige("memory", "write of %s in bounds" % o.name, and_(g, c2), not_(ult(o.size, bv(k + n, 64))))
            if cc is TRUE: nv = v
            else:
                old = self.retype(load_raw(cnt.cells, cnt.zero, k, n, like=v if isinstance(v, (E, Ptr)) else None), ty)
                nv = vite(cc, v, old)
            self.cell_store(cnt, k, n, nv)
    def cell_store(self, cnt, k, n, v):
        cells = cnt.cells
        old = cells.get(k)
        if old is not None and old[0] == n: cells[k] = (n, v); return
        # remove overlaps
        if old is None or old[0] != n:
            for o in [o for o, (m, _) in cells.items() if o < k + n and k < o + m]:
                m, w = cells.pop(o)
                if o < k:
                    self.split_piece(cells, o, m, w, o, k - o)
                if o + m > k + n:
                    self.split_piece(cells, o, m, w, k + n, o + m - (k + n))
        cells[k] = (n, v)
    def split_piece(self, cells, o, m, w, p, ln):
        if isinstance(w, E) and w.sort not in ("R", "B"):
            q = p
            while ln:
                s = 8
                while s > ln or (q % s): s //= 2
                cells[q] = (s, trunc(lshr(w, bv(8 * (q - o), w.sort)), 8 * s)); q += s; ln -= s
        elif isinstance(w, Ptr) and len(w.alts) == 1 and w.alts[0][1] is None:
            for q in range(p, p + ln): cells[q] = (1, bv(0, 8))
        else:
            for q in range(p, p + ln): cells[q] = (1, undef_for(1))
    # ---- views (index-tuple addressed) and symbolic arrays
    def view_key_ok(self, k):
        return k is not None and all(x is not None and not isinstance(x, tuple) for x in k)
    def view_data(self, o, k, f, g):
        """access through data() of a rank-1 view: the byte offset selects the element"""
        if k is None or len(k) != 1 or k[0] is not None or not o.extra or o.extra.get("rank") != 1: return k, f
        o.elt = o.extra["esize"]
        k2, b = self.arr_key(o, f, None)
        self.oblige("memory", "access through data() of %s in bounds" % o.name, g, ult(k2[0], o.extra["ext"][0]))
        return k2, bv(b, 64)
    def view_load(self, st, g, o, k, f, ty):
        k, f = self.view_data(o, k, f, g)
        if not self.view_key_ok(k): raise Unsupported("load through partial view key of " + o.name)
        if f.op != "c": raise Unsupported("symbolic byte offset in view element")
        return self.log_read(st.mem.get(o.id), o, k, sgn(f.val, 64), ty, g)
    def view_store(self, st, g, c, o, k, f, ty, v):
        k, f = self.view_data(o, k, f, g)
        if not self.view_key_ok(k): raise Unsupported("store through partial view key of " + o.name)
        if f.op != "c": raise Unsupported("symbolic byte offset in view element")
        st.mem[o.id] = LogC(st.mem.get(o.id), (k, sgn(f.val, 64), sizeof(ty), c, v, None))
        if self.par_stack: self.par_stack[-1]["writes"].append((o, k, g))
    def arr_key(self, o, f, ty):
        n = o.elt
        if f.op == "c":
            q, r = divmod(sgn(f.val, 64), n); return (bv(q, 64),), r
        d, k = X._lin(f)
        k = sgn(k, 64)
        if all(sgn(c, 64) % n == 0 for _, c in d.values()):
            e = bv(k // n, 64)
            for t, c in d.values(): e = bvlinop(e, 1, t, sgn(c, 64) // n)
            return (e,), k % n
        raise Unsupported("array offset %s in %s" % (show(f, 4), o.name))
    def arr_load(self, st, g, o, f, ty):
        k, b = self.arr_key(o, f, ty)
        if o.size is not None and g is not FALSE:
            self.oblige("memory", "array %s read in bounds" % o.name, g, ult(bvmul(k[0], bv(o.elt, 64)), o.size))
        return self.log_read(st.mem.get(o.id), o, k, b, ty, g)
    def arr_store(self, st, g, c, o, f, ty, v):
        k, b = self.arr_key(o, f, ty)
        if o.size is not None and g is not FALSE:
            self.oblige("memory", "array %s write in bounds" % o.name, g, ult(bvmul(k[0], bv(o.elt, 64)), o.size))
        st.mem[o.id] = LogC(st.mem.get(o.id), (k, b, sizeof(ty), c, v, None))
        if self.par_stack: self.par_stack[-1]["writes"].append((o, k, g))
    def log_read(self, log, o, k, boff, ty, g=TRUE):
        n = sizeof(ty)
        pend = []
        res = None
        while log is not None:
            ek, eb, en, ec, ev, lam = log.ent
            log_prev = log.prev
            if lam == "fill":
                if boff != 0 or n != en:
                    if isinstance(ev, E) and ev.op == "c" and ev.val == 0: ev = self.zero(ty)
                    else: raise Unsupported("partial read of filled view")
                m = and_(ec, *[eq(x, k[i]) for i, x in ek])
                if m is TRUE: res = ev; break
                if m is not FALSE: pend.append((m, ev))
                log = log_prev; continue
            if lam == "copy":
                so, slog = ev
                v2 = self.log_read(slog, so, k, boff, ty, g)
                if ec is TRUE: res = v2; break
                pend.append((ec, v2)); log = log_prev; continue
            if eb == boff and en == n:
                if lam is None:
                    m = ec
                    for x, y in zip(ek, k):
                        m = and_(m, eq(x, y))
                        if m is FALSE: break
                    val = ev
                else:
                    m, val = self.lam_match(lam, ek, ec, ev, k)
                if m is TRUE: res = val; break
                if m is not FALSE:
                    pend.append((m, val))
            elif not (eb + en <= boff or boff + n <= eb):
                if lam is None:
                    m = ec
                    for x, y in zip(ek, k): m = and_(m, eq(x, y))
                    if m is not FALSE:
                        # overlapping access of different width
                        if eb <= boff and boff + n <= eb + en and isinstance(ev, E) and ev.sort not in ("R", "B"):
                            val = trunc(lshr(ev, bv(8 * (boff - eb), ev.sort)), 8 * n)
                            if m is TRUE: res = val; break
                            pend.append((m, val))
                        else:
                            parts = []
                            # compose from bytes
                            raise Unsupported("overlapping view access in %s" % o.name)
            log = log_prev
        if res is None:
            res = self.initial(o, k, boff, ty)
        for m, v in reversed(pend):
            v = self.retype(v, ty); res = self.retype(res, ty)
            res = vite(m, v, res)
        return self.retype(res, ty)
    def lam_match(self, lam, ek, ec, ev, k):
        """lam: ((binder, n), ...). find the iteration(s) writing key k by solving ek == k for the binders"""
        left = [b for b, n in lam]
        m = {}
        while left:
            prog = False
            for b in list(left):
                others = [x for x in left if x is not b]
                for x, y in zip(ek, k):
                    if not has(x, b) or any(has(x, o) for o in others): continue
                    x2 = subst([x], m)[0] if m else x
                    s = solve_for(x2, b, y)
                    if s is not None:
                        m[b.id] = s; left.remove(b); prog = True; break
            if not prog:
                if len(left) == 1: return self.lam_witness(lam, ek, ec, ev, k, left[0], m)
                raise Unsupported("parallel write at a key that does not determine the iteration index")
        ek2 = subst(list(ek), m)
        cond = subst([ec], m)[0]
        for b, n in lam: cond = and_(cond, ult(m[b.id], subst([n], m)[0]))
        for x, y in zip(ek2, k): cond = and_(cond, eq(x, y))
        if cond is FALSE: return FALSE, ev
        return cond, subst_val(ev, m)
    def lam_witness(self, lam, ek, ec, ev, k, b, m):
        """key not linear in the iteration index: a witness iteration w writes k iff the fresh boolean says so; the iterations named
        by the components of the key are instantiated as candidates"""
        n = dict((x.id, y) for x, y in lam)[b.id]
        if b.id in m or len(lam) != 1: raise Unsupported("parallel write at a key that does not determine the iteration index")
        w = fresh("wit", b.sort); hit = fresh("hit", 8); hb = eq(hit, bv(1, 8))
        def cond_at(x):
            mm = {b.id: x}
            c = and_(subst([ec], mm)[0], ult(x, subst([n], mm)[0]))
            for p, q in zip(subst(list(ek), mm), k): c = and_(c, eq(p, q))
            return c
        self.assumes.append(or_(not_(hb), cond_at(w)))
        for q in k:
            if q.sort == "R": continue
            q2 = q if q.sort == b.sort else zext(q, b.sort) if q.sort < b.sort else trunc(q, b.sort)
            self.assumes.append(or_(not_(cond_at(q2)), hb))
        return hb, subst_val(ev, {b.id: w})
    def initial(self, o, k, boff, ty):
        if o.init == "zero": return self.zero(ty)
        if o.init == "undef":
            return self.undef(ty)
        if isinstance(o.init, tuple):
            kind, name = o.init[0], o.init[1]
            if kind == "uf":
                nm = name if boff == 0 else "%s+%d" % (name, boff)
                so = "R" if ty.k in ("double", "float") else (ty.w if ty.k == "int" else None)
                if so is None: raise Unsupported("initial pointer content of view")
                if so == 1: so = 8
                r = uf(nm, so, k)
                if len(o.init) > 2 and o.init[2] is not None and so != "R":
                    lo, hi = o.init[2]
                    r._iv = (lo, hi)
                    key = ("ivass", r.id)
                    if key not in self.notes:
                        self.notes.add(key)
                        self.assumes.append(and_(not_(X._mk("ult", "B", (r, bv(lo, so)))) if lo else TRUE, not_(X._mk("ult", "B", (bv(hi, so), r)))))
                self.uf_inputs[nm] = (o, boff, ty)
                return r
            if kind == "fn": return o.init[1](self, o, k, boff, ty)
        raise Unsupported("initial")
    # ------------------------------------------------------------- gep
    def gep(self, t, p, idx):
        off = Z64
        first = True
        cur = t
        for (ity, iv) in idx:
            if isinstance(iv, E) and iv.sort == "B": iv = ite(iv, bv(1, 8), bv(0, 8))
            if first:
                off = bvadd(off, bvmul(sext(iv, 64), bv(sizeof(cur), 64))); first = False
            elif cur.k == "struct":
                i = iv.val
                off = bvadd(off, bv(offsets(cur)[i], 64)); cur = cur.elts[i]
            else:
                off = bvadd(off, bvmul(sext(iv, 64), bv(sizeof(cur.elt), 64))); cur = cur.elt
        return self.ptr_add(p, off)
    # ------------------------------------------------------------- functions
    def call(self, name, args, g, st, ins=None):
        """returns (value, guard, state); guard may shrink"""
        import intrin
        h = intrin.lookup(self, name)
        if h is not None:
            self.cur_state = st; self.cur_guard = g
            r = h(self, st, g, args, ins)
            if isinstance(r, intrin.Ret): return r.v, r.g, r.st
            return r, g, st
        rep = self._rep_cache.get(name, 0)
        if rep == 0:
            rep = None
            d = self.m.dem.get(name, name)
            for rx, target in self.replaced:
                if rx.search(d): rep = target; break
            self._rep_cache[name] = rep
        if rep is not None and name != rep:
            self.called.setdefault("contract:" + self.m.dem.get(name, name), 0)
            name = rep
        f = self.m.func(name)
        if f is None or f.blocks is None:
            return self.call_external(name, args, g, st, ins)
        return self.run_func(f, args, g, st)
    def call_external(self, name, args, g, st, ins):
        d = self.m.dem.get(name, name)
        raise Unsupported("external function " + d)
    def run_func(self, f, args, g, st):
        if self.depth > 200: raise Unsupported("recursion depth in " + f.name)
        self.called[self.m.dem.get(f.name, f.name)] = self.called.get(self.m.dem.get(f.name, f.name), 0) + 1
        self.depth += 1
        self.stack.append(self.m.dem.get(f.name, f.name))
        env = {}
        for (t, n, byval), a in zip(f.params, args):
            if byval is not None:
                o = self.new_obj(st, n, bv(sizeof(byval), 64))
                v = self.copy_bytes(st, g, mkptr(o), a, sizeof(byval))
                a = mkptr(o)
            env[n] = a
        act = Act(f, env)
        act.pending[f.entry.name] = [(g, st, {})]
        rets = act.rets
        self.run_region(act, [n for n in f.rpo], None)
        self.depth -= 1
        self.stack.pop()
        if not rets: return None, FALSE, st
        rv = None
        gg, ss = merge_states([(x[0], x[1]) for x in rets])
        val = None
        for (rg, rs, v) in rets:
            if val is None: val = (rg, v); continue
            c = rel_cond(rg, val[0]); c2 = rel_cond(val[0], rg)
            if c is TRUE and c2 is not TRUE: c = not_(c2)
            val = (or_(val[0], rg), vite(c, v, val[1]) if v is not None else None)
        # drop stack objects of this activation
        for oid in act.allocas: ss.mem.pop(oid, None)
        return val[1], gg, ss
    def doomed(self, f):
        if hasattr(f, "_doomed"): return f._doomed
        ok = set()
        ch = True
        blocks = f.blocks
        for n in f.rpo:
            if blocks[n].term.op in ("ret",): ok.add(n)
        while ch:
            ch = False
            for n in reversed(f.rpo):
                if n not in ok and any(s in ok for s in blocks[n].succs): ok.add(n); ch = True
        # infinite loops are not doomed; only blocks that necessarily reach unreachable
        f._doomed = set(n for n in f.rpo if n not in ok)
        return f._doomed
    def run_region(self, act, order, header):
        """process blocks in order (rpo). header: None for function level, or loop header name."""
        f = act.f
        done = set()
        for n in order:
            if n in done: continue
            if n != header and n in f.loops:
                body = f.loops[n]
                done |= body
                self.run_loop(act, n, [x for x in order if x in body])
                continue
            inc = act.pending.pop(n, None)
            if not inc: continue
            self.run_block(act, n, inc)
    def run_loop(self, act, h, order):
        inc = act.pending.pop(h, None)
        if not inc: return
        it = 0
        while True:
            act.pending[h] = inc
            act.loop_back.append((h, []))
            n0 = sum(len(v) for k, v in act.pending.items() if k != h)
            self.run_region(act, order, h)
            left = sum(len(v) for v in act.pending.values()) != n0   # some path may have left the loop in this iteration
            _, back = act.loop_back.pop()
            back = [b for b in back if b[0] is not FALSE]
            if not back: break
            it += 1
            g = or_(*[b[0] for b in back])
            if it >= 1 and g is not TRUE and left:
                if it >= self.unwind or (it > 2):
                    back = [b for b in back if self.feasible(b[0])]
                    if not back: break
            if it >= self.unwind and not (g is TRUE and it < 5000):
                self.bounded.append((self.stack[-1], h, it))
                self.oblige("unwind", "loop in %s closes within %d iterations" % (self.stack[-1], it), g, FALSE)
                for b in back: self.assume(b[0], FALSE)
                break
            inc = back
    def run_block(self, act, n, inc):
        f = act.f
        blk = f.blocks[n]
        g, st = merge_states([(e[0], e[1]) for e in inc])
        if g is FALSE: return
        # phis
        if blk.phis:
            live = [e for e in inc if e[0] is not FALSE]
            vals = {}
            for ph in blk.phis:
                acc = None; ag = None
                for (eg, es, pv) in live:
                    v = pv[ph.res]
                    if acc is None: acc, ag = v, eg
                    else:
                        if acc is v: ag = or_(ag, eg); continue
                        c = rel_cond(eg, ag); c2 = rel_cond(ag, eg)
                        if c is TRUE and c2 is not TRUE: c = not_(c2)
                        acc = vite(c, v, acc); ag = or_(ag, eg)
                vals[ph.res] = acc
            act.env.update(vals)
        if len(inc) > 1 or True: st = st.fork() if len([e for e in inc]) > 1 else st
        if n in self.doomed(f):
            self.dead_end(act, blk, g, st); return
        for ins in blk.ins:
            self.steps += 1
            r = self.instr(act, ins, g, st)
            if r is not None:
                g, st = r
                if g is FALSE: return
        self.terminate(act, blk, g, st)
    def dead_end(self, act, blk, g, st):
        """block from which the function cannot return: throw / abort / unreachable"""
        f = act.f
        msg = None; seen = set(); stk = [blk.name]
        while stk and msg is None:
            b = f.blocks[stk.pop()]
            if b.name in seen: continue
            seen.add(b.name)
            for ins in b.ins:
                if ins.op in ("call", "invoke"):
                    cal = ins.x["callee"]
                    nm = cal[1] if cal[0] == "g" else ""
                    if nm == "__vc_abort": msg = "abort: " + self.cstr(st, self.val(act, *ins.a[0])); break
                    if nm in ("__assert_fail",): msg = "assert: " + self.cstr(st, self.val(act, *ins.a[0])); break
                    if nm.startswith("_ZSt") and "throw" in nm: msg = "throw " + self.m.dem.get(nm, nm)
                    if nm == "__cxa_throw": msg = "throw in " + self.stack[-1].split("(")[0]; break
            stk.extend(b.succs)
        if msg is None:
            # a callee may be the one that does not return (e.g. abort wrapper): execute it
            msg = "unreachable in " + self.stack[-1].split("(")[0]
        self.dead(g, st, msg)
    def dead(self, g, st, msg):
        self.throws.append((g, msg, len(self.assumes)))
        if not self.opts.get("allow_throw"):
            self.oblige("abort", msg, g, FALSE)
    def edge(self, act, src, dst, g, st):
        if g is FALSE: return
        f = act.f
        blk = f.blocks[dst]
        pv = {}
        for ph in blk.phis:
            for v, l in ph.x:
                if l == src:
                    pv[ph.res] = self.val(act, ph.ty, v); break
        ent = (g, st, pv)
        for i in range(len(act.loop_back) - 1, -1, -1):
            if act.loop_back[i][0] == dst and src in f.loops[dst]:
                act.loop_back[i][1].append(ent); return
        act.pending.setdefault(dst, []).append(ent)
    def terminate(self, act, blk, g, st):
        t = blk.term
        if t.op == "br":
            if len(t.x) == 1: self.edge(act, blk.name, t.x[0], g, st); return
            c = self.val(act, *t.a[0])
            if t.x[0] == t.x[1]: self.edge(act, blk.name, t.x[0], g, st); return
            gt = and_(g, c); gf = and_(g, not_(c))
            if gt is not FALSE and gf is not FALSE:
                st2 = st.fork()
                self.edge(act, blk.name, t.x[0], gt, st)
                self.edge(act, blk.name, t.x[1], gf, st2)
            elif gt is not FALSE: self.edge(act, blk.name, t.x[0], gt, st)
            elif gf is not FALSE: self.edge(act, blk.name, t.x[1], gf, st)
        elif t.op == "switch":
            v = self.val(act, *t.a[0])
            rest = g; dests = {}
            for (ty, cv), l in t.x[1]:
                k = self.const(ty, cv)
                e = eq(v, k)
                dests[l] = or_(dests.get(l, FALSE), and_(g, e)); rest = and_(rest, not_(e))
            dests[t.x[0]] = or_(dests.get(t.x[0], FALSE), rest)
            for l, gg in dests.items():
                if gg is not FALSE: self.edge(act, blk.name, l, gg, st.fork())
        elif t.op == "ret":
            v = self.val(act, *t.a[0]) if t.a else None
            act.rets.append((g, st, v))
        elif t.op == "invoke":
            self.edge(act, blk.name, t.x["normal"], g, st)
        elif t.op in ("unreachable", "resume"):
            self.dead(g, st, "unreachable in " + self.stack[-1].split("(")[0])
    # ------------------------------------------------------------- values
    def val(self, act, ty, v):
        if v[0] == "l":
            try: return act.env[v[1]]
            except KeyError: raise VCError("undefined register %%%s in %s" % (v[1], act.f.name))
        if v[0] == "i": return bv(v[1], v[2]) if v[2] != 1 else boolc(v[1] & 1)
        return self.const(ty, v)
    def cstr(self, st, p):
        c, o, f, k = p.alts[0]
        cnt = self.content(st, o)
        s = b""; i = f.val
        while True:
            v = load_raw(cnt.cells, cnt.zero, i, 1)
            if v.op != "c" or v.val == 0: break
            s += bytes([v.val]); i += 1
        return s.decode("latin1")
    # ------------------------------------------------------------- instructions
    def instr(self, act, ins, g, st):
        op = ins.op; env = act.env
        if op in ("call", "invoke"): return self.do_call(act, ins, g, st)
        a = [self.val(act, t, v) for t, v in ins.a] if op not in ("phi",) else None
        if op in BIN:
            x, y = a
            if ins.ty.k == "vec":
                env[ins.res] = Agg([self.binop(op, p, q, ins, g, ins.ty.elt) for p, q in zip(x.v, y.v)]); return
            env[ins.res] = self.binop(op, x, y, ins, g, ins.ty); return
        if op == "icmp":
            t = ins.a[0][0]
            if t.k == "vec":
                env[ins.res] = Agg([self.icmp(ins.x, p, q, t.elt) for p, q in zip(a[0].v, a[1].v)]); return
            env[ins.res] = self.icmp(ins.x, a[0], a[1], t); return
        if op == "fcmp":
            x, y = a; c = ins.x
            if isinstance(x, Agg):
                env[ins.res] = Agg([self.fcmp(c, p, q) for p, q in zip(x.v, y.v)]); return
            env[ins.res] = self.fcmp(c, x, y); return
        if op == "load":
            env[ins.res] = self.load(st, g, a[0], ins.ty); return
        if op == "store":
            self.store(st, g, a[1], ins.a[0][0], a[0]); return
        if op == "getelementptr":
            env[ins.res] = self.gep(ins.x, a[0], [(t, v) for (t, _), v in zip(ins.a[1:], a[1:])]); return
        if op == "alloca":
            t = ins.x
            n = sizeof(t)
            sz = bv(n, 64)
            if a: sz = bvmul(zext(a[0], 64), sz)
            o = self.new_obj(st, ins.res, sz)
            if sz.op != "c":
                o.kind = "mem"; st.mem[o.id] = None; o.kind = "arr"; o.elt = n
            act.allocas.append(o.id)
            env[ins.res] = mkptr(o); return
        if op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "addrspacecast", "freeze"):
            x = a[0]; t = ins.ty
            if isinstance(x, Agg) and t.k == "vec" and t.n == len(x.v):
                env[ins.res] = Agg([self.cast(op, y, ins.a[0][0].elt, t.elt, g) for y in x.v]); return
            env[ins.res] = self.cast(op, x, ins.a[0][0], t, g); return
        if op == "select":
            if isinstance(a[0], Agg): env[ins.res] = Agg([vite(c, x, y) for c, x, y in zip(a[0].v, a[1].v, a[2].v)]); return
            env[ins.res] = vite(a[0], a[1], a[2]); return
        if op == "fneg":
            env[ins.res] = Agg([rneg(x) for x in a[0].v]) if isinstance(a[0], Agg) else rneg(a[0]); return
        if op == "extractvalue":
            v = a[0]
            for i in ins.x: v = v.v[i]
            env[ins.res] = v; return
        if op == "insertvalue":
            env[ins.res] = self.insv(a[0], ins.x, a[1]); return
        if op == "extractelement":
            i = a[1]
            if i.op == "c": env[ins.res] = a[0].v[i.val]
            else:
                r = a[0].v[0]
                for j in range(1, len(a[0].v)): r = vite(eq(i, bv(j, i.sort)), a[0].v[j], r)
                env[ins.res] = r
            return
        if op == "insertelement":
            v = list(a[0].v); v[a[2].val] = a[1]; env[ins.res] = Agg(v); return
        if op == "shufflevector":
            src = a[0].v + a[1].v
            env[ins.res] = Agg([src[m.val] if m.op == "c" else src[0] for m in a[2].v]); return
        if op == "atomicrmw":
            old = self.load(st, g, a[0], ins.ty)
            o = ins.x; v = a[1]
            new = {"add": lambda: bvadd(old, v), "sub": lambda: bvsub(old, v), "xchg": lambda: v, "or": lambda: bvor(old, v), "and": lambda: bvand(old, v),
                   "xor": lambda: bvxor(old, v),
                   "max": lambda: ite(slt(old, v), v, old), "min": lambda: ite(slt(v, old), v, old), "umax": lambda: ite(ult(old, v), v, old),
                   "umin": lambda: ite(ult(v, old), v, old), "fadd": lambda: radd(old, v)}[o]()
            self.store(st, g, a[0], ins.ty, new); env[ins.res] = old; return
        if op == "cmpxchg":
            old = self.load(st, g, a[0], ins.a[1][0])
            ok = eq(old, a[1]) if isinstance(old, E) else self.ptr_eq(old, a[1])
            self.store(st, g, a[0], ins.a[1][0], vite(ok, a[2], old)); env[ins.res] = Agg([old, ok]); return
        if op == "landingpad": env[ins.res] = Agg([NULL, bv(0, 32)]); return
        raise Unsupported("instruction " + op)
    def insv(self, agg, idx, v):
        l = list(agg.v)
        l[idx[0]] = v if len(idx) == 1 else self.insv(l[idx[0]], idx[1:], v)
        return Agg(l)
    def icmp(self, c, x, y, t):
        if isinstance(x, (Ptr, PBits)) or isinstance(y, (Ptr, PBits)):
            if isinstance(x, PBits): x = x.p
            if isinstance(y, PBits): y = y.p
            if isinstance(x, E): x = self.int2ptr(x)
            if isinstance(y, E): y = self.int2ptr(y)
            if c in ("eq", "ne"):
                e = self.ptr_eq(x, y); return e if c == "eq" else not_(e)
            x = self.ptr2int(x); y = self.ptr2int(y)
            # same object: compare offsets
            d = bvsub(x, y)
            if d.op == "c":
                s = sgn(d.val, 64)
                return boolc({"ult": s < 0, "ule": s <= 0, "ugt": s > 0, "uge": s >= 0, "slt": s < 0, "sle": s <= 0, "sgt": s > 0, "sge": s >= 0}[c])
        if isinstance(x, RBits) or isinstance(y, RBits): raise Unsupported("icmp on float bits")
        if x.sort == "B":
            if c == "eq": return eq(x, y)
            if c == "ne": return not_(eq(x, y))
            x = ite(x, bv(1, 1), bv(0, 1)); y = ite(y, bv(1, 1), bv(0, 1))
        return {"eq": lambda: eq(x, y), "ne": lambda: ne(x, y), "ult": lambda: ult(x, y), "ule": lambda: ule(x, y), "ugt": lambda: ult(y, x),
                "uge": lambda: ule(y, x), "slt": lambda: slt(x, y), "sle": lambda: sle(x, y), "sgt": lambda: slt(y, x), "sge": lambda: sle(y, x)}[c]()
    def fcmp(self, c, x, y):
        # NaN is outside the model: ordered and unordered comparisons coincide
        if c in ("true", "ord"): return TRUE
        if c in ("false", "uno"): return FALSE
        k = c[1:]
        return {"eq": lambda: eq(x, y), "ne": lambda: ne(x, y), "lt": lambda: rlt(x, y), "le": lambda: rle(x, y), "gt": lambda: rlt(y, x), "ge": lambda: rle(y, x)}[k]()
    def cast(self, op, x, t0, t, g):
        if op == "freeze": return x
        if op in ("trunc", "zext", "sext"):
            if isinstance(x, (RBits, PBits)): raise Unsupported("int cast of float bits")
            if x.sort == "B":
                if t.w == 1: return x
                return ite(x, bv(1 if op == "zext" else -1, t.w), bv(0, t.w))
            if op == "trunc":
                if t.w == 1: return ne(bvand(x, bv(1, x.sort)), bv(0, x.sort))
                return trunc(x, t.w)
            return (zext if op == "zext" else sext)(x, t.w)
        if op == "ptrtoint":
            return trunc(self.ptr2int(x), t.w)
        if op == "inttoptr": return self.int2ptr(x)
        if op in ("bitcast", "addrspacecast"):
            if t.k in ("double",) and not isinstance(x, Agg): return self.retype(x, t)
            if t.k == "int" and isinstance(x, E) and x.sort == "R": return RBits(x)
            return x
        if op in ("fpext", "fptrunc"): return x
        if op == "sitofp": return toreal(x, True)
        if op == "uitofp": return toreal(x, False)
        if op in ("fptosi", "fptoui"):
            sg = op == "fptosi"
            import intrin; r = intrin.fromreal2(self, x, t.w, sg)
            if x.op != "c":
                lo = -(1 << (t.w - 1)) - 1 if sg else -1
                hi = (1 << (t.w - 1)) if sg else (1 << t.w)
                if self.opts.get("check_f2i", True):
                    self.oblige("f2i", "float to integer conversion in range", g, and_(rlt(real(lo), x), rlt(x, real(hi))))
            return r
        raise Unsupported(op)
    def binop(self, op, x, y, ins, g, ty):
        if op[0] == "f":
            if op == "fadd": return radd(x, y)
            if op == "fsub": return rsub(x, y)
            if op == "fmul": return rmul(x, y)
            if op == "fdiv":
                if self.opts.get("check_div") : self.oblige("div", "floating division by zero", g, not_(eq(y, ZERO)))
                return rdiv(x, y)
            if op == "frem": return rfun("fmod", x, y)
        if isinstance(x, (PBits, RBits)) or isinstance(y, (PBits, RBits)):
            if isinstance(x, PBits): x = self.ptr2int(x.p)
            if isinstance(y, PBits): y = self.ptr2int(y.p)
            if isinstance(x, RBits) and op == "and" and y.op == "c" and y.val == (1 << 63) - 1: return RBits(rabs(x.e))
            if isinstance(x, RBits) and op == "xor" and y.op == "c" and y.val == (1 << 63): return RBits(rneg(x.e))
            if isinstance(x, RBits) or isinstance(y, RBits): raise Unsupported("int op on float bits")
        if x.sort == "B":
            if op == "and": return and_(x, y)
            if op == "or": return or_(x, y)
            if op in ("xor", "add", "sub"): return not_(eq(x, y))
            if op == "mul": return and_(x, y)
            raise Unsupported("i1 " + op)
        w = x.sort
        if op == "add": r = bvadd(x, y)
        elif op == "sub": r = bvsub(x, y)
        elif op == "mul": r = bvmul(x, y)
        elif op in ("udiv", "urem", "sdiv", "srem"):
            if not (y.op == "c" and y.val): self.oblige("div", "integer division by zero in " + self.stack[-1].split("(")[0], g, ne(y, bv(0, w)))
            if op == "sdiv" and "exact" in ins.x and y.op == "c" and y.val & (y.val - 1) == 0 and x.op == "lin":
                if all(sgn(c, w) % y.val == 0 for c in x.val[0]) and sgn(x.val[1], w) % y.val == 0:
                    return X._mklin({t.id: (t, sgn(c, w) // y.val) for t, c in zip(x.args, x.val[0])}, sgn(x.val[1], w) // y.val, w)
            r = {"udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op](x, y)
        elif op == "and": r = bvand(x, y)
        elif op == "or":
            r = bvadd(x, y) if "disjoint" in ins.x and (x.op != "c" and y.op != "c") and self.disjoint(x, y) else bvor(x, y)
        elif op == "xor": r = bvxor(x, y)
        elif op in ("shl", "lshr", "ashr"):
            if y.op != "c" and interval(y)[1] >= w:
                self.oblige("shift", "shift amount below width in " + self.stack[-1].split("(")[0], g, ult(y, bv(w, w)))
            if op == "ashr" and "exact" in ins.x and y.op == "c" and x.op == "lin":
                k = 1 << y.val
                if all(sgn(c, w) % k == 0 for c in x.val[0]) and sgn(x.val[1], w) % k == 0:
                    return X._mklin({t.id: (t, sgn(c, w) // k) for t, c in zip(x.args, x.val[0])}, sgn(x.val[1], w) // k, w)
            r = {"shl": shl, "lshr": lshr, "ashr": ashr}[op](x, y)
        if self.check_ub and "nsw" in (ins.x or ()) and op in ("add", "sub", "mul"):
            ex = w + (w if op == "mul" else 1)
            f = {"add": bvadd, "sub": bvsub, "mul": bvmul}[op]
            wide = f(sext(x, ex), sext(y, ex))
            cond = eq(wide, sext(r, ex))
            if cond is not TRUE: self.oblige("overflow", "signed overflow in " + self.stack[-1].split("(")[0], g, cond)
        return r
    def disjoint(self, x, y): return False
    # ------------------------------------------------------------- calls
    def do_call(self, act, ins, g, st):
        cal = ins.x["callee"]
        args = [self.val(act, t, v) if t.k != "metadata" else None for t, v in ins.a]
        if cal[0] == "asm": return
        if cal[0] == "g":
            name = self.m.resolve_alias(cal[1])
            if name.startswith("llvm."):
                import intrin
                r = intrin.llvm(self, st, g, name, args, ins)
                if ins.res is not None: act.env[ins.res] = r
                return
            v, g2, s2 = self.call(name, args, g, st, ins)
            if ins.res is not None: act.env[ins.res] = v
            return (g2, s2)
        p = self.val(act, ir.PTR, cal)
        alts = [(c, o) for c, o, f, k in p.alts if c is not FALSE and o is not None]
        if not alts: raise Unsupported("call through null")
        outs = []
        for c, o in alts:
            if o.kind != "fn": raise Unsupported("indirect call to " + o.name)
            gc = and_(g, c)
            if gc is FALSE: continue
            v, g2, s2 = self.call(o.fn, args, gc, st.fork() if len(alts) > 1 else st, ins)
            if g2 is not FALSE: outs.append((g2, s2, v))
        if not outs: return (FALSE, st)
        gg, ss = merge_states([(x[0], x[1]) for x in outs])
        val = outs[0][2]; ag = outs[0][0]
        for (g2, s2, v) in outs[1:]:
            c = rel_cond(g2, ag)
            val = vite(c, v, val) if v is not None else None; ag = or_(ag, g2)
        if ins.res is not None: act.env[ins.res] = val
        return (gg, ss)
    # memory block operations -------------------------------------------------
    def copy_bytes(self, st, g, d, s, n):
        """constant-size memcpy"""
        if n == 0: return
        if isinstance(d, E): d = self.int2ptr(d)
        if isinstance(s, E): s = self.int2ptr(s)
        sc = [x for x in s.alts if x[0] is not FALSE]
        dc = [x for x in d.alts if x[0] is not FALSE]
        cells = None
        def read_cells(c, o, f, k):
            if o is None: return {}
            if o.kind == "view":
                # collect the byte layout used for this view by the type of the copy: element cells
                lay = self.view_layout(st, o)
                return {b - sgn(f.val, 64): (m, self.log_read(st.mem.get(o.id), o, k, b, t, g)) for b, m, t in lay if sgn(f.val, 64) <= b < sgn(f.val, 64) + n}
            if o.kind == "arr":
                kk, r0 = self.arr_key(o, f, None)
                lay = self.view_layout(st, o)
                out = {}
                es = o.elt
                for i in range(0, n, es):
                    for b, m, t in lay:
                        key = (bvadd(kk[0], bv((r0 + i) // es, 64)),)
                        out[i + b] = (m, self.log_read(st.mem.get(o.id), o, key, b, t, g))
                return {q: w for q, w in out.items() if q < n}
            cnt = self.content(st, o)
            if f.op != "c": raise Unsupported("memcpy from symbolic offset")
            f0 = sgn(f.val, 64)
            out = {}
            for q, (m, v) in cnt.cells.items():
                if f0 <= q and q + m <= f0 + n: out[q - f0] = (m, v)
                elif q < f0 + n and f0 < q + m:
                    for b in range(max(q, f0), min(q + m, f0 + n)):
                        out[b - f0] = (1, load_raw(cnt.cells, cnt.zero, b, 1))
            # zero ranges
            if cnt.zero:
                covered = set()
                for q, (m, v) in out.items(): covered.update(range(q, q + m))
                for a, b in cnt.zero:
                    lo, hi = max(a, f0) - f0, min(b, f0 + n) - f0
                    p = lo
                    while p < hi:
                        if p in covered: p += 1; continue
                        step = 1
                        if p % 8 == 0 and p + 8 <= hi and not any(t in covered for t in range(p, p + 8)): step = 8
                        out[p] = (step, bv(0, 8 * step)); p += step
            return out
        for c, o, f, k in sc:
            cl = read_cells(c, o, f, k)
            if cells is None: cells = (c, cl)
            else:
                m = merge_content(cells[0] if len(sc) == 2 else cells[0], MemC(cells[1], 0), MemC(cl, 0), TRUE, TRUE)
                cells = (or_(cells[0], c), m.cells)
        cl = cells[1] if cells else {}
        for c, o, f, k in dc:
            if o is None:
                gc = and_(g, c)
                if gc is not FALSE: self.oblige("memory", "memcpy to null", gc, FALSE)
                continue
            if o.kind in ("view", "arr"):
                for q, (m, v) in sorted(cl.items()):
                    ty = self.guess_ty(m, v)
                    (self.view_store(st, and_(g, c), c, o, k, bvadd(f, bv(q, 64)), ty, v) if o.kind == "view"
                     else self.arr_store(st, and_(g, c), c, o, bvadd(f, bv(q, 64)), ty, v))
                continue
            cnt = self.own(st, o)
            if f.op != "c": raise Unsupported("memcpy to symbolic offset")
            f0 = sgn(f.val, 64)
            if o.size is not None and o.size.op == "c" and (f0 < 0 or f0 + n > o.size.val):
                self.oblige("memory", "memcpy out of bounds of " + o.name, and_(g, c), FALSE); continue
            if c is TRUE:
                # clear destination
                for q in [q for q, (m, _) in cnt.cells.items() if q < f0 + n and f0 < q + m]:
                    m, w = cnt.cells.pop(q)
                    if q < f0: self.split_piece(cnt.cells, q, m, w, q, f0 - q)
                    if q + m > f0 + n: self.split_piece(cnt.cells, q, m, w, f0 + n, q + m - f0 - n)
                cnt.zero = tuple(z for a, b in cnt.zero for z in ((a, min(b, f0)), (max(a, f0 + n), b)) if z[0] < z[1])
                for q, (m, v) in cl.items(): cnt.cells[f0 + q] = (m, v)
            else:
                for q, (m, v) in cl.items():
                    old = load_raw(cnt.cells, cnt.zero, f0 + q, m, like=v if isinstance(v, (E, Ptr)) else None)
                    self.cell_store(cnt, f0 + q, m, merge_val(c, v, old, m))
    def guess_ty(self, m, v):
        if isinstance(v, Ptr): return ir.PTR
        if isinstance(v, E) and v.sort == "R": return ir.DOUBLE if m == 8 else ir.FLOAT
        return ir.INT(8 * m)
    def view_layout(self, st, o):
        """byte layout [(off, n, type)] of one element: declared at creation or inferred from writes"""
        if o.extra and isinstance(o.extra, dict) and o.extra.get("layout"): return o.extra["layout"]
        lay = {}
        log = st.mem.get(o.id)
        while log is not None:
            k, b, n, c, v, lam = log.ent
            if lam in ("fill", "copy"): log = log.prev; continue
            lay[b] = (b, n, self.guess_ty(n, v)); log = log.prev
        if not lay:
            n = getattr(o, "elt", None)
            if o.extra and isinstance(o.extra, dict) and "esize" in o.extra: n = o.extra["esize"]
            if n == 8: return [(0, 8, ir.DOUBLE)]
            raise Unsupported("unknown element layout of " + o.name)
        return sorted(lay.values(), key=lambda x: x[0])

class Act:
    __slots__ = ("f", "env", "pending", "rets", "loop_back", "allocas")
    def __init__(self, f, env): self.f = f; self.env = env; self.pending = {}; self.rets = []; self.loop_back = []; self.allocas = []

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "fadd", "fsub", "fmul", "fdiv", "frem"}

def fconst(d):
    if d != d: return var("nan!", "R")
    if d == float("inf"): return var("inf!", "R")
    if d == float("-inf"): return rneg(var("inf!", "R"))
    return real(d)

def solve_for(x, b, y):
    """find e such that x[b:=e] == y when x is b, b+k, zext/sext/trunc of b"""
    if x is b: return zext(y, b.sort) if y.sort < b.sort else trunc(y, b.sort) if y.sort > b.sort else y
    if x.op in ("zext", "sext") and not has(y, b): return solve_for(x.args[0], b, trunc(y, x.args[0].sort))
    if x.op == "trunc" and x.args[0] is b: return zext(y, b.sort)
    if x.op == "trunc": return solve_for(x.args[0], b, zext(y, x.args[0].sort))
    if x.op == "lin" and len(x.args) >= 1:
        # one term contains b with coef 1
        hit = [(t, c) for t, c in zip(x.args, x.val[0]) if has(t, b)]
        if len(hit) == 1 and hit[0][1] == 1:
            rest = bvsub(x, hit[0][0])
            return solve_for(hit[0][0], b, bvsub(y, rest))
    return None
_has = {}
def has(e, b):
    k = (e.id, b.id)
    r = _has.get(k)
    if r is None:
        r = e is b or any(has(a, b) for a in e.args); _has[k] = r
    return r
def subst_val(v, m):
    if isinstance(v, E): return subst([v], m)[0]
    if isinstance(v, Ptr): return Ptr([(subst([c], m)[0], o, subst([f], m)[0], k if k is None else tuple(None if x is None else ('o',) + tuple(subst(list(x[1:]), m)) if isinstance(x, tuple) else subst([x], m)[0] for x in k)) for c, o, f, k in v.alts])
    if isinstance(v, Agg): return Agg([subst_val(x, m) for x in v.v])
    if isinstance(v, RBits): return RBits(subst([v.e], m)[0])
    return v
