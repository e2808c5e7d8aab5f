"""Models of intrinsics, the C/C++ runtime, the contract API and the Kokkos shim primitives."""
import re, math
from fractions import Fraction
from expr import *
import expr as X
import ir
import exec as XE
from exec import Ptr, Agg, Obj, MemC, LogC, State, mkptr, NULL, Unsupported, VCError, merge_states, RBits, PBits, vite, Z64

class Ret:
    __slots__ = ("v", "g", "st")
    def __init__(self, v, g, st): self.v = v; self.g = g; self.st = st

def cval(e, what="constant"):
    if not isinstance(e, E) or e.op != "c": raise Unsupported("non-constant " + what)
    return e.val

def name_k(ex, n):
    k = ex.anycount.get(n, 0); ex.anycount[n] = k + 1
    return n if k == 0 else "%s#%d" % (n, k)

# ------------------------------------------------------------------ contract API
def vc_uint(ex, st, g, a, ins):
    n = name_k(ex, ex.cstr(st, a[0])); w = cval(a[1])
    lo, hi = a[2], a[3]
    if lo.op == "c" and hi.op == "c" and lo.val == hi.val: return bv(lo.val, 64)
    if n in ex.fixed:
        ex.inputs[n] = ("u%d" % w, bv(ex.fixed[n], w), ex.fixed[n], ex.fixed[n]); return bv(ex.fixed[n], 64)
    m = (1 << w) - 1
    clo = lo.val & m if lo.op == "c" else 0
    chi = hi.val & m if hi.op == "c" else m
    v = var("%s@%d:%d" % (n, clo, chi) if ex.fixed else n, w)   # expressions are shared between the cases of a contract, ranges may not be
    v._iv = (clo, chi)
    raw_ult = lambda x, y: X._mk("ult", "B", (x, y))
    if clo > 0: ex.assumes.append(not_(raw_ult(v, bv(clo, w))))
    if chi < m: ex.assumes.append(not_(raw_ult(bv(chi, w), v)))
    if lo.op != "c": ex.assume(g, not_(ult(v, trunc(lo, w))))
    if hi.op != "c": ex.assume(g, not_(ult(trunc(hi, w), v)))
    ex.inputs[n] = ("u%d" % w, v, clo, chi)
    return zext(v, 64)
def vc_sint(ex, st, g, a, ins):
    n = name_k(ex, ex.cstr(st, a[0])); w = cval(a[1])
    lo, hi = sgn(cval(a[2]), 64), sgn(cval(a[3]), 64)
    if lo == hi: return bv(lo, 64)
    if n in ex.fixed:
        ex.inputs[n] = ("s%d" % w, bv(ex.fixed[n], w), ex.fixed[n], ex.fixed[n]); return bv(ex.fixed[n], 64)
    v = var("%s@%d:%d" % (n, lo, hi) if ex.fixed else n, w)
    m = (1 << w) - 1
    if lo >= 0: v._iv = (lo, hi)
    # shift to unsigned: keep the signed range as an assumption and as a signed-interval hint
    raw = lambda x, y: X._mk("slt", "B", (x, y))
    X.set_siv(v, lo, hi)
    ex.assumes.append(not_(raw(v, bv(lo, w)))); ex.assumes.append(not_(raw(bv(hi, w), v)))
    ex.inputs[n] = ("s%d" % w, v, lo, hi)
    return sext(v, 64)
def vc_real(ex, st, g, a, ins):
    n = name_k(ex, ex.cstr(st, a[0]))
    v = var(n, "R")
    lo, hi = a[1], a[2]
    if lo.op == "c" and hi.op == "c" and lo.val == hi.val: return lo
    if not (lo.op in ("c",) and abs(lo.val) > 10**29): ex.assume(g, rle(lo, v))
    if not (hi.op in ("c",) and abs(hi.val) > 10**29): ex.assume(g, rle(v, hi))
    ex.inputs[n] = ("r", v, lo.val if lo.op == "c" else -1, hi.val if hi.op == "c" else 1)
    return v
def asb(c):
    return c if c.sort == "B" else ne(bvand(c, bv(1, c.sort)), bv(0, c.sort))
def vc_assume(ex, st, g, a, ins):
    c = asb(a[0])
    ex.assume(g, c)
    g2 = and_(g, c)
    return Ret(None, g2, st) if g2 is not g else None
def vc_check(ex, st, g, a, ins):
    ex.oblige("contract", ex.cstr(st, a[1]), g, asb(a[0]))
def vc_check_eq(ex, st, g, a, ins):
    ex.oblige("contract", ex.cstr(st, a[3]), g, eq(a[0], a[1]), lhs=a[0], rhs=a[1])
def vc_check_le(ex, st, g, a, ins):
    ex.oblige("contract", ex.cstr(st, a[3]), g, rle(a[0], a[1]))
def vc_cover(ex, st, g, a, ins):
    ex.covers.append((ex.cstr(st, a[1]), and_(g, asb(a[0])), len(ex.assumes)))
def vc_abort(ex, st, g, a, ins):
    ex.dead(g, st, "abort: " + ex.cstr(st, a[0]))
    return Ret(None, FALSE, st)
def vc_uf(ex, st, g, a, ins):
    return uf("F." + ex.cstr(st, a[0]), "R", a[1:])
def vc_uf_int(ex, st, g, a, ins):
    # uint64 __vc_uf_int(name, lo, hi, n, a0..a3)
    nm = "F." + ex.cstr(st, a[0]); n = cval(a[3])
    r = uf(nm, 64, a[4:4 + n])
    lo, hi = a[1], a[2]
    if lo.op == "c" and hi.op == "c":
        if r._iv is None or r._iv == (0, (1 << 64) - 1): r._iv = (lo.val, hi.val)
        key = ("ufr", r.id)
        if key not in ex.notes:
            ex.notes.add(key)
            raw = lambda x, y: X._mk("ult", "B", (x, y))
            ex.assumes.append(and_(not_(raw(r, lo)), not_(raw(hi, r))))
    return r

# ------------------------------------------------------------------ views
# void* __vc_view_new(name, rank, esize, init, nlo, nhi, ext[8]) ; init 0 zero 1 undef 2 input int 3 input real
def vc_view_new(ex, st, g, a, ins):
    nm = ex.cstr(st, a[0]); rank = cval(a[1]); es = cval(a[2]); init = cval(a[3])
    n = name_k(ex, nm)
    o = Obj(n, None, "view")
    o.init = {0: "zero", 1: "undef"}.get(init)
    ext = a[6:6 + rank]
    o.extra = {"ext": list(ext), "esize": es, "rank": rank}
    if init == 2:
        lo, hi = cval(a[4]), cval(a[5])
        w = 8 * es
        rng = None if (lo == 0 and hi >= (1 << w) - 1) else (lo, hi)
        o.init = ("uf", n, rng); o.extra["layout"] = [(0, es, ir.INT(w))]
        ex.inputs[n] = ("viewu", o, lo, hi)
    elif init == 3:
        o.init = ("uf", n); o.extra["layout"] = [(0, es, ir.DOUBLE if es == 8 else ir.FLOAT)]
        ex.inputs[n] = ("viewr", o, None, None)
    st.mem[o.id] = None
    return mkptr(o, Z64, (None,) * rank)
# real-range refinement is done at read: assume range
def vc_view_range(ex, st, g, a, ins):
    o = a[0].alts[0][1]
    lo, hi = a[1], a[2]
    n = o.init[1]
    def init(ex2, o2, k, boff, ty):
        r = uf(n if boff == 0 else "%s+%d" % (n, boff), "R", k)
        key = ("rr", r.id)
        if key not in ex2.notes:
            ex2.notes.add(key)
            ex2.assumes.append(and_(rle(lo, r), rle(r, hi)))
        return r
    o.init = ("fn", init)
    k, _, _, _ = ex.inputs[n]
    ex.inputs[n] = ("viewr", o, lo.val, hi.val)
def isfree(x): return x is None or isinstance(x, tuple)
def vc_view_at(ex, st, g, a, ins):
    p = a[0]; rank = cval(a[1]); idx = a[2:2 + rank]
    if isinstance(p, E): p = ex.int2ptr(p)
    out = []
    for c, o, f, k in p.alts:
        gc = and_(g, c)
        if gc is FALSE: continue
        if o is None:
            ex.oblige("memory", "access to an unallocated view", gc, FALSE); continue
        if o.kind != "view": raise Unsupported("view_at on " + o.kind)
        key = list(k)
        free = [i for i, x in enumerate(key) if isfree(x)]
        if len(free) < rank: raise Unsupported("rank mismatch on view " + o.name)
        for i, x in zip(free, idx):
            n = o.extra["ext"][i] if key[i] is None else key[i][2]
            b = ult(x, n)
            key[i] = x if key[i] is None else bvadd(x, key[i][1])
            if b is not TRUE: ex.oblige("bounds", "index %d of view %s in bounds" % (i, o.name.split("#")[0]), gc, b)
        out.append((c, o, f, tuple(key)))
    if not out: return NULL
    return Ptr(out)
def vc_view_sub(ex, st, g, a, ins):
    """partially applied view: (h, rank_in, mask, i0..): bit set in mask => index fixed"""
    p = a[0]; rank = cval(a[1]); mask = cval(a[2]); idx = a[3:3 + rank]
    out = []
    for c, o, f, k in p.alts:
        key = list(k) ; free = [i for i, x in enumerate(key) if isfree(x)]
        idx2 = a[3 + rank:3 + 2 * rank]
        for j, i in enumerate(free):
            if j >= rank: break
            x = idx[j]
            n = o.extra["ext"][i] if key[i] is None else key[i][2]
            off = bv(0, 64) if key[i] is None else key[i][1]
            if mask >> j & 1:
                key[i] = bvadd(off, x)
                b = ult(x, n)
                if b is not TRUE: ex.oblige("bounds", "subview index in bounds of " + o.name, and_(g, c), b)
            elif mask >> (8 + j) & 1:
                y = idx2[j]
                key[i] = ("o", bvadd(off, x), bvsub(y, x))
                b = and_(ule(x, y), ule(y, n))
                if b is not TRUE: ex.oblige("bounds", "subview range in bounds of " + o.name, and_(g, c), b)
        out.append((c, o, f, tuple(key)))
    return Ptr(out)
def vc_view_extent(ex, st, g, a, ins):
    r = None
    for c, o, f, k in reversed(a[0].alts):
        i = cval(a[1])
        v = bv(0, 64) if o is None else ([o.extra["ext"][j] if x is None else x[2] for j, x in enumerate(k) if isfree(x)] + [bv(1, 64)] * 8)[i]
        r = v if r is None else vite(c, v, r)
    return r
def vc_view_copy(ex, st, g, a, ins):
    """deep_copy of whole view contents (dst, src): same extents required"""
    d, s = a[0], a[1]
    if len(d.alts) != 1 or len(s.alts) != 1: raise Unsupported("deep_copy of merged views")
    do, so = d.alts[0][1], s.alts[0][1]
    if do is None or so is None: return
    if do is so: return
    for x, y in zip(do.extra["ext"], so.extra["ext"]):
        b = eq(x, y)
        if b is not TRUE: ex.oblige("bounds", "deep_copy extents agree", g, b)
    if any(x is not None for x in d.alts[0][3]) or any(x is not None for x in s.alts[0][3]): raise Unsupported("deep_copy of subviews")
    log = st.mem.get(so.id)
    fz = Obj(so.name + "@copy", None, "view"); fz.init = so.init; fz.extra = so.extra
    st.mem[do.id] = LogC(None, ("COPY", so, log, g, None, None)) if False else copy_log(ex, st, do, so, log)
def copy_log(ex, st, do, so, log):
    # destination now reads through the source's log as it is now
    new = LogC(st.mem.get(do.id), ((), 0, 0, TRUE, (so, log), "copy"))
    return new
def vc_view_fill_r(ex, st, g, a, ins): fill_(ex, st, g, a[0], a[1])
def vc_view_fill_i(ex, st, g, a, ins): fill_(ex, st, g, a[0], trunc(a[1], cval(a[2])))
def fill_(ex, st, g, p, v):
    for c, o, f, k in p.alts:
        if o is None: continue
        if ex.par_stack and o.id in ex.par_stack[-1]["base"]: raise Unsupported("fill in parallel region")
        if any(x is not None for x in k): 
            if ex.par_stack or any(isinstance(x, tuple) for x in k): raise Unsupported("fill of subview in parallel")
            sel = tuple((i, x) for i, x in enumerate(k) if x is not None)
        else: sel = ()
        st.mem[o.id] = LogC(st.mem.get(o.id), (sel, 0, o.extra["esize"], c, v, "fill"))
def vc_view_resize(ex, st, g, a, ins):
    """contents of the old view kept inside the old extents, zero elsewhere"""
    new, old = a[0], a[3]
    if len(new.alts) != 1: raise Unsupported("resize of merged view")
    no = new.alts[0][1]
    alts = [(c, o, st.mem.get(o.id)) for c, o, f, k in old.alts if o is not None]
    if not alts: return
    def init(ex2, o2, k, boff, ty):
        r = ex2.zero(ty)
        for c, o, log in alts:
            inb = and_(c, *[ult(x, e) for x, e in zip(k, o.extra["ext"])])
            if inb is FALSE: continue
            r = vite(inb, ex2.log_read(log, o, k, boff, ty), r)
        return r
    no.init = ("fn", init)
    if alts[0][1].extra.get("layout"): no.extra["layout"] = alts[0][1].extra["layout"]

# ------------------------------------------------------------------ parallel constructs
def vc_par_begin(ex, st, g, a, ins):
    n = a[0]
    b = fresh("par_i", 64)
    hi = interval(n)[1]
    b._iv = (0, max(0, hi - 1))
    ex.par_stack.append({"binder": b, "n": n, "st": st.fork(), "g": g, "writes": [], "base": dict(st.mem), "nass": len(ex.assumes)})
    g2 = and_(g, ult(b, n))
    st2 = State(dict(st.mem))
    return Ret(b, g2, st2)
def vc_par_end(ex, st, g, a, ins):
    fr = ex.par_stack.pop()
    b = fr["binder"]; base = fr["base"]
    out = fr["st"]
    for oid, cur in st.mem.items():
        old = base.get(oid)
        if isinstance(cur, LogC) or isinstance(old, LogC):
            if cur is old: continue
            ents = []
            x = cur
            while x is not old:
                if x is None: raise Unsupported("parallel region log diverged")
                ents.append(x.ent); x = x.prev
            log = old
            for e in reversed(ents):
                k, bo, n, c, v, lam = e
                if lam == "fill" or lam == "copy": raise Unsupported("fill in parallel")
                lam2 = ((b, fr["n"]),) + (lam or ())
                log = LogC(log, (k, bo, n, c, v, lam2))
            out.mem[oid] = log
        elif oid in base and cur is not old and isinstance(cur, MemC):
            if not same_cells(cur, old):
                if oid not in ex.scratch_ok:
                    o = ex.par_obj.get(oid)
                    raise Unsupported("parallel body writes captured memory")
    if ex.par_stack:
        ex.par_stack[-1]["writes"].extend(fr["writes"])
    return Ret(None, fr["g"], out)
def same_cells(a, b):
    if a is b: return True
    if not isinstance(b, MemC): return False
    if a.cells.keys() != b.cells.keys(): return False
    for k in a.cells:
        x, y = a.cells[k], b.cells[k]
        if x[0] != y[0]: return False
        if x[1] is not y[1]:
            if isinstance(x[1], Ptr) and isinstance(y[1], Ptr) and repr(x[1]) == repr(y[1]): continue
            return False
    return True
# reductions / scans: the result is an uninterpreted value constrained by instantiable axioms (vc_red_inst)
def vc_par_mode(ex, st, g, a, ins):
    n = a[0]
    return bv(1, 64) if n.op == "c" and n.val <= ex.opts.get("seq", 8) else bv(0, 64)
def outer(ex): return [f["binder"] for f in ex.par_stack]
def vc_red_end(ex, st, g, a, ins, real_):
    kind = cval(a[0]); c, init = a[1], a[2]
    fr = ex.par_stack[-1]
    r0 = vc_par_end(ex, st, g, a, ins)
    ob = outer(ex); k = len(ex.reds)
    so = "R" if real_ else 64
    r = uf("red!%d" % k, so, ob)
    n = fr["n"]; b = fr["binder"]
    # guard of the body relative to the entry of the region: body executed to its end (it is total: g == entry and i<n)
    red = dict(kind=kind, b=b, n=n, c=c, init=init, r=r, so=so, k=k, ob=ob, g=fr["g"])
    ex.reds.append(red)
    le = rle if real_ else ule
    if kind in (1, 2):
        w = uf("red!%d.w" % k, 64, ob)
        cw = subst([c], {b.id: w})[0]
        ne0 = ult(bv(0, 64), n)
        # r is init or the contribution of the witness w (contribution folds the identity in)
        ex.assume(fr["g"], ite(ne0, and_(ult(w, n), eq(r, cw)), eq(r, init)))
        red["w"] = w
    elif kind == 0:
        S = lambda i: uf("red!%d.S" % k, so, ob + [i])
        red["S"] = S
        ex.assumes.append(eq(S(bv(0, 64)), init)); ex.assumes.append(eq(S(n), r))
    elif kind in (3, 4):
        w = uf("red!%d.w" % k, 64, ob)
        cw = subst([c], {b.id: w})[0]
        z = ne(cw, bv(0, 64))
        if kind == 3: ex.assume(fr["g"], and_(or_(eq(r, bv(1, 64)), and_(eq(r, bv(0, 64)), ult(w, n), not_(z)))))
        else: ex.assume(fr["g"], or_(eq(r, bv(0, 64)), and_(eq(r, bv(1, 64)), ult(w, n), z)))
    return Ret(r, r0.g, r0.st)
def vc_red_end_r(ex, st, g, a, ins): return vc_red_end(ex, st, g, a, ins, True)
def vc_red_end_i(ex, st, g, a, ins): return vc_red_end(ex, st, g, a, ins, False)
def vc_red_inst(ex, st, g, a, ins):
    """instantiate the axioms of the back-th last reduction or scan at index i"""
    k = sgn(cval(a[0]), 32); i = a[1]
    red = ex.reds[-1 - k]
    ci = subst([red["c"]], {red["b"].id: i})[0]
    inr = ult(i, red["n"]); r = red["r"]
    kind = red["kind"]; isr = red["so"] == "R"
    le = rle if isr else ule
    if kind == 1: ex.assume(and_(red["g"], inr), le(ci, r))
    elif kind == 2: ex.assume(and_(red["g"], inr), le(r, ci))
    elif kind == 0:
        S = red["S"]
        w = red["so"]
        ex.assume(inr, eq(S(bvadd(i, bv(1, 64))), radd(S(i), rsub(ci, red["init"])) if isr else bvadd(S(i), ci)))
    elif kind == 3: ex.assume(and_(red["g"], inr, eq(r, bv(1, 64))), ne(ci, bv(0, 64)))
    elif kind == 4: ex.assume(and_(red["g"], inr, eq(r, bv(0, 64))), eq(ci, bv(0, 64)))
def vc_scan_begin(ex, st, g, a, ins):
    r = vc_par_begin(ex, st, g, a, ins)
    ex.par_stack[-1]["scan"] = True
    return r
def vc_scan_mid(ex, st, g, a, ins):
    fr = ex.par_stack[-1]; c = a[0]; w = cval(a[1])
    k = len(ex.reds); ob = outer(ex)[:-1]
    S = lambda i: uf("scan!%d.S" % k, 64, ob + [i])
    ex.reds.append(dict(kind=0, b=fr["binder"], n=fr["n"], c=c, init=bv(0, 64), r=S(fr["n"]), so=64, k=k, ob=ob, g=fr["g"], S=S))
    ex.assumes.append(eq(S(bv(0, 64)), bv(0, 64)))
    # discard writes of the first (non-final) pass: it must not write
    return S(fr["binder"])
def vc_scan_end(ex, st, g, a, ins):
    fr = ex.par_stack[-1]
    red = [x for x in ex.reds if x["b"] is fr["binder"]][-1]
    r0 = vc_par_end(ex, st, g, a, ins)
    return Ret(red["r"], r0.g, r0.st)

def nop(ex, st, g, a, ins): return None
def op_new(ex, st, g, a, ins):
    n = a[0]
    if n.op != "c":
        lo, hi = interval(n)
        raise Unsupported("allocation of symbolic size")
    o = ex.new_obj(st, "heap", n)
    return mkptr(o)
def guard_acquire(ex, st, g, a, ins): return bv(1, 32)
def first(ex, st, g, a, ins): return a[0]
def ret0(ex, st, g, a, ins): return bv(0, 32)

def strlen_(ex, st, g, a, ins): return bv(len(ex.cstr(st, a[0])), 64)
def memchr_(ex, st, g, a, ins):
    """on concrete memory only (names of fields)"""
    from expr import TRUE, FALSE
    for i in range(cval(a[2], "memchr size")):
        p = ex.ptr_add(a[0], bv(i, 64)); e = eq(ex.load(st, g, p, ir.INT(8)), trunc(a[1], 8))
        if e is TRUE: return p
        if e is not FALSE: raise Unsupported("memchr in symbolic memory")
    return NULL
def memcmp_(ex, st, g, a, ins):
    n = cval(a[2], "memcmp size")
    r = bv(0, 32)
    for i in reversed(range(n)):
        x = ex.load(st, g, ex.ptr_add(a[0], bv(i, 64)), ir.INT(8)); y = ex.load(st, g, ex.ptr_add(a[1], bv(i, 64)), ir.INT(8))
        r = ite(eq(x, y), r, ite(ult(x, y), bv(-1, 32), bv(1, 32)))
    return r
def memcpy_(ex, st, g, a, ins):
    do_memcpy(ex, st, g, a[0], a[1], a[2]); return a[0]
def memset_(ex, st, g, a, ins):
    do_memset(ex, st, g, a[0], a[1], a[2]); return a[0]

def do_memcpy(ex, st, g, d, s, n):
    if n.op != "c":
        lo, hi = interval(n)
        if hi == 0: return
        # enumerate small symbolic sizes
        offs = ex.const_offs(None, n, g)
        if offs and len(offs) == 1: n = bv(offs[0][1], 64)
        else: raise Unsupported("memcpy of symbolic size")
    ex.copy_bytes(st, g, d, s, n.val)
def do_memset(ex, st, g, d, v, n):
    if n.op != "c":
        if interval(n)[1] == 0: return
        raise Unsupported("memset of symbolic size")
    if v.op != "c": raise Unsupported("memset of symbolic value")
    n = n.val
    if n == 0: return
    for c, o, f, k in d.alts:
        if c is FALSE or o is None: continue
        if o.kind != "mem" or f.op != "c":
            for i in range(0, n, 8): ex.store(st, g, ex.ptr_add(d, bv(i, 64)), ir.INT(64), bv(int.from_bytes(bytes([v.val]) * 8, "little"), 64))
            return
        cnt = ex.own(st, o); f0 = sgn(f.val, 64)
        if o.size.op == "c" and (f0 < 0 or f0 + n > o.size.val):
            ex.oblige("memory", "memset out of bounds of " + o.name, and_(g, c), FALSE); continue
        if c is TRUE and v.val == 0:
            for q in [q for q, (m, _) in cnt.cells.items() if q < f0 + n and f0 < q + m]:
                m, w = cnt.cells.pop(q)
                if q < f0: ex.split_piece(cnt.cells, q, m, w, q, f0 - q)
                if q + m > f0 + n: ex.split_piece(cnt.cells, q, m, w, f0 + n, q + m - f0 - n)
            cnt.zero = cnt.zero + ((f0, f0 + n),)
        else:
            p = 0
            while p < n:
                s = 8
                while s > n - p: s //= 2
                old = ex.cell_load(cnt, f0 + p, ir.INT(8 * s)) if c is not TRUE else None
                nv = bv(int.from_bytes(bytes([v.val]) * s, "little"), 8 * s)
                ex.cell_store(cnt, f0 + p, s, nv if c is TRUE else vite(c, nv, old)); p += s

def rf(name):
    def h(ex, st, g, a, ins): return rfun(name, *a)
    return h
def int_split(ex, x):
    """x = I + rest where I is an integer polynomial of converted integers; (list of (coefficient, [toreal atoms]), rest) or None"""
    import solve
    if x.op == "c": return None
    try:
        nf = solve.NF(); r = nf.nf(x)
    except (solve.TooBig, ZeroDivisionError, RecursionError): return None
    if r.d or len(r.n) > 14: return None
    I = []; rest = ZERO
    for m, c in r.n.items():
        ats = [nf.atoms[k] for k, e in m for _ in range(e)]
        if c.denominator == 1 and all(a.op == "toreal" for a in ats): I.append((int(c), ats))
        else:
            t = real(c)
            for a in ats: t = rmul(t, a)
            rest = radd(rest, t)
    if rest.op == "c":
        import math
        k = math.floor(rest.val)
        if k: I.append((k, [])); rest = real(rest.val - k)
    return I, rest
def int_real(I):
    r = ZERO
    for c, ats in I:
        t = real(c)
        for a in ats: t = rmul(t, a)
        r = radd(r, t)
    return r
def lin_int(x, k, out):
    """x*k as constant + sum of coefficient * converted integer; False when x has another form"""
    if x.op == "c": out[None] = out.get(None, 0) + x.val * k; return True
    if x.op == "neg": return lin_int(x.args[0], -k, out)
    if x.op == "radd": return all(lin_int(a, k, out) for a in x.args)
    if x.op == "toreal": out[x] = out.get(x, 0) + k; return True
    if x.op == "rmul":
        c = [a for a in x.args if a.op == "c"]; r = [a for a in x.args if a.op != "c"]
        if len(c) == 1 and len(r) == 1: return lin_int(r[0], k * c[0].val, out)
    return False
def small_floor(x):
    """floor of a rational combination of small integers with few possible values: exact case distinction"""
    out = {}
    if x.op == "c" or not lin_int(x, Fraction(1), out): return None
    c0 = Fraction(out.pop(None, 0)); D = c0.denominator
    lo = hi = c0
    for t, k in out.items():
        k = Fraction(k); D = D * k.denominator // math.gcd(D, k.denominator)
        l, h = siv(t.args[0]) if t.val == "s" else interval(t.args[0])
        lo += min(k * l, k * h); hi += max(k * l, k * h)
    a, b = math.floor(lo), math.floor(hi)
    if b - a > 8 or max(abs(lo), abs(hi)) * D >= 1 << 60: return None
    s = bv(int(c0 * D), 64)
    for t, k in out.items():
        y = t.args[0]
        if y.sort > 64: return None
        y = zext(y, 64) if t.val == "u" else sext(y, 64)
        s = bvadd(s, bvmul(bv(int(k * D), 64), y))
    r = real(b)
    for m in range(b - 1, a - 1, -1): r = ite(slt(s, bv(D * (m + 1), 64)), real(m), r)
    return r
def h_floor(ex, x, g):
    """floor of (integer + rest) is the integer when 0 <= rest < 1 follows from the assumptions"""
    import solve
    if x.op == "ite": return ite(x.args[0], h_floor(ex, x.args[1], and_(g, x.args[0])), h_floor(ex, x.args[2], and_(g, not_(x.args[0]))))
    r = small_floor(x)
    if r is not None: return r
    sp = int_split(ex, x) if x.op not in ("c", "ite") else None
    if sp is not None and (sp[0] or sp[1].op == "c"):
        I, rest = sp
        if rest.op == "c":
            if 0 <= rest.val < 1: return int_real(I)
        else:
            key = ("floor", x.id, g.id)
            r = ex.memo_floor.get(key) if hasattr(ex, "memo_floor") else None
            if not hasattr(ex, "memo_floor"): ex.memo_floor = {}
            if r is None:
                pr = solve.Prover(1.0, 3.0, ("z3",), False)
                hyps = list(ex.assumes) + solve.conj(g)
                goal = and_(not_(rlt(rest, ZERO)), rlt(rest, ONE))
                r = pr.split(solve.related(hyps, goal), goal, 0) == "proved"
                ex.memo_floor[key] = r
            import os
            if os.environ.get("VC_DBGF"): print("FLOOR", r, [(c, [str(a) for a in t]) for c, t in I], str(rest)[:300])
            if r: return int_real(I)
    return rfun("floor", x)
def fromreal2(ex, x, w, signed):
    """conversion of an integer-valued polynomial of converted integers (exact modulo 2^w; in-range is a separate obligation)"""
    if x.op in ("radd", "rmul", "neg"):
        sp = int_split(ex, x)
        if sp is not None and sp[1] is ZERO:
            r = bv(0, w)
            for c, ats in sp[0]:
                t = bv(c, w)
                for a in ats:
                    y = a.args[0]
                    y = trunc(y, w) if y.sort > w else zext(y, w) if a.val == "u" else sext(y, w)
                    t = bvmul(t, y)
                r = bvadd(r, t)
            return r
    return fromreal(x, w, signed)
def h_abs(ex, st, g, a, ins): return rabs(a[0])
def h_min(ex, st, g, a, ins): return ite(rlt(a[1], a[0]), a[1], a[0])
def h_max(ex, st, g, a, ins): return ite(rlt(a[0], a[1]), a[1], a[0])
def h_copysign(ex, st, g, a, ins):
    m = rabs(a[0]); return ite(rlt(a[1], ZERO), rneg(m), m)
def h_round(ex, st, g, a, ins):
    x = a[0]; half = real(0.5)
    if x.op not in ("c", "ite"):
        sp = int_split(ex, x)
        if sp is not None and sp[1] is ZERO: return int_real(sp[0])
    return ite(rlt(x, ZERO), rneg(rfun("floor", radd(rneg(x), half))), h_floor(ex, radd(x, half), g))
def h_trunc(ex, st, g, a, ins):
    x = a[0]; return ite(rlt(x, ZERO), rneg(rfun("floor", rneg(x))), rfun("floor", x))
def h_div(ex, st, g, a, ins): raise Unsupported("div")
def h_isnan(ex, st, g, a, ins): return FALSE

TABLE = {
    "__vc_uint": vc_uint, "__vc_sint": vc_sint, "__vc_real": vc_real, "__vc_assume": vc_assume, "__vc_check": vc_check,
    "__vc_check_eq": vc_check_eq, "__vc_check_le": vc_check_le, "__vc_cover": vc_cover, "__vc_abort": vc_abort, "__vc_uf": vc_uf,
    "__vc_uf_int": vc_uf_int,
    "__vc_view_new": vc_view_new, "__vc_view_range": vc_view_range, "__vc_view_at": vc_view_at, "__vc_view_sub": vc_view_sub,
    "__vc_view_extent": vc_view_extent, "__vc_view_copy": vc_view_copy, "__vc_view_fill_r": vc_view_fill_r, "__vc_view_fill_i": vc_view_fill_i,
    "__vc_view_resize": vc_view_resize, "__vc_par_mode": vc_par_mode, "__vc_red_end_r": vc_red_end_r, "__vc_red_end_i": vc_red_end_i, "__vc_red_inst": vc_red_inst,
    "__vc_scan_begin": vc_scan_begin, "__vc_scan_mid": vc_scan_mid, "__vc_scan_end": vc_scan_end,
    "__vc_par_begin": vc_par_begin, "__vc_par_end": vc_par_end, 
    "_Znwm": op_new, "_Znam": op_new, "malloc": op_new, "_ZnwmRKSt9nothrow_t": op_new, "_ZdlPv": nop, "_ZdlPvm": nop, "_ZdaPv": nop, "_ZdaPvm": nop, "free": nop,
    "_ZnwmSt11align_val_t": op_new, "_ZdlPvSt11align_val_t": nop, "_ZdlPvmSt11align_val_t": nop,
    "__cxa_guard_acquire": guard_acquire, "__cxa_guard_release": nop, "__cxa_atexit": ret0, "__cxa_begin_catch": first, "__cxa_end_catch": nop,
    "sqrt": rf("sqrt"), "pow": rf("pow"), "exp": rf("exp"), "log": rf("log"), "sin": rf("sin"), "cos": rf("cos"), "tan": rf("tan"), "tanh": rf("tanh"),
    "atan2": rf("atan2"), "atan": rf("atan"), "cbrt": rf("cbrt"), "log10": rf("log10"), "log2": rf("log2"), "exp2": rf("exp2"), "fmod": rf("fmod"),
    "asin": rf("asin"), "acos": rf("acos"), "sinh": rf("sinh"), "cosh": rf("cosh"), "asinh": rf("asinh"), "hypot": rf("hypot"),
    "fabs": h_abs, "floor": lambda ex, st, g, a, ins: h_floor(ex, a[0], g), "ceil": rf("ceil"), "fmin": h_min, "fmax": h_max, "copysign": h_copysign, "round": h_round, "trunc": h_trunc,
    "sqrtf": rf("sqrt"), "fabsf": h_abs, "lround": lambda ex, st, g, a, ins: fromreal(h_round(ex, st, g, a, ins), 64, True),
    "printf": ret0, "puts": ret0, "putchar": ret0,
    "strlen": strlen_, "memchr": memchr_, "memcpy": memcpy_, "memmove": memcpy_, "memset": memset_, "memcmp": memcmp_, "bcmp": memcmp_,
    "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base": None,
}
TABLE = {k: v for k, v in TABLE.items() if v}
RX = [
    (re.compile(r"^std::(basic_ostream|ostream).*operator<<|^std::basic_ostream<.*>& std::(operator<<|endl|flush|__ostream_insert)|^std::ostream::"), first),
    (re.compile(r"^std::ios_base::Init::"), nop),
    (re.compile(r"^std::__cxx11::basic_string<.*>::reserve\("), nop),
    (re.compile(r"^std::__cxx11::basic_string<.*>::(_M_append|append|operator\+=)\("), first),   # text of labels and messages is not modelled
]
_cache = {}
def lookup(ex, name):
    h = _cache.get(name, 0)
    if h == 0:
        h = TABLE.get(name)
        if h is None:
            d = ex.m.dem.get(name, name)
            strings = name in ex.m.funcs and not ex.m.extstr   # VC_STRINGS: strings are executed
            for rx, f in RX:
                if strings and "basic_string" in rx.pattern and "ostream" not in rx.pattern: continue
                if rx.search(d): h = f; break
        _cache[name] = h
    return h

# ------------------------------------------------------------------ llvm.*
def llvm(ex, st, g, name, a, ins):
    b = name.split(".")
    op = b[1]
    if op in ("lifetime", "dbg", "assume", "invariant", "experimental", "donothing", "prefetch", "stackrestore", "sideeffect", "var"): return None
    if op in ("memcpy", "memmove"): do_memcpy(ex, st, g, a[0], a[1], a[2]); return None
    if op == "memset": do_memset(ex, st, g, a[0], a[1], a[2]); return None
    if a and isinstance(a[0], Agg) and op not in ("vector",):
        n = len(a[0].v)
        return Agg([llvm1(ex, st, g, name, op, b, [x.v[i] if isinstance(x, Agg) else x for x in a], ins) for i in range(n)])
    return llvm1(ex, st, g, name, op, b, a, ins)
def llvm1(ex, st, g, name, op, b, a, ins):
    if op == "expect": return a[0]
    if op == "umin": return ite(ult(a[0], a[1]), a[0], a[1])
    if op == "umax": return ite(ult(a[0], a[1]), a[1], a[0])
    if op == "smin": return ite(slt(a[0], a[1]), a[0], a[1])
    if op == "smax": return ite(slt(a[0], a[1]), a[1], a[0])
    if op == "abs": return ite(slt(a[0], bv(0, a[0].sort)), bvneg(a[0]), a[0])
    if op == "fabs": return rabs(a[0])
    if op == "floor": return h_floor(ex, a[0], g)
    if op in ("sqrt", "pow", "exp", "log", "sin", "cos", "floor", "ceil", "exp2", "log2", "log10"): return rfun(op, *a)
    if op == "powi": return rfun("pow", a[0], toreal(a[1], True))
    if op in ("fma", "fmuladd"): return radd(rmul(a[0], a[1]), a[2])
    if op == "copysign": return h_copysign(ex, st, g, a, ins)
    if op in ("minnum", "minimum"): return h_min(ex, st, g, a, ins)
    if op in ("maxnum", "maximum"): return h_max(ex, st, g, a, ins)
    if op in ("round",): return h_round(ex, st, g, a, ins)
    if op in ("rint", "nearbyint"): return rfun("floor", radd(a[0], real(0.5)))
    if op == "trunc": return h_trunc(ex, st, g, a, ins)
    if op == "is": return FALSE     # is.fpclass / is.constant
    if op == "objectsize": return bv(-1, 64)
    if op in ("sadd", "ssub", "smul", "uadd", "usub", "umul"):
        w = a[0].sort
        f = {"add": bvadd, "sub": bvsub, "mul": bvmul}[op[1:]]
        r = f(a[0], a[1]); ew = 2 * w if op.endswith("mul") else w + 1
        ext = sext if op[0] == "s" else zext
        wide = f(ext(a[0], ew), ext(a[1], ew))
        ov = ne(wide, ext(r, ew))
        if b[2] == "sat":
            if op[0] != "u": raise Unsupported(name)
            return ite(ov, bv(0, w) if op == "usub" else bv(-1, w), r)
        return Agg([r, ov])
    if op == "ctpop":
        w = a[0].sort; r = bv(0, w)
        for i in range(w): r = bvadd(r, bvand(lshr(a[0], bv(i, w)), bv(1, w)))
        return r
    if op in ("ctlz", "cttz"):
        w = a[0].sort; r = bv(w, w)
        rng = range(w) if op == "ctlz" else range(w - 1, -1, -1)
        for i in rng:
            bit = ne(bvand(lshr(a[0], bv(i, w)), bv(1, w)), bv(0, w))
            r = ite(bit, bv(w - 1 - i if op == "ctlz" else i, w), r)
        return r
    if op in ("fshl", "fshr"):
        w = a[0].sort
        if a[2].op == "c":
            s = a[2].val % w
            if s == 0: return a[0] if op == "fshl" else a[1]
            if op == "fshr": s = w - s
            return bvor(shl(a[0], bv(s, w)), lshr(a[1], bv(w - s, w)))
    if op == "bswap":
        w = a[0].sort; r = bv(0, w)
        for i in range(w // 8): r = bvor(r, shl(bvand(lshr(a[0], bv(8 * i, w)), bv(255, w)), bv(w - 8 - 8 * i, w)))
        return r
    if op in ("stacksave",): return NULL
    if op == "threadlocal": return a[0]
    if op == "trap":
        ex.dead(g, st, "trap"); return None
    if op == "vector" and b[2] == "reduce":
        v = a[0].v; r = v[0]
        f = {"add": bvadd, "mul": bvmul, "and": lambda x, y: and_(x, y) if x.sort == "B" else bvand(x, y), "or": lambda x, y: or_(x, y) if x.sort == "B" else bvor(x, y),
             "xor": bvxor, "umax": lambda x, y: ite(ult(x, y), y, x), "smax": lambda x, y: ite(slt(x, y), y, x)}[b[3]]
        for x in v[1:]: r = f(r, x)
        return r
    if op == "eh" : return bv(0, 32)
    raise Unsupported(name)
