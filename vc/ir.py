"""Reader for textual LLVM 18 IR (opaque pointers)."""
import re, struct
from fractions import Fraction

# ------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "w", "elts", "n", "elt", "packed", "name", "_size", "_align", "_offs")
    def __init__(self, k, **kw):
        self.k = k; self.w = kw.get("w"); self.elts = kw.get("elts"); self.n = kw.get("n")
        self.elt = kw.get("elt"); self.packed = kw.get("packed", False); self.name = kw.get("name")
        self._size = None; self._align = None; self._offs = None
    def __repr__(self):
        return {"int": lambda: "i%d" % self.w, "struct": lambda: "{%s}" % ",".join(map(repr, self.elts)),
                "array": lambda: "[%d x %r]" % (self.n, self.elt), "vec": lambda: "<%d x %r>" % (self.n, self.elt)}.get(self.k, lambda: self.k)()

VOID = Ty("void"); PTR = Ty("ptr"); DOUBLE = Ty("double"); FLOAT = Ty("float"); LABEL = Ty("label"); META = Ty("metadata")
X86FP = Ty("x86_fp80"); TOKEN = Ty("token"); HALF = Ty("half"); FP128 = Ty("fp128")
_ints = {}
def INT(w):
    if w not in _ints: _ints[w] = Ty("int", w=w)
    return _ints[w]

def size_align(t):
    if t._size is not None: return t._size, t._align
    k = t.k
    if k == "int":
        b = (t.w + 7) // 8
        p = 1
        while p < b: p *= 2
        s, a = p, min(p, 16)
        if t.w == 1: s, a = 1, 1
    elif k == "ptr" or k == "double": s = a = 8
    elif k == "float": s = a = 4
    elif k == "half": s = a = 2
    elif k in ("x86_fp80", "fp128"): s = a = 16
    elif k == "array":
        es, a = size_align(t.elt); s = es * t.n
    elif k == "vec":
        es, _ = size_align(t.elt); s = es * t.n
        p = 1
        while p < s: p *= 2
        s = a = p
    elif k == "struct":
        off = 0; a = 1; offs = []
        for e in t.elts:
            es, ea = size_align(e)
            if t.packed: ea = 1
            off = (off + ea - 1) // ea * ea
            offs.append(off); off += es; a = max(a, ea)
        s = (off + a - 1) // a * a
        t._offs = offs
    elif k in ("void", "func", "opaque"): s, a = 1, 1
    else: raise Exception("size of " + k)
    t._size, t._align = s, a
    return s, a
def sizeof(t): return size_align(t)[0]
def offsets(t):
    size_align(t); return t._offs

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gl>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    m = TOK.match
    while i < n:
        if s[i] == ";": break
        t = m(s, i)
        if not t: raise Exception("lex: " + s[i:i + 60])
        k = t.lastgroup
        if k != "ws": out.append((k, t.group()))
        i = t.end()
    return out

def unq(n):
    # strip sigil and quotes
    n = n[1:]
    if n.startswith('"'): n = n[1:-1]
    return n

PARAM_ATTRS = {"noundef", "nonnull", "nocapture", "readonly", "readnone", "writeonly", "noalias", "signext", "zeroext", "returned",
               "inreg", "nofree", "immarg", "swiftself", "nest", "allocptr", "writable", "dead_on_unwind", "noreturn", "nofpclass", "inrange"}
LINKAGE = {"private", "internal", "linkonce", "linkonce_odr", "weak", "weak_odr", "common", "external", "extern_weak", "available_externally",
           "appending", "dso_local", "dso_preemptable", "hidden", "protected", "default", "local_unnamed_addr", "unnamed_addr", "thread_local",
           "externally_initialized", "noundef"}

class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "line")
    def __init__(self, op, res, ty, a, x=None): self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x

class Block:
    __slots__ = ("name", "phis", "ins", "term", "succs", "preds", "idx")
    def __init__(self, name): self.name = name; self.phis = []; self.ins = []; self.term = None; self.succs = []; self.preds = []

class Func:
    def __init__(self, name): self.name = name; self.lines = None; self.blocks = None; self.params = []; self.ret = None; self.analysed = False; self.attrs = ""

class P:
    """token cursor"""
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None
    def kind(self): return self.t[self.i][0] if self.i < len(self.t) else None
    def next(self):
        v = self.t[self.i][1]; self.i += 1; return v
    def acc(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v: self.i += 1; return True
        return False
    def exp(self, v):
        if not self.acc(v): raise Exception("expected %r got %r in %r" % (v, self.peek(), " ".join(x[1] for x in self.t)[:300]))
    # ---- types
    def type(self):
        t = self.type0()
        while True:
            if self.peek() == "(":   # function type
                self.next()
                while not self.acc(")"):
                    if self.acc("..."): pass
                    else: self.type(); self.skip_attrs()
                    self.acc(",")
                t = Ty("func", elt=t)
            elif self.peek() == "*": self.next(); t = PTR
            else: return t
    def type0(self):
        k, v = self.t[self.i]; self.i += 1
        if k == "word":
            if v[0] == "i" and v[1:].isdigit(): return INT(int(v[1:]))
            r = {"void": VOID, "ptr": PTR, "double": DOUBLE, "float": FLOAT, "label": LABEL, "metadata": META, "x86_fp80": X86FP,
                 "token": TOKEN, "half": HALF, "fp128": FP128}.get(v)
            if r:
                if r is PTR and self.peek() == "addrspace": self.next(); self.exp("("); self.next(); self.exp(")")
                return r
            if v == "opaque": return Ty("opaque")
        if k == "loc": return self.m.named(v)
        if v == "[":
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp("]"); return Ty("array", n=n, elt=e)
        if v == "{":
            return self.structbody("}", False)
        if v == "<":
            if self.peek() == "{":
                self.next(); t = self.structbody("}", True); self.exp(">"); return t
            n = int(self.next()); self.exp("x"); e = self.type(); self.exp(">"); return Ty("vec", n=n, elt=e)
        raise Exception("type? %r in %r" % (v, " ".join(x[1] for x in self.t)[:200]))
    def structbody(self, end, packed):
        es = []
        while not self.acc(end):
            es.append(self.type()); self.acc(",")
        return Ty("struct", elts=es, packed=packed)
    def skip_attrs(self):
        while self.i < len(self.t):
            k, v = self.t[self.i]
            if v in PARAM_ATTRS: self.i += 1
            elif v in ("align",):
                self.i += 1
                if self.acc("("): self.next(); self.exp(")")
                else: self.i += 1
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "preallocated", "elementtype",
                       "memory", "allocsize", "vscale_range", "uwtable", "captures", "range", "initializes"):
                self.i += 1
                if self.acc("("):
                    d = 1
                    while d:
                        x = self.next()
                        d += (x == "(") - (x == ")")
                if v == "nofpclass": pass
            elif v == "nofpclass":
                self.i += 1
            else: break
    # ---- values: ('c', ty, v) ('l', name) ('g', name) ('ce', ...) etc
    def value(self, ty):
        k, v = self.t[self.i]; self.i += 1
        if k == "loc": return ("l", unq(v))
        if k == "gl": return ("g", unq(v))
        if k == "num":
            if ty.k == "int": return ("i", int(v), ty.w)
            if v.startswith("0x"):
                h = v[2:]
                if h[0] in "KLMHR":
                    return ("f", parse_x86(h))
                d = struct.unpack(">d", bytes.fromhex(h.rjust(16, "0")))[0]
                return ("f", d)
            return ("f", float(v))
        if k == "str":  # c"..."
            return ("bytes", unescape(v[2:-1]))
        if v == "true": return ("i", 1, 1)
        if v == "false": return ("i", 0, 1)
        if v == "null": return ("null",)
        if v in ("undef", "poison"): return ("undef", ty)
        if v == "zeroinitializer": return ("zero", ty)
        if v == "none": return ("null",)
        if v == "asm":
            return ("asm",)
        if v in ("{", "[", "<"):
            if v == "<" and self.peek() == "{":
                self.next(); vs = self.constlist("}"); self.exp(">"); return ("agg", ty, vs)
            end = {"{": "}", "[": "]", "<": ">"}[v]
            return ("agg", ty, self.constlist(end))
        if v in ("dso_local_equivalent", "no_cfi"): return self.value(ty)
        if v == "getelementptr":
            while self.peek() in ("inbounds", "nuw", "nusw", "inrange"): self.next()
            if self.peek() == "inrange":
                self.next()
            self.exp("("); t = self.type(); self.exp(",")
            ops = self.typedlist(")")
            return ("cegep", t, ops)
        if v in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "trunc", "zext", "sext"):
            self.exp("("); t = self.type(); x = self.value(t); self.exp("to"); t2 = self.type(); self.exp(")")
            return ("cecast", v, t, x, t2)
        if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            while self.peek() in ("nuw", "nsw", "exact"): self.next()
            self.exp("("); t = self.type(); x = self.value(t); self.exp(","); t2 = self.type(); y = self.value(t2); self.exp(")")
            return ("cebin", v, t, x, y)
        if v in ("icmp",):
            c = self.next(); self.exp("("); t = self.type(); x = self.value(t); self.exp(","); t2 = self.type(); y = self.value(t2); self.exp(")")
            return ("cecmp", c, t, x, y)
        if v == "blockaddress": raise Exception("blockaddress")
        if k == "meta" or v == "metadata": return ("meta",)
        raise Exception("value? %r" % v)
    def constlist(self, end):
        vs = []
        while not self.acc(end):
            t = self.type(); vs.append((t, self.value(t))); self.acc(",")
        return vs
    def typedlist(self, end):
        vs = []
        while not self.acc(end):
            self.acc("inrange")
            t = self.type(); self.skip_attrs(); vs.append((t, self.value(t))); self.acc(",")
        return vs
    def tv(self):
        t = self.type(); self.skip_attrs()
        if t.k == "metadata":
            # skip metadata operand
            d = 0
            while self.i < len(self.t):
                v = self.peek()
                if d == 0 and v in (",", ")"): break
                d += v in ("(", "{"); d -= v in (")", "}"); self.i += 1
            return (t, ("meta",))
        return (t, self.value(t))

def parse_x86(h):
    if h[0] == "K":
        b = bytes.fromhex(h[1:].rjust(20, "0"))
        se = int.from_bytes(b[:2], "big"); m = int.from_bytes(b[2:], "big")
        s = -1 if se >> 15 else 1; e = se & 0x7fff
        return float(s * m * Fraction(2) ** (e - 16383 - 63))
    if h[0] == "H": return struct.unpack(">e", bytes.fromhex(h[1:].rjust(4, "0")))[0]
    return 0.0

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2; continue
            out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode("utf-8"); i += 1
    return bytes(out)

class Module:
    def __init__(self, path):
        self.types = {}; self.typetext = {}; self.globals = {}; self.funcs = {}; self.aliases = {}; self.extstr = False
        self.load(path)
    def named(self, v):
        n = unq(v)
        if n in self.types: return self.types[n]
        txt = self.typetext.get(n)
        if txt is None: t = Ty("opaque", name=n); self.types[n] = t; return t
        t = Ty("struct", elts=[], name=n); self.types[n] = t
        toks = tokenize(txt)
        b = P(self, toks).type()
        if b.k == "opaque": t.k = "opaque"
        else: t.elts = b.elts; t.packed = b.packed
        return t
    def load(self, path):
        cur = None
        with open(path) as f:
            for ln in f:
                if cur is not None:
                    if ln.startswith("}"): cur = None
                    else: cur.lines.append(ln)
                    continue
                c = ln[:1]
                if c == "d" and "basic_string" in ln and ln.startswith("declare") and "_M_create" in ln: self.extstr = True
                if c == "%":
                    n, _, r = ln.partition(" = type ")
                    self.typetext[unq(n)] = r
                elif c == "@":
                    i = gl_end(ln)
                    n = unq(ln[:i])
                    r = ln[i:].lstrip()[1:]
                    if re.search(r"\balias\b", r.split("(")[0].split("@")[0]): self.aliases[n] = r
                    else: self.globals[n] = r
                elif ln.startswith("define") or ln.startswith("declare"):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                    n = m.group(1).strip('"')
                    fn = Func(n); fn.header = ln
                    if ln.startswith("define"): fn.lines = []; cur = fn
                    self.funcs[n] = fn
    def resolve_alias(self, n):
        while n in self.aliases:
            m = re.findall(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', self.aliases[n])
            n = m[-1].strip('"')
        return n
    def func(self, n):
        n = self.resolve_alias(n)
        f = self.funcs.get(n)
        if f is None: return None
        if not f.analysed:
            f.analysed = True
            self.parse_header(f)
            if f.lines is not None: self.parse_body(f)
        return f
    def parse_header(self, f):
        toks = tokenize(f.header)
        p = P(self, toks); p.next()
        while True:
            v = p.peek()
            if v in LINKAGE or v in ("fastcc", "ccc", "coldcc", "cc", "tailcc", "spir_kernel"): p.next()
            elif v in PARAM_ATTRS or v in ("dereferenceable", "dereferenceable_or_null", "align", "range"): p.skip_attrs()
            else: break
        f.ret = p.type0()
        while p.peek() == "*": p.next()
        p.next(); p.exp("(")
        f.vararg = False
        while not p.acc(")"):
            if p.acc("..."): f.vararg = True; continue
            t = p.type(); 
            sret = None; byval = None
            j = p.i
            while p.i < len(p.t) and p.peek() not in (",", ")") and p.kind() != "loc":
                if p.peek() == "byval" : 
                    q = P(self, p.t); q.i = p.i + 2; byval = q.type()
                p0 = p.i; p.skip_attrs()
                if p.i == p0: p.i += 1
            nm = None
            if p.kind() == "loc": nm = unq(p.next())
            else: nm = str(len(f.params))
            f.params.append((t, nm, byval)); p.acc(",")
        f.attrs = " ".join(x[1] for x in p.t[p.i:])
    def parse_body(self, f):
        blocks = {}; order = []
        # first block label: implicit number = number of unnamed params... find explicit labels
        cur = None
        lines = f.lines
        joined = []
        buf = None
        for ln in lines:
            s = ln.rstrip("\n")
            if buf is not None:
                buf += " " + s.strip()
                if s.strip() == "]" or buf.count("[") == buf.count("]"):
                    joined.append(buf); buf = None
                continue
            st = s.strip()
            if st.startswith("switch ") and st.endswith("["):
                buf = s; continue
            # invoke continues on next line
            if joined and (st.startswith("to label ") ): joined[-1] += " " + st; continue
            if joined and (st.startswith("cleanup") or st.startswith("catch ") or st.startswith("filter ")) and s.startswith("          "):
                joined[-1] += " " + st; continue
            if not st or st.startswith(";"): continue
            joined.append(s)
        for s in joined:
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                n = m.group(1).strip('"')
                cur = Block(n); blocks[n] = cur; order.append(cur); continue
            if cur is None:
                # entry block: implicit name = next unnamed value number
                k = sum(1 for (t, nm, b) in f.params if nm.isdigit())
                cur = Block(str(k)); blocks[cur.name] = cur; order.append(cur)
            if s.lstrip().startswith("#dbg"): continue
            ins = self.parse_instr(s)
            if ins is None: continue
            if ins.op == "phi": cur.phis.append(ins)
            elif ins.op in ("br", "switch", "ret", "unreachable", "invoke", "resume"):
                cur.ins.append(ins) if ins.op == "invoke" else None
                cur.term = ins
            else: cur.ins.append(ins)
        f.blocks = blocks; f.order = order; f.entry = order[0]
        for b in order:
            t = b.term
            if t.op == "br": b.succs = [t.x[0]] if len(t.x) == 1 else [t.x[0], t.x[1]]
            elif t.op == "switch": b.succs = [t.x[0]] + [l for _, l in t.x[1]]
            elif t.op == "invoke": b.succs = [t.x["normal"]]
            else: b.succs = []
        f.loops = None
        analyse_cfg(f)
        f.lines = None if False else f.lines
    def parse_instr(self, s):
        p = P(self, tokenize(s))
        res = None
        if p.kind() == "loc" and p.peek(1) == "=":
            res = unq(p.next()); p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        flags = []
        if op in ("add", "sub", "mul", "shl", "udiv", "sdiv", "lshr", "ashr", "and", "or", "xor", "urem", "srem",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): flags.append(p.next())
            t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return Instr(op, res, t, [(t, a), (t, b)], flags)
        if op == "fneg":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            t = p.type(); return Instr(op, res, t, [(t, p.value(t))])
        if op in ("icmp", "fcmp"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign"): p.next()
            c = p.next(); t = p.type(); a = p.value(t); p.exp(","); b = p.value(t)
            return Instr(op, res, INT(1), [(t, a), (t, b)], c)
        if op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            t = p.type(); a = p.value(t); p.exp("to"); t2 = p.type()
            return Instr(op, res, t2, [(t, a)])
        if op == "select":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            c = p.tv(); p.exp(","); a = p.tv(); p.exp(","); b = p.tv()
            return Instr(op, res, a[0], [c, a, b])
        if op == "freeze":
            a = p.tv(); return Instr(op, res, a[0], [a])
        if op == "phi":
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"): p.next()
            t = p.type(); inc = []
            while True:
                p.exp("["); v = p.value(t); p.exp(","); l = unq(p.next()); p.exp("]"); inc.append((v, l))
                if not p.acc(","): break
                if p.peek() != "[": break
            return Instr(op, res, t, [], inc)
        if op == "alloca":
            p.acc("inalloca")
            t = p.type(); n = None
            if p.acc(",") and p.kind() == "word" and p.peek()[0] == "i": n = p.tv()
            return Instr(op, res, PTR, [n] if n else [], t)
        if op == "load":
            p.acc("atomic"); p.acc("volatile"); t = p.type(); p.exp(","); a = p.tv()
            return Instr(op, res, t, [a])
        if op == "store":
            p.acc("atomic"); p.acc("volatile"); v = p.tv(); p.exp(","); a = p.tv()
            return Instr(op, res, VOID, [v, a])
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            t = p.type(); p.exp(",")
            ops = []
            while True:
                ops.append(p.tv())
                if not p.acc(","): break
                if p.kind() == "meta": break
            return Instr(op, res, PTR, ops, t)
        if op == "extractvalue":
            a = p.tv(); idx = []
            while p.acc(","):
                if p.kind() != "num": break
                idx.append(int(p.next()))
            return Instr(op, res, None, [a], idx)
        if op == "insertvalue":
            a = p.tv(); p.exp(","); v = p.tv(); idx = []
            while p.acc(","):
                if p.kind() != "num": break
                idx.append(int(p.next()))
            return Instr(op, res, a[0], [a, v], idx)
        if op == "extractelement":
            a = p.tv(); p.exp(","); i = p.tv(); return Instr(op, res, a[0].elt, [a, i])
        if op == "insertelement":
            a = p.tv(); p.exp(","); v = p.tv(); p.exp(","); i = p.tv(); return Instr(op, res, a[0], [a, v, i])
        if op == "shufflevector":
            a = p.tv(); p.exp(","); b = p.tv(); p.exp(","); m = p.tv()
            return Instr(op, res, Ty("vec", n=m[0].n, elt=a[0].elt), [a, b, m])
        if op == "br":
            if p.acc("label"):
                return Instr("br", None, VOID, [], [unq(p.next())])
            c = p.tv(); p.exp(","); p.exp("label"); l1 = unq(p.next()); p.exp(","); p.exp("label"); l2 = unq(p.next())
            return Instr("br", None, VOID, [c], [l1, l2])
        if op == "switch":
            c = p.tv(); p.exp(","); p.exp("label"); d = unq(p.next()); p.exp("[")
            cs = []
            while not p.acc("]"):
                v = p.tv(); p.exp(","); p.exp("label"); cs.append((v, unq(p.next())))
            return Instr("switch", None, VOID, [c], (d, cs))
        if op == "ret":
            t = p.type()
            if t.k == "void": return Instr("ret", None, VOID, [])
            return Instr("ret", None, t, [(t, p.value(t))])
        if op in ("unreachable",): return Instr(op, None, VOID, [])
        if op == "resume": return Instr("resume", None, VOID, [])
        if op == "landingpad": return Instr(op, res, VOID, [])
        if op == "fence": return None
        if op in ("call", "invoke"):
            while p.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc"): p.next()
            p.skip_attrs()
            t = p.type0()
            while p.peek() == "*": p.next()
            if p.peek() == "(":  # explicit function type
                p.next(); d = 1
                while d:
                    x = p.next(); d += (x == "(") - (x == ")")
                while p.peek() == "*": p.next()
            if p.peek() == "asm":
                return Instr("asm", res, t, [], None)
            callee = p.value(PTR)
            p.exp("(")
            args = []
            while not p.acc(")"):
                args.append(p.tv()); p.acc(",")
            x = {"callee": callee}
            if op == "invoke":
                while p.peek() != "to": p.next()
                p.exp("to"); p.exp("label"); x["normal"] = unq(p.next())
            return Instr(op, res, t, args, x)
        if op == "atomicrmw":
            p.acc("volatile"); o = p.next(); a = p.tv(); p.exp(","); v = p.tv()
            return Instr(op, res, v[0], [a, v], o)
        if op == "cmpxchg":
            p.acc("weak"); p.acc("volatile"); a = p.tv(); p.exp(","); c = p.tv(); p.exp(","); n = p.tv()
            return Instr(op, res, Ty("struct", elts=[c[0], INT(1)]), [a, c, n])
        if op == "va_arg": return Instr("unsupported", res, VOID, [], op)
        raise Exception("instr? " + s)
    def parse_global(self, n):
        r = self.globals[n]
        toks = tokenize(r)
        p = P(self, toks)
        external = False
        while True:
            v = p.peek()
            if v in ("external", "extern_weak"): external = True
            if v in LINKAGE: p.next()
            elif v == "addrspace": p.next(); p.exp("("); p.next(); p.exp(")")
            else: break
            if v == "thread_local" and p.acc("("):
                p.next(); p.exp(")")
        kind = p.next()  # global / constant
        t = p.type()
        init = None
        if not external and p.kind() is not None and p.peek() != ",":
            init = p.value(t)
        return kind, t, init

def gl_end(ln):
    if ln[1] == '"':
        i = 2
        while ln[i] != '"': i += 2 if ln[i] == "\\" else 1
        return i + 1
    i = 1
    while ln[i] not in " =": i += 1
    return i

# ------------------------------------------------------------ CFG
def analyse_cfg(f):
    blocks = f.blocks
    # reachable RPO
    seen = set(); post = []
    st = [(f.entry.name, 0)]
    seen.add(f.entry.name)
    while st:
        n, i = st.pop()
        ss = blocks[n].succs
        if i < len(ss):
            st.append((n, i + 1))
            if ss[i] not in seen: seen.add(ss[i]); st.append((ss[i], 0))
        else: post.append(n)
    rpo = post[::-1]
    idx = {n: i for i, n in enumerate(rpo)}
    for n in rpo:
        for s in blocks[n].succs: blocks[s].preds.append(n)
    # dominators
    idom = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in blocks[n].preds:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]: a = idom[a]
                            while idx[b] > idx[a]: b = idom[b]
                        new = a
            if idom.get(n) != new: idom[n] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if idom[b] == b: return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for s in blocks[n].succs:
            if idx[s] <= idx[n]:
                if not dom(s, n): raise Exception("irreducible loop in " + f.name)
                body = loops.setdefault(s, {s})
                st = [n]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(blocks[x].preds)
    f.rpo = rpo; f.idx = idx; f.loops = loops; f.idom = idom
