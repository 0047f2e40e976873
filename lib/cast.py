"""Candice programs as trees: builders, source rendering, and flattening to the
JSON form that spec/CdTypes.tla reads.  Nothing here knows what a program means."""
import os

# ---- types -----------------------------------------------------------------
VOID = ("void",)
NONE = ("none",)
def ti(n): return ("i", n)
def tu(n): return ("u", n)
def tf(n): return ("f", n)
def ptr(t): return ("*", t)
def arr(n, t): return ("arr", n, t)
def nm(s): return ("name", s)
def qual(m, s): return ("qual", m, s)
def fnt(ps, r): return ("fn", list(ps), r)
def tlist(ts): return ("list", list(ts))
I1, I8, I16, I32, I64 = ti(1), ti(8), ti(16), ti(32), ti(64)
U8, U16, U32, U64 = tu(8), tu(16), tu(32), tu(64)
F32, F64 = tf(32), tf(64)
STR = ptr(I8)
INTS = [I8, I16, I32, I64, U8, U16, U32, U64]

def tsrc(t):
    k = t[0]
    if k in "iuf" and len(k) == 1: return "%s%d" % (k, t[1])
    if k == "*": return "*" + tsrc(t[1])
    if k == "arr": return "[%d]%s" % (t[1], tsrc(t[2]))
    if k == "name": return t[1]
    if k == "qual": return "%s.%s" % (t[1], t[2])
    if k == "fn":
        r = "" if t[2] == VOID else " " + (tsrc(t[2]) if t[2][0] != "list" else "(" + tsrc(t[2]) + ")")
        return "func(%s)%s" % (", ".join(tsrc(x) for x in t[1]), r)
    if k == "void": return "void"
    if k == "list": return ", ".join(tsrc(x) for x in t[1])
    raise ValueError(t)

# ---- expressions -----------------------------------------------------------
def N(k, **kw):
    kw["k"] = k
    return kw
def digits(v, base=10):
    if v == 0: return [0]
    d = []
    while v: d.insert(0, v % base); v //= base
    return d
def lit(v, base=10): return N("int", d=digits(v, base), base=base)
def char(v): return N("char", v=v)
def fltd(s):                                 # "12.5"
    w, f = s.split(".")
    return N("flt", d=[int(c) for c in w + f], f=len(f))
def flt(e): return fltd("%d.%03d" % (e // 8, (e % 8) * 125))     # value in eighths
def string(b): return N("str", v=list(b.encode("latin1") if isinstance(b, str) else b))
def var(s): return N("id", s=s)
def bin_(op, a, b): return N("bin", op=op, c=[a, b])
def pre(op, a): return N("pre", op=op, c=[a])
def neg(a): return pre("-", a)
def dot(a, f): return N("dot", s=f, c=[a])
def idx(a, i): return N("idx", c=[a, i])
def call(f, *args): return N("call", c=[f if isinstance(f, dict) else var(f)] + list(args))
def cast(t, a): return N("cast", t=t, c=[a])
def alloc(t, n): return N("alloc", t=t, c=[n])
def realloc(p, n): return N("realloc", c=[p, n])
def free(p): return N("free", c=[p])
def sizeof(t): return N("sizeof", t=t)
def print_(*a): return N("print", c=list(a))
def unreachable(): return N("unreachable")
def slit(s, fields, m=""): return N("slit", m=m, s=s, fs=[f for f, _ in fields], c=[e for _, e in fields])
def alit(t, vals): return N("alit", t=t, c=list(vals))
def lam(params, rt, body): return N("lam", ps=[p for p, _ in params], pts=[t for _, t in params], rt=rt, b=body)
def blk(t, body): return N("blk", t=t, b=body)
def comma(*es): return N("comma", c=list(es))
def num(v, t):
    """an integer value of type t, from literals and casts only"""
    k = t[0]; n = t[1]
    if k == "u":
        e = lit(v % (1 << n))
        return e if t == U64 and v >= 1 << 63 else cast(t, e)
    if n == 1: return cast(I1, lit(v & 1))
    w = v % (1 << n)
    if w >= 1 << (n - 1): w -= 1 << n
    if t == I32:
        if w >= 0: return lit(w)
        if w == -(1 << 31): return cast(I32, lit(1 << 31))
        return neg(lit(-w))
    if t == I64:
        if w > 0x7fffffff: return lit(w)
        return cast(I64, lit(w % (1 << 64))) if w < 0 else cast(I64, lit(w))
    if w < 0: return cast(t, neg(lit(-w)))
    return cast(t, lit(w))

# ---- statements ------------------------------------------------------------
def decl(s, e, t=NONE, const=False): return N("decl", s=s, t=t, c=[e], const=const)
def mdecl(ss, e, const=False): return N("mdecl", ss=list(ss), c=[e], const=const)
def asg(l, r): return N("asg", c=[l, r])
def ex(e): return N("ex", c=[e])
def block(*s): return N("block", c=list(s))
def if_(*c): return N("if", c=list(c))
def for_(init, cond, upd, b): return N("for", init=init, cond=cond, upd=upd, b=b)
def sw(e, cases, default=None):
    c = [e]
    for v, b in cases: c += [v, b]
    return N("sw", c=c, **{"def": default})
def ret(e=None): return N("ret", c=[] if e is None else [e])
def brk(): return N("brk")
def cont(): return N("cont")
def macro(cond, stmts):
    """cond: a number or a name"""
    return N("macro", mc=["int", digits(cond)] if isinstance(cond, int) else ["name", cond], c=list(stmts))
def condsrc(n): return "".join(map(str, n["mc"][1])) if n["mc"][0] == "int" else n["mc"][1]

# ---- top level -------------------------------------------------------------
def struct(s, fields): return N("struct", s=s, fs=[f for f, _ in fields], ts=[t for _, t in fields])
def union(s, fields): return N("union", s=s, fs=[f for f, _ in fields], ts=[t for _, t in fields])
def alias(s, t): return N("alias", s=s, t=t)
def tparam(s): return N("tparam", s=s)
def import_(s, ts, m): return N("import", s=s, ts=list(ts), m=m)   # m: index into modules, 1 based
def func(s, params, rt, body, pub=False):
    return N("func", s=s, ps=[p for p, _ in params], pts=[t for _, t in params], rt=rt, b=body, pub=pub)
def extern(s, pts, rt, var=False): return N("extern", s=s, pts=list(pts), rt=rt, var=var)

class Program:
    """mods: list of (file name, [declarations]); the first one is the root."""
    def __init__(self, mods, tag=""):
        self.mods = mods if isinstance(mods, list) and mods and isinstance(mods[0], tuple) else [("main.cd", mods)]
        self.tag = tag
        self.c_ds, self.c_text = None, None         # the C side: what its functions do, and their text
    def files(self):
        fs = {f: render_module(self, ds) for f, ds in self.mods}
        if self.c_text is not None: fs["ext.c"] = self.c_text
        return fs
    def flat(self):
        nodes = []
        def go(n):
            i = len(nodes)
            nodes.append(None)
            d = {}
            for k, v in n.items():
                if k.endswith("_"): continue
                if k == "c": d[k] = [go(x) for x in v]
                elif k in ("b", "init", "cond", "upd", "def"): d[k] = 0 if v is None else go(v)
                else: d[k] = v
            nodes[i] = d
            return i + 1
        mods = [{"file": f, "ds": [go(d) for d in ds]} for f, ds in self.mods]
        if self.c_ds is not None: mods.append({"file": "", "ds": [go(d) for d in self.c_ds], "c": True})
        return {"n": nodes, "mods": mods}

# ---- source ----------------------------------------------------------------
def esc_str(bs):
    out = bytearray()
    for b in bs:
        if b == 10: out += b"\\n"
        elif b in b'\\"': out += bytes([92, b])
        else: out.append(b)
    return out.decode("latin1")
def esc_char(v):
    m = {10: "\\n", 0: "\\0", 9: "\\t", 13: "\\r", 92: "\\\\", 39: "\\'"}
    return m[v] if v in m else chr(v)

POST = {"id", "call", "idx", "dot", "print", "slit", "alloc", "sizeof", "free", "realloc"}
def fltsrc(n):
    s = "".join(map(str, n["d"])); k = n["f"]
    return s[:len(s) - k] + "." + s[len(s) - k:]

class R:
    def __init__(self): self.lamdepth = 0
def base(e):          # something that a postfix operator can follow
    s = esrc(e)
    return s if e["k"] in POST else "(" + s + ")" if not (s.startswith("(") and e["k"] in ("bin", "cast")) else s
def esrc(e):
    k = e["k"]
    c = e.get("c")
    if k == "int":
        if e["base"] == 10: return "".join(map(str, e["d"]))
        dg = "".join("0123456789abcdef"[x] for x in e["d"])
        return ("0x" if e["base"] == 16 else "0b") + dg
    if k == "char": return "'" + esc_char(e["v"]) + "'"
    if k == "flt": return fltsrc(e)
    if k == "str": return '"' + esc_str(e["v"]) + '"'
    if k == "id": return e["s"]
    if k == "bin": return "(%s %s %s)" % (esrc(c[0]), e["op"], esrc(c[1]))
    if k == "pre":
        s = esrc(c[0])
        return e["op"] + (s if c[0]["k"] in ("id", "call", "idx", "dot") or s.startswith("(") else "(" + s + ")")
    if k == "dot": return base(c[0]) + "." + e["s"]
    if k == "idx": return base(c[0]) + "[" + esrc(c[1]) + "]"
    if k == "call": return base(c[0]) + "(" + ", ".join(map(esrc, c[1:])) + ")"
    if k == "cast":
        if e.get("form_") == "as": return "(%s as %s)" % (base(c[0]) if c[0]["k"] not in ("int", "flt", "char") else esrc(c[0]), tsrc(e["t"]))
        return "@cast(%s, %s)" % (tsrc(e["t"]), esrc(c[0]))
    if k == "alloc": return "@alloc(%s, %s)" % (tsrc(e["t"]), esrc(c[0]))
    if k == "realloc": return "@realloc(%s, %s)" % (esrc(c[0]), esrc(c[1]))
    if k == "free": return "@free(%s)" % esrc(c[0])
    if k == "sizeof": return "@sizeof(%s)" % tsrc(e["t"])
    if k == "unreachable": return "@unreachable()"
    if k == "print": return "@print(" + ", ".join(map(esrc, c)) + ")"
    if k == "slit":
        return "@%s%s{%s}" % (e["m"] + "." if e["m"] else "", e["s"], ", ".join("%s: %s" % (f, esrc(x)) for f, x in zip(e["fs"], c)))
    if k == "alit": return "%s{%s}" % (tsrc(e["t"]), ", ".join(map(esrc, c)))
    if k == "lam":
        return "func(%s)%s %s" % (", ".join("%s %s" % (p, tsrc(t)) for p, t in zip(e["ps"], e["pts"])),
                                  "" if e["rt"] == VOID else " " + tsrc(e["rt"]), bsrc(e["b"], 0))
    if k == "blk": return "(: %s %s)" % (tsrc(e["t"]), bsrc(e["b"], 0))
    if k == "comma": return ", ".join(map(esrc, c))
    raise ValueError(k)

def bsrc(b, ind):
    if not b["c"]: return "{ }"
    return "{\n" + "".join(ssrc(s, ind + 1) for s in b["c"]) + "  " * ind + "}"
def ssrc(s, ind):
    return "  " * ind + ssrc0(s, ind) + "\n"
def simple(s):
    k = s["k"]
    if k == "asg": return "%s = %s" % (esrc(s["c"][0]), esrc(s["c"][1]))
    if k == "ex":
        e = esrc(s["c"][0])          # a statement that begins with func declares a function
        return "(" + e + ")" if e.startswith("func") and not e[4:5].isalnum() and e[4:5] != "_" else e
    if k == "decl":
        return "%s%s : %s= %s" % ("const " if s["const"] else "", s["s"], "" if s["t"] == NONE else tsrc(s["t"]) + " ", esrc(s["c"][0]))
    if k == "mdecl":
        return "%s%s := %s" % ("const " if s["const"] else "", ", ".join(s["ss"]), esrc(s["c"][0]))
    raise ValueError(k)
def ssrc0(s, ind):
    k = s["k"]; c = s.get("c")
    if k in ("asg", "ex", "decl", "mdecl"): return simple(s) + ";"
    if k == "if":
        out = "if %s %s" % (esrc(c[0]), bsrc(c[1], ind))
        i = 2
        while i + 1 < len(c):
            out += " else if %s %s" % (esrc(c[i]), bsrc(c[i + 1], ind)); i += 2
        if i < len(c): out += " else %s" % bsrc(c[i], ind)
        return out
    if k == "for":
        if s["init"] is None and s["cond"] is None: return "for %s" % bsrc(s["b"], ind)
        if s["init"] is None: return "for %s %s" % (esrc(s["cond"]), bsrc(s["b"], ind))
        return "for %s; %s; %s %s" % (simple(s["init"]), esrc(s["cond"]), simple(s["upd"]) if s["upd"] else "", bsrc(s["b"], ind))
    if k == "sw":
        out = "switch %s {\n" % esrc(c[0])
        for i in range(1, len(c), 2):
            out += "  " * (ind + 1) + "case %s %s\n" % (esrc(c[i]), bsrc(c[i + 1], ind + 1))
        if s["def"]: out += "  " * (ind + 1) + "default %s\n" % bsrc(s["def"], ind + 1)
        return out + "  " * ind + "}"
    if k == "ret": return "return%s;" % (" " + esrc(c[0]) if c else "")
    if k == "brk": return "break;"
    if k == "cont": return "continue;"
    if k == "block": return bsrc(s, ind)
    if k == "macro":
        return "#if %s {\n%s%s}" % (condsrc(s), "".join(ssrc(x, ind + 1) for x in c), "  " * ind)
    raise ValueError(k)
def dsrc(prog, d):
    k = d["k"]
    if k in ("struct", "union"):
        return "%s %s {\n%s}" % (k, d["s"], "".join("  %s %s\n" % (f, tsrc(t)) for f, t in zip(d["fs"], d["ts"])))
    if k == "alias": return "type %s = %s;" % (d["s"], tsrc(d["t"]))
    if k == "tparam": return "type %s;" % d["s"]
    if k == "import":
        to = os.path.relpath(prog.mods[d["m"] - 1][0], os.path.dirname(prog.here) or ".")
        return "import %s%s, \"%s\";" % (d["s"], "".join(", " + tsrc(t) for t in d["ts"]), to if to.startswith("..") else "./" + to)
    if k == "func":
        return "%sfunc %s(%s)%s %s" % ("pub " if d["pub"] else "", d["s"],
            ", ".join("%s %s" % (p, tsrc(t)) for p, t in zip(d["ps"], d["pts"])),
            "" if d["rt"] == VOID else " " + tsrc(d["rt"]), bsrc(d["b"], 0))
    if k == "extern":
        return "extern func %s(%s%s)%s;" % (d["s"], ", ".join(map(tsrc, d["pts"])), (", .." if d["pts"] else "..") if d["var"] else "",
            "" if d["rt"] == VOID else " " + tsrc(d["rt"]))
    if k == "macro":
        return "#if %s {\n%s\n}" % (condsrc(d), "\n".join(dsrc(prog, x) for x in d["c"]))
    return ssrc0(d, 0)
def render_module(prog, ds):
    prog.here = next((f for f, x in prog.mods if x is ds), "main.cd")
    return "\n".join(dsrc(prog, d) for d in ds) + "\n"

class Text:
    """a program that is only a text: files is {name: bytes}, the first one is the root"""
    def __init__(self, files, tag=""):
        self.tag = tag
        self.fs = {f: (s.encode("latin1") if isinstance(s, str) else s) for f, s in files.items()}
    def files(self): return self.fs
    def flat(self): return {"src": [{"file": f, "b": list(s)} for f, s in self.fs.items()]}
