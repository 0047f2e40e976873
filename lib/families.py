"""Programs that sweep a small part of the language.  They say nothing about what a program means: the
specification decides that."""
import itertools, random
from cast import *
import gen

def P(ds, tag): return Program(ds, tag)
NL = string("\n")
def pr(*es): return ex(print_(*(list(es) + [NL])))
def main(*ss): return func("main", [], I32, block(*ss, ret(lit(0))))

def chunks(l, n):
    l = list(l)
    return [l[i:i + n] for i in range(0, len(l), n)]
def pick_some(rng, l, n):
    l = list(l)
    return l if len(l) <= n else rng.sample(l, n)

# ---- integers -----------------------------------------------------------------
def bounds(t):
    n = t[1]
    if n == 1: return [0, 1]
    if t[0] == "u": vs = [0, 1, 2, 3, 7, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, 0x5a5a5a5a5a5a5a5a % (1 << n), 100]
    else: vs = [0, 1, 2, 3, 7, -1, -2, -7, (1 << (n - 1)) - 1, -(1 << (n - 1)), -(1 << (n - 1)) + 1, 0x5a5a5a5a5a5a5a5a % (1 << (n - 1)), -100]
    return vs
ARITH = ["+", "-", "*", "/", "%", "&", "|", "^"]
CMP = ["==", "!=", "<", "<=", ">", ">="]
def operand_form(rng, t, v, n):
    """the value v of type t in one of several places: (declarations, globals, types, expression)"""
    k = n % 6
    e = num(v, t)
    s = "x%d" % n
    if k == 0: return [decl(s, e)], [], [], var(s)
    if k == 1: return [decl(s, alit(arr(2, t), [num(0, t), e]))], [], [], idx(var(s), lit(1))
    if k == 2: return [decl(s, e), decl(s + "p", pre("&", var(s)))], [], [], pre("*", var(s + "p"))
    if k == 3: return [], [], [func("f" + s, [], t, block(ret(e)))], call("f" + s)
    if k == 4: return [decl(s, slit("Box" + tsrc(t), [("v", e)]))], [], [], dot(var(s), "v")
    return [], [], [], e
def box(t): return struct("Box" + tsrc(t), [("pad", I8), ("v", t)])

def int_ops(rng, per):
    """binary and unary operators on boundary values"""
    for t in INTS:
        vs = bounds(t)
        ops = CMP + (ARITH if t != I1 else ["&", "|", "^"]) + (["<<", ">>"] if t != I1 else [])
        cases = []
        for op in ops:
            pairs = [(a, b) for a in vs for b in vs]
            if op in ("<<", ">>"): pairs = [(a, b) for a in vs for b in (0, 1, t[1] // 2, t[1] - 1, 3)]
            if op in "/%": pairs = [(a, b) for a, b in pairs if b != 0 and not (t[0] == "i" and b == -1 and a == -(1 << (t[1] - 1)))]
            cases += [(op, a, b) for a, b in pick_some(rng, pairs, per)]
        rng.shuffle(cases)
        for ch in chunks(cases, 24):
            ds, gl, fs, ss = [], [], [], []
            n = 0
            for op, a, b in ch:
                o = []
                for v in (a, b):
                    vt = t
                    if op in ("<<", ">>") and v is b and len(o) == 1:
                        vt = I32 if rng.random() < 0.5 or t[0] == "u" else t
                        if v >= (1 << (vt[1] - 1)): vt = I32
                    d, g, f, e = operand_form(rng, vt, v, rng.randrange(6) + 6 * n); n += 1
                    ds += d; gl += g; fs += f; o.append((e, vt))
                ss.append(pr(bin_(op, o[0][0], o[1][0])))
            # all the operand forms use one struct for each type
            types = {I32, t}
            yield P([box(x) for x in sorted(types)] + fs + [main(*ds, *ss)], "integer operators")
        un = [pre("-", num(v, t)) for v in vs] if t != I1 else []
        un += [pre("!", num(v, t)) for v in vs]
        ss = []
        for i, v in enumerate(vs):
            s = "y%d" % i
            ss += [decl(s, num(v, t)), pr(pre("!", var(s)), pre("!", pre("!", var(s))))]
            if t != I1: ss += [pr(pre("-", var(s)), pre("-", pre("-", var(s)))), ex(pre("++", var(s))), pr(var(s)), ex(pre("--", var(s))), ex(pre("--", var(s))), pr(var(s))]
        yield P([main(*ss)], "integer operators")

def int_mixed(rng, n):
    """expressions with many operators over one type"""
    for i in range(n):
        t = rng.choice(INTS)
        g = gen.Gen(rng, dict(ints=[t, I32, rng.choice(INTS[1:])], floats=0, strs=0, structs=0, arrays=0, ptrs=0, fns=0, lams=0, blks=0, consts=0, depth=5))
        g.budget = 0; g.bound = {}; g.inblk = False
        g.scopes = [[gen.V("a", t), gen.V("b", t), gen.V("c", I32)]]
        ss = [decl("a", num(rng.choice(bounds(t)), t)), decl("b", num(rng.choice(bounds(t)), t)), decl("c", num(rng.choice(bounds(I32)), I32))]
        for _ in range(12):
            g.budget = 40
            ss.append(pr(g.expr(t, 4) if t != I1 else g.bexpr(4)))
        ss.append(pr(var("a"), var("b"), var("c")))
        yield P([main(*ss)], "integer expressions")

# ---- conversions ---------------------------------------------------------------
def conversions(rng, per):
    ts = INTS + [F32, F64]
    cases = []
    for a in ts:
        for b in ts:
            all_ = cases; cases = []
            if a[0] == "f":
                for v in (0, 1, 4, 8, 12, 20, 100, 800, 1016, -4, -8, -12, -1016):
                    if v < 0 and b[0] == "u": continue
                    cases.append((a, b, ("f", v)))
            else:
                vs = bounds(a)
                for v in vs: cases.append((a, b, ("i", v)))
            cases = all_ + pick_some(rng, cases, per)
    rng.shuffle(cases)
    for ch in chunks(cases, 24):
        ss, fs = [], []
        for i, (a, b, (k, v)) in enumerate(ch):
            if k == "f":
                e = flt(abs(v)) if a == F32 else cast(F64, flt(abs(v)))
                if v < 0: e = neg(e)
            else: e = num(v, a)
            form = rng.randrange(4)
            if form == 0: ss.append(decl("x%d" % i, e)); e = var("x%d" % i)
            elif form == 1: fs.append(func("f%d" % i, [], a, block(ret(e)))); e = call("f%d" % i)
            elif form == 2: ss.append(decl("x%d" % i, alit(arr(1, a), [e]))); e = idx(var("x%d" % i), lit(0))
            c = cast(b, e)
            if rng.random() < 0.5: c["form_"] = "as"
            if rng.random() < 0.4:
                c2 = cast(rng.choice([x for x in INTS if b[0] != "f"] or [F32, F64]), c)
                ss.append(pr(c, c2))
            else: ss.append(pr(c))
        yield P(fs + [main(*ss)], "conversions")
def int_chains(rng, n):
    """i1/i8/../u64 casts of casts, used in comparisons and arithmetic"""
    for _ in range(n):
        ss = []
        for i in range(16):
            t = rng.choice(INTS)
            e = num(rng.choice(bounds(t)), t)
            if rng.random() < 0.6: ss.append(decl("x%d" % i, e)); e = var("x%d" % i)
            for _ in range(rng.randrange(1, 4)):
                t = rng.choice(INTS); e = cast(t, e)
                if rng.random() < 0.5: e["form_"] = "as"
                if rng.random() < 0.3 and t != I1: e = bin_(rng.choice("+-*^&|"), e, num(rng.choice(bounds(t)), t))
                elif rng.random() < 0.2: e = bin_(rng.choice(CMP), e, num(rng.choice(bounds(t)), t)); t = I1
            ss.append(pr(e))
        yield P([main(*ss)], "conversion chains")

# ---- control flow ----------------------------------------------------------------
def tr(k): return ex(print_(lit(k), string("")))
class Ctl:
    """skeletons of statements over the parameters a and b and the counters of the loops around"""
    def __init__(self, rng): self.r = rng; self.n = 0; self.k = 0
    def trace(self):
        self.k += 1
        return tr(self.k)
    def cond(self, ctrs):
        r = self.r
        v = r.choice(["a", "b"] + ctrs + ctrs)
        e = bin_(r.choice(CMP), var(v), lit(r.randrange(3)))
        k = r.random()
        if k < 0.2: e = bin_(r.choice(["&&", "||"]), e, bin_(r.choice(CMP), var(r.choice(["a", "b"] + ctrs)), lit(r.randrange(3))))
        elif k < 0.3: e = pre("!", e)
        elif k < 0.4: e = var(v)
        elif k < 0.45: e = cast(r.choice([I8, U64, F32, F64]), var(v))
        return e
    def leaf(self, loop):
        k = self.r.random()
        if loop and k < 0.25: return [brk()]
        if loop and k < 0.5: return [cont()]
        if k < 0.7: return [ret(bin_("+", bin_("*", var("a"), lit(10)), lit(self.r.randrange(10))))]
        return []
    def seq(self, d, loop, ctrs, outer=True):
        ss = []
        for _ in range(self.r.randrange(0 if d < 2 else 1, 3)): ss += self.one(d, loop, ctrs)
        ss.append(self.trace())
        if self.r.random() < 0.35 and not outer:
            ss += self.leaf(loop)
            if self.r.random() < 0.15: ss.append(self.trace())       # never reached
        return ss
    def blk(self, d, loop, ctrs): return block(*self.seq(d, loop, ctrs, False))
    def one(self, d, loop, ctrs, kind=None):
        if d == 0: return [self.trace()]
        k = kind or self.r.choice(["if", "ifelse", "elif", "elifelse", "for", "while", "forever", "switch", "switchd", "block", "down"])
        b = lambda l=loop, c=ctrs: self.blk(d - 1, l, c)
        c = lambda: self.cond(ctrs)
        self.n += 1
        i = "i%d" % self.n
        if k == "if": return [if_(c(), b())]
        if k == "ifelse": return [if_(c(), b(), b())]
        if k == "elif": return [if_(c(), b(), c(), b())]
        if k == "elifelse": return [if_(c(), b(), c(), b(), c(), b(), b())]
        if k == "block": return [b()]
        if k == "for":
            n = self.r.choice([var("a"), lit(2), lit(3), bin_("+", var("b"), lit(1))])
            upd = self.r.choice([asg(var(i), bin_("+", var(i), lit(1))), ex(pre("++", var(i)))])
            return [for_(decl(i, lit(0)), bin_("<", var(i), n), upd, b(True, ctrs + [i]))]
        if k == "down": return [for_(decl(i, lit(2)), bin_(">=", var(i), lit(0)), ex(pre("--", var(i))), b(True, ctrs + [i]))]
        inc = ex(pre("++", var(i)))
        if k == "while": return [decl(i, lit(0)), for_(None, bin_("<", var(i), lit(self.r.randrange(1, 4))), None, block(inc, *self.seq(d - 1, True, ctrs + [i], False)))]
        if k == "forever":
            return [decl(i, lit(0)), for_(None, None, None, block(inc, if_(bin_(">", var(i), lit(self.r.randrange(1, 4))), block(brk())), *self.seq(d - 1, True, ctrs + [i], False)))]
        vals = self.r.sample([0, 1, 2, 3], self.r.randrange(0 if k == "switchd" else 1, 4))
        return [sw(var(self.r.choice(["a", "b"] + ctrs)), [(lit(v), b()) for v in vals], b() if k == "switchd" else None)]
KINDS = ["if", "ifelse", "elif", "elifelse", "for", "while", "forever", "switch", "switchd", "block", "down"]
def ctl_program(fs, tag, vals=((0, 0), (0, 2), (1, 0), (1, 1), (2, 1), (2, 2))):
    ss = []
    for f in fs:
        for a, b in vals: ss += [ex(print_(call(f["s"], lit(a), lit(b)), NL))]
    return P(fs + [main(*ss)], tag)
def control(rng, n, depth=3, per=4):
    for _ in range(n):
        fs = []
        for j in range(per):
            g = Ctl(rng)
            fs.append(func("f%d" % j, [("a", I32), ("b", I32)], I32, block(*g.seq(depth, False, []), ret(lit(99)))))
        yield ctl_program(fs, "control flow")
def control_pairs(rng, n):
    """one construct inside another, with every way to leave it"""
    combos = [(x, y, l, w) for x in KINDS for y in KINDS for l in ("brk", "cont", "ret", "none", "retboth") for w in (0, 1)]
    fs = []
    for x, y, l, w in pick_some(rng, combos, n):
        g = Ctl(rng)
        loopy = x in ("for", "while", "forever", "down") or y in ("for", "while", "forever", "down")
        if l in ("brk", "cont") and not loopy: l = "ret"
        def leaf(): return {"brk": brk, "cont": cont, "ret": lambda: ret(lit(7)), "retboth": lambda: ret(var("b"))}[l]()
        def body(kind, ctrs, inner, loop):
            def put(b, i):
                if inner is None:
                    if l == "none" or (l in ("brk", "cont") and not loop): return
                    if i == w or l == "retboth": b["c"] = [g.trace(), leaf()]
                    else: b["c"] = [g.trace()]
                elif i == w or l == "retboth":
                    b["c"] = b["c"][:1] if kind in ("while",) else (b["c"][:2] if kind == "forever" else [])
                    b["c"] += [g.trace()] + body(inner, ctrs + ([] if not isl else [nm_]), None, loop or isl) + [g.trace()]
            ss = g.one(1, loop, ctrs, kind)
            st = ss[-1]
            isl = kind in ("for", "while", "forever", "down")
            nm_ = "i%d" % g.n
            bs = [z for z in (st["c"] if st["k"] in ("if", "sw") else []) if z["k"] == "block"]
            if st["k"] == "sw" and st["def"]: bs.append(st["def"])
            if st["k"] == "for":
                b = st["b"]
                if inner is None and l != "none":
                    b["c"] += [if_(g.cond(ctrs + [nm_]), block(g.trace(), leaf())), g.trace()]
                elif inner is not None:
                    keep = {"while": 1, "forever": 2}.get(kind, 0)
                    b["c"] = b["c"][:keep] + [g.trace()] + body(inner, ctrs + [nm_], None, True) + [g.trace()]
            elif st["k"] == "block" : bs = [st]
            for i, b in enumerate(bs): put(b, i)
            return ss
        ss = body(x, [], y, False)
        fs.append(func("f%d" % (len(fs) % 5), [("a", I32), ("b", I32)], I32, block(*ss, g.trace(), ret(lit(99)))))
        if len(fs) == 5:
            yield ctl_program(fs, "control flow pairs"); fs = []
    if fs: yield ctl_program(fs, "control flow pairs")

# ---- order of evaluation -----------------------------------------------------------
class Ord:
    """expressions whose operands write a trace"""
    def __init__(self, rng):
        self.r, self.k = rng, 0
    def key(self): self.k += 1; return self.k
    def i(self, d):
        r = self.r
        if d == 0: return r.choice([lambda: call("t", lit(self.key())), lambda: call("t", lit(self.key())), lambda: pre(r.choice(["++", "--"]), var("g")), lambda: var("g"), lambda: call("bump"),
                                    lambda: pre("++", idx(var("ar"), lit(r.randrange(4)))), lambda: idx(var("ar"), bin_("&", call("t", lit(self.key())), lit(3))),
                                    lambda: pre("*", call("p", lit(r.randrange(4)))), lambda: dot(call("q", lit(self.key())), "x"),
                                    lambda: dot(var("sv"), "x"), lambda: pre("++", dot(var("sv"), "y"))])()
        e = lambda: self.i(d - 1 if r.random() < 0.7 else 0)
        return r.choice([
            lambda: bin_(r.choice(["+", "-", "*", "^", "&", "|"]), e(), e()),
            lambda: bin_(r.choice(["+", "-", "*"]), e(), e()),
            lambda: call("f2", e(), e()), lambda: call("f3", e(), e(), e()),
            lambda: cast(I32, cast(I64, e())),
            lambda: cast(I32, self.b(d - 1)),
            lambda: dot(slit("S", r.sample([("x", e()), ("y", e())], 2)), r.choice("xy")),
            lambda: call(dot(e(), "f2"), e()),
            lambda: blk(I32, block(ex(call("t", lit(self.key()))), decl("z", e()), ret(bin_("+", var("z"), e())))),
            lambda: call(idx(var("fa"), bin_("&", e(), lit(1))), e(), e()),
            lambda: pre("-", e()),
            lambda: call("sum", slit("S", [("x", e()), ("y", e())]), e()),
            lambda: call(lam([("u", I32)], I32, block(ex(call("t", lit(self.key()))), ret(bin_("+", var("u"), lit(1))))), e()) if False else e(),
        ])()
    def b(self, d):
        r = self.r
        if d <= 0: return bin_(r.choice(CMP), self.i(0), self.i(0)) if r.random() < 0.4 else call("tb", lit(self.key()), cast(I1, lit(r.randrange(2))))
        return r.choice([lambda: bin_(r.choice(["&&", "||"]), self.b(d - 1), self.b(d - 1)),
                         lambda: bin_(r.choice(["&&", "||"]), self.b(d - 1), self.b(d - 1)),
                         lambda: bin_(r.choice(CMP), self.i(d - 1), self.i(d - 1)),
                         lambda: pre("!", self.b(d - 1)), lambda: pre("!", self.i(d - 1)),
                         lambda: bin_(r.choice(["==", "!=", "^", "&", "|"]), self.b(d - 1), self.b(d - 1))])()
    def target(self, d):
        r = self.r
        return r.choice([lambda: var("g"), lambda: idx(var("ar"), bin_("&", self.i(d), lit(3))), lambda: pre("*", call("p", bin_("&", self.i(d), lit(3)))),
                         lambda: dot(var("sv"), "x"), lambda: dot(call("q", self.i(d)), "y"), lambda: idx(call("p", lit(0)), bin_("&", self.i(d), lit(3))),
                         lambda: dot(idx(var("sa"), bin_("&", self.i(d), lit(1))), "y")])()
    def stmt(self, d):
        r = self.r
        self.n = self.key()
        v = "v%d" % self.n
        k = r.randrange(11)
        if k == 0: return [asg(self.target(1), self.i(d))]
        if k == 1: return [asg(comma(var("g"), self.target(1), self.target(1)), comma(self.i(d), self.i(d), self.i(1)))]
        if k == 2: return [ex(print_(self.i(d), self.b(d), self.i(1), NL))]
        if k == 3: return [decl(v, alit(arr(3, I32), [self.i(1), self.i(1), self.i(1)])), pr(idx(var(v), lit(0)), idx(var(v), lit(1)), idx(var(v), lit(2)))]
        if k == 4: return [mdecl([v, v + "b"], r.choice([comma(self.i(d), self.i(d)), call("two", self.i(d), self.i(d))])), pr(var(v), var(v + "b"))]
        if k == 5: return [if_(self.b(d), block(tr(self.key())), self.b(d), block(tr(self.key())), block(tr(self.key())))]
        if k == 6: return [for_(decl(v, lit(0)), bin_("&&", bin_("<", var(v), lit(2)), self.b(1)), asg(var(v), bin_("+", var(v), blk(I32, block(ex(call("t", lit(self.key()))), ret(lit(1)))))), block(ex(self.i(d))))]
        if k == 7: return [sw(bin_("&", self.i(d), lit(3)), [(lit(0), block(tr(self.key()))), (lit(1), block(tr(self.key()))), (lit(2), block(ex(self.i(1))))], block(tr(self.key())))]
        if k == 8: return [decl(v, slit("S", r.sample([("x", self.i(d)), ("y", self.i(d))], 2))), pr(dot(var(v), "x"), dot(var(v), "y"))]
        if k == 9: return [asg(comma(self.target(0), var("g")), r.choice([call("two", self.i(1), self.i(1)), comma(self.i(1), self.i(1))]))]
        return [decl(v, self.b(d + 1)), pr(var(v))]
def order_prelude():
    s = struct("S", [("x", I32), ("y", I32)])
    out = lambda n, *es: ex(print_(string(n), *es, string("")))
    return [s, decl("g", lit(5)), 
            func("t", [("k", I32)], I32, block(out("t", var("k")), ret(var("k")))),
            func("tb", [("k", I32), ("v", I1)], I1, block(out("b", var("k")), ret(var("v")))),
            func("bump", [], I32, block(asg(var("g"), bin_("+", var("g"), lit(3))), out("bump", var("g")), ret(var("g")))),
            func("f2", [("a", I32), ("b", I32)], I32, block(out("f2", var("a"), var("b")), ret(bin_("-", var("a"), var("b"))))),
            func("h2", [("a", I32), ("b", I32)], I32, block(out("h2", var("a"), var("b")), ret(bin_("*", var("a"), var("b"))))),
            func("f3", [("a", I32), ("b", I32), ("c", I32)], I32, block(out("f3", var("a"), var("b"), var("c")), ret(bin_("+", var("a"), bin_("-", var("b"), var("c")))))),
            func("sum", [("s", nm("S")), ("k", I32)], I32, block(out("sum", dot(var("s"), "x"), dot(var("s"), "y"), var("k")), ret(bin_("+", dot(var("s"), "x"), var("k"))))),
            func("two", [("a", I32), ("b", I32)], tlist([I32, I32]), block(out("two", var("a"), var("b")), ret(comma(var("b"), var("a")))))]
def order(rng, n, d=2, stmts=7):
    for _ in range(n):
        o = Ord(rng)
        ss = [decl("ar", alit(arr(4, I32), [lit(10), lit(20), lit(30), lit(40)])), decl("sv", slit("S", [("x", lit(1)), ("y", lit(2))])),
              decl("sa", alit(arr(2, nm("S")), [slit("S", [("x", lit(3)), ("y", lit(4))]), slit("S", [("x", lit(5)), ("y", lit(6))])])),
              decl("pp", pre("&", idx(var("ar"), lit(0)))), decl("sp", pre("&", var("sv"))),
              decl("fa", alit(arr(2, fnt([I32, I32], I32)), [var("f2"), var("h2")])),
              decl("p", lam([("k", I32)], ptr(I32), block(ex(print_(string("p"), var("k"), string(""))), ret(bin_("+", var("pp"), var("k")))))),
              decl("q", lam([("k", I32)], ptr(nm("S")), block(ex(print_(string("q"), var("k"), string(""))), ret(var("sp")))))]
        for _ in range(stmts): ss += o.stmt(rng.choice([1, d, d]))
        ss += [pr(var("g"), *[idx(var("ar"), lit(i)) for i in range(4)]), pr(dot(var("sv"), "x"), dot(var("sv"), "y"))]
        yield P(order_prelude() + [main(*ss)], "order of evaluation")

# ---- scopes --------------------------------------------------------------------------
class Scopes:
    """declarations, assignments and uses of very few names in nested scopes"""
    def __init__(self, rng, names="wxyz", bad=0.0):
        self.r, self.names, self.bad = rng, names, bad
        self.k = 0; self.n = 0
        self.loop = False
    def val(self, t):
        self.k += 1
        return {I32: lambda: lit(self.k), I64: lambda: num(self.k, I64), STR: lambda: string("s%d" % self.k), U8: lambda: num(self.k % 256, U8)}[t]()
    def look(self, sc, x):
        for s in reversed(sc):
            if x in s: return s[x]
    def use(self, sc):
        xs = [x for x in self.names if self.look(sc, x)]
        if self.r.random() < self.bad: xs = list(self.names)
        if not xs: return tr(0)
        return ex(print_(*[var(x) for x in self.r.sample(xs, self.r.randrange(1, len(xs) + 1))], NL))
    def seq(self, sc, d, rt=None):
        """statements in a new innermost scope"""
        r = self.r
        mine = {}
        sc = sc + [mine]
        ss = []
        for _ in range(r.randrange(2, 6)):
            k = r.random()
            if k < 0.3:
                x = r.choice(self.names); t = r.choice([I32, I32, I64, STR, U8])
                e = self.val(t)
                o = [y for y in self.names if self.look(sc, y) == t]
                if o and r.random() < 0.5: e = bin_("+", var(r.choice(o)), e)
                ss.append(decl(x, e)); mine[x] = t
            elif k < 0.5:
                xs = [x for x in self.names if self.look(sc, x)]
                if xs:
                    x = r.choice(xs); ss.append(asg(var(x), self.val(self.look(sc, x))))
            elif k < 0.7 or d == 0: ss.append(self.use(sc))
            else: ss += self.nested(sc, d - 1)
        ss.append(self.use(sc))
        return ss
    def nested(self, sc, d):
        r = self.r; self.n += 1
        k = r.randrange(10)
        n = self.n
        if k in (3, 8) and len(self.names) < 3: k = 0
        if k == 0: return [block(*self.seq(sc, d))]
        if k == 1: return [if_(cast(I1, lit(1)), block(*self.seq(sc, d)))]
        if k == 2: return [if_(cast(I1, lit(0)), block(*self.seq(sc, d)), block(*self.seq(sc, d)))]
        if k == 3:
            x = r.choice(self.names)
            return [for_(decl(x, lit(0)), bin_("<", var(x), lit(2)), ex(pre("++", var(x))), block(*self.seq_loop(sc + [{x: I32}], d, x)))]
        if k == 4: return [sw(lit(1), [(lit(0), block(*self.seq(sc, d))), (lit(1), block(*self.seq(sc, d)))], block(*self.seq(sc, d)))]
        if k == 5: return [ex(print_(blk(I32, block(*self.seq(sc, d), ret(lit(self.k)))), NL))]
        if k == 6:
            x, y = r.sample(list(self.names), 2)
            f = "l%d" % n
            t = r.choice([I32, I64])
            b = self.seq(sc + [{x: t}], d)
            return [decl(f, lam([(x, t)], I32, block(*b, ret(lit(1))))), ex(call(f, self.val(t))), self.use(sc), ex(call(f, self.val(t)))]
        if k == 7:
            x, y = r.sample(list(self.names), 2)
            return [block(mdecl([x, y], comma(self.val(I32), self.val(STR))), *self.seq(sc + [{x: I32, y: STR}], d))]
        if k == 8:
            x = r.choice(self.names)
            return [for_(decl(x, lit(0)), bin_("<", var(x), lit(3)), asg(var(x), bin_("+", var(x), lit(1))),
                         block(if_(bin_("==", var(x), lit(1)), block(*self.seq_loop(sc + [{x: I32}], d, x), cont())), self.use(sc + [{x: I32}])))]
        return [if_(cast(I1, lit(0)), block(*self.seq(sc, d)), cast(I1, lit(1)), block(*self.seq(sc, d)), block(*self.seq(sc, d)))]
    def seq_loop(self, sc, d, x):
        """a loop body that does not assign the counter"""
        names = self.names
        self.names = [y for y in names if y != x]
        b = self.seq(sc, d)
        self.names = names
        # what it declares may have the counter's name all the same
        if self.r.random() < 0.3: b = b + [decl(x, self.val(STR)), ex(print_(var(x), NL))]
        return b
def scopes(rng, n, d=3, bad=0.0):
    for _ in range(n):
        g = Scopes(rng, bad=bad)
        gl = {}
        ds = []
        for x in "wxyz":
            if rng.random() < 0.5: ds.append(decl(x, g.val(I32))); gl[x] = I32
        fs = []
        for j in range(2):
            ps = {x: rng.choice([I32, STR]) for x in rng.sample("wxyz", rng.randrange(0, 3))}
            fs.append((func("f%d" % j, list(ps.items()), VOID, block(*g.seq([gl, ps], d - 1))), ps))
        ss = []
        for f, ps in fs:
            ss.append(ex(call(f["s"], *[g.val(t) for t in ps.values()])))
        ss = g.seq([gl], d) + ss + [g.use([gl])] + [ex(call(f["s"], *[g.val(t) for t in ps.values()])) for f, ps in fs]
        # the names of main's own scope are still visible at its end: use only what is global
        yield P(ds + [f for f, _ in fs] + [main(block(*ss))], "scopes" if not bad else "scopes, undefined names")

# ---- values of every kind ------------------------------------------------------------
class Shapes:
    """types, made of few structs, with values and the places they consist of"""
    def __init__(self, rng, fns=False):
        self.r = rng; self.k = 0; self.structs = []; self.fields = {}; self.fns = fns
    def scalar(self):
        return self.r.choice(INTS + [I1, F32, F64, STR, I32])
    def build(self, n=3):
        for j in range(n):
            fs = []
            for i in range(self.r.randrange(1, 4)):
                fs.append(("f%d" % i, self.any(1)))
            self.structs.append("S%d" % j); self.fields["S%d" % j] = fs
        return [struct(s, self.fields[s]) for s in self.structs]
    def any(self, d=2):
        k = self.r.random()
        if k < 0.4 or d == 0: return self.scalar()
        if k < 0.7 and self.structs: return nm(self.r.choice(self.structs))
        return arr(self.r.randrange(1, 4), self.any(d - 1))
    def agg(self):
        while True:
            t = self.any(2)
            if t[0] in ("name", "arr"): return t
    def value(self, t):
        self.k += 1
        k = t[0]
        if k in "iu" and len(k) == 1: return num(self.k * 37 % 251 if t[1] != 1 else self.r.randrange(2), t)
        if k == "f": return flt(self.k * 3) if t == F32 else cast(F64, flt(self.k * 5))
        if t == STR: return string("s%d" % self.k)
        if k == "name": return slit(t[1], [(f, self.value(ft)) for f, ft in self.fields[t[1]]])
        if k == "arr": return alit(t, [self.value(t[2]) for _ in range(t[1])])
        raise ValueError(t)
    def leaves(self, t):
        """paths to the scalars: functions from an expression to an expression"""
        k = t[0]
        if k == "name":
            return [(lambda e, f=f, g=g: g(dot(e, f)), lt) for f, ft in self.fields[t[1]] for g, lt in self.leaves(ft)]
        if k == "arr":
            return [(lambda e, i=i, g=g: g(idx(e, lit(i))), lt) for i in range(t[1]) for g, lt in self.leaves(t[2])]
        return [(lambda e: e, t)]
    def show(self, e, t):
        """statements that print every scalar of e (e is a function that makes the expression)"""
        ls = self.leaves(t)
        return [ex(print_(*[g(e()) for g, _ in ch], NL)) for ch in chunks(ls, 8)]
    def mutate(self, e, t):
        """change one or all scalars"""
        ls = self.leaves(t)
        return [asg(g(e()), self.value(lt)) for g, lt in (ls if self.r.random() < 0.3 else [self.r.choice(ls)])]

def aggregates(rng, n, per=4):
    """copy a value from one place to another, then change one of them and look at both"""
    for _ in range(n):
        s = Shapes(rng)
        types = s.build(3)
        fs, ss = [], []
        glob = []
        for j in range(per):
            t = s.agg() if rng.random() < 0.8 else s.scalar()
            a, b = "a%d" % j, "b%d" % j
            A, B = (lambda a=a: var(a)), (lambda b=b: var(b))
            k = rng.randrange(14)
            ss.append(decl(a, s.value(t)))
            if k == 0: ss.append(decl(b, A()))
            elif k == 1: ss += [decl(b, s.value(t)), asg(B(), A())]
            elif k == 2:
                fs.append(func("f%d" % j, [("p", t)], t, block(*s.mutate(lambda: var("p"), t), ret(var("p")))))
                ss.append(decl(b, call("f%d" % j, A())))
            elif k == 3:
                fs.append(func("f%d" % j, [("p", ptr(t))], t, block(ret(pre("*", var("p"))))))
                ss.append(decl(b, call("f%d" % j, pre("&", A()))))
            elif k == 4:
                ss.append(decl(b, alit(arr(2, t), [A(), s.value(t)])))
                B = lambda b=b: idx(var(b), lit(0))
                ss += s.show(lambda b=b: idx(var(b), lit(1)), t)
            elif k == 5:
                ss += [decl(b + "r", pre("&", A())), decl(b, pre("*", var(b + "r")))]
            elif k == 6:
                ss += [decl(b + "h", alloc(t, lit(2))), asg(idx(var(b + "h"), lit(1)), A()), asg(idx(var(b + "h"), lit(0)), s.value(t))]
                B = lambda b=b: idx(var(b + "h"), lit(1))
                ss += s.show(lambda b=b: pre("*", var(b + "h")) if t[0] not in ("name", "arr") else idx(var(b + "h"), lit(0)), t)
            elif k == 7:
                w = "W%d" % j
                types.append(struct(w, [("pre", I8), ("v", t), ("post", I16)]))
                ss += [decl(b, slit(w, [("pre", num(3, I8)), ("v", A()), ("post", num(4, I16))]))]
                B = lambda b=b: dot(var(b), "v")
                ss.append(pr(dot(var(b), "pre"), dot(var(b), "post")))
            elif k == 8:
                ss += [mdecl([b, b + "2"], comma(A(), lit(3)))]
            elif k == 9:
                ss += [decl(b, s.value(t)), decl(b + "2", s.value(t)), asg(comma(B(), var(b + "2")), comma(A(), B()))]
                ss += s.show(lambda b=b: var(b + "2"), t)
            elif k == 10:
                ss.append(decl(b, blk(t, block(decl("u", A()), *s.mutate(lambda: var("u"), t), ret(var("u"))))))
            elif k == 11:
                ss += [decl(b + "l", lam([], t, block(ret(A())))), *s.mutate(A, t), decl(b, call(b + "l"))]
            elif k == 12:
                fs.append(func("f%d" % j, [("p", t), ("q", t)], tlist([t, t]), block(*s.mutate(lambda: var("q"), t), ret(comma(var("q"), var("p"))))))
                ss += [mdecl([b, b + "2"], call("f%d" % j, A(), A()))] + s.show(lambda b=b: var(b + "2"), t)
            else:
                ss += [decl(b + "w", alit(arr(3, t), [s.value(t), A(), s.value(t)])), decl(b, idx(var(b + "w"), lit(1))), asg(idx(var(b + "w"), lit(0)), idx(var(b + "w"), lit(1))),
                       *s.mutate(lambda b=b: idx(var(b + "w"), lit(1)), t), *s.show(lambda b=b: idx(var(b + "w"), lit(0)), t), *s.show(lambda b=b: idx(var(b + "w"), lit(1)), t)]
            ss += s.show(B, t)
            ss += s.mutate(A, t); ss += s.show(B, t); ss += s.show(A, t)
            ss += s.mutate(B, t); ss += s.show(B, t); ss += s.show(A, t)
        if rng.random() < 0.5: fs, fm = [main(*ss)], fs; yield P(types + fs + fm, "aggregates")
        else: yield P(types + fs + [main(*ss)], "aggregates")

def pointers(rng, n, per=4):
    """pointers to every kind of place; arithmetic, double pointers, comparisons, heap"""
    for _ in range(n):
        s = Shapes(rng)
        types = s.build(2)
        fs, ss, gl = [], [], [decl("gx", lit(7)), decl("gy", num(9, U16))]
        for j in range(per):
            k = rng.randrange(9)
            a, p = "a%d" % j, "p%d" % j
            t = rng.choice(INTS + [F64, F32, STR, I1]) if rng.random() < 0.6 else s.agg()
            it = rng.choice(INTS)
            D = (lambda e: pre("*", e) if t[0] not in ("name", "arr") else idx(e, lit(0)))
            if k == 0:
                ss += [decl(a, s.value(t)), decl(p, pre("&", var(a))), *s.mutate(lambda: D(var(p)), t), *s.show(lambda: var(a), t), *s.mutate(lambda: var(a), t), *s.show(lambda: D(var(p)), t)]
                ss += [decl(p + "p", pre("&", var(p))), *s.mutate(lambda: D(pre("*", var(p + "p"))), t), *s.show(lambda: var(a), t),
                       asg(pre("*", pre("*", var(p + "p"))), s.value(t)), *s.show(lambda: var(a), t), pr(bin_("==", var(p), pre("*", var(p + "p"))))]
            elif k == 1:
                m = rng.randrange(2, 5)
                ss += [decl(a, alit(arr(m, t), [s.value(t) for _ in range(m)])), decl(p, pre("&", idx(var(a), lit(0))))]
                for i in range(m):
                    q = bin_("+", var(p), num(i, it))
                    ss += s.show(lambda: D(q), t)
                    if rng.random() < 0.5: ss += s.mutate(lambda: idx(var(p), num(i, it)), t)
                x = num(rng.randrange(m), it)
                ss += s.show(lambda: var(a), arr(m, t))
                ss += [decl(p + "e", bin_("+", var(p), lit(m))), *s.show(lambda: D(bin_("-", var(p + "e"), lit(1))), t), *s.show(lambda: D(bin_("-", var(p + "e"), num(m, it))), t),
                       pr(bin_("==", bin_("-", var(p + "e"), num(m, it)), var(p)), bin_("!=", var(p), var(p + "e")))]
                if it[0] == "i": ss += s.show(lambda: D(bin_("+", var(p + "e"), num(-1, it))), t) + s.show(lambda: idx(var(p + "e"), num(-1, it)), t)
            elif k == 2:
                m = rng.randrange(1, 5)
                ss += [decl(p, alloc(t, num(m, it)))] + [asg(idx(var(p), num(i, rng.choice(INTS))), s.value(t)) for i in range(m)]
                for i in range(m): ss += s.show(lambda: idx(var(p), num(i, it)), t)
                if rng.random() < 0.6:
                    m2 = rng.randrange(1, 7)
                    ss.append(asg(var(p), realloc(var(p), num(m2, it))))
                    ss += [asg(idx(var(p), lit(i)), s.value(t)) for i in range(m, m2)]
                    for i in range(m2): ss += s.show(lambda: idx(var(p), lit(i)), t)
                ss.append(ex(free(var(p))))
            elif k == 3:
                w = "W%d" % j
                types.append(struct(w, [("n", I32), ("v", t), ("next", ptr(nm(w)))]))
                nw = lambda v, nx: blk(ptr(nm(w)), block(decl("h", alloc(nm(w), lit(1))), asg(dot(var("h"), "n"), v), asg(dot(var("h"), "v"), s.value(t)), asg(dot(var("h"), "next"), nx), ret(var("h"))))
                ss += [decl(p, nw(lit(1), cast(ptr(nm(w)), lit(0))))]
                for i in range(rng.randrange(1, 4)): ss.append(asg(var(p), nw(lit(i + 2), var(p))))
                ss += [decl(p + "i", var(p)), for_(None, bin_("!=", var(p + "i"), cast(ptr(nm(w)), lit(0))), None,
                       block(pr(dot(var(p + "i"), "n")), *s.show(lambda: dot(var(p + "i"), "v"), t), asg(var(p + "i"), dot(var(p + "i"), "next"))))]
                ss += s.mutate(lambda: dot(dot(var(p), "next"), "v"), t) + s.show(lambda: dot(dot(var(p), "next"), "v"), t)
                ss += s.show(lambda: dot(pre("*", dot(var(p), "next")), "v"), t)
            elif k == 4:
                fs.append(func("f%d" % j, [("x", ptr(t)), ("y", ptr(t))], VOID, block(decl("c", pre("*", var("x"))), asg(pre("*", var("x")), pre("*", var("y"))), asg(pre("*", var("y")), var("c")))))
                ss += [decl(a, s.value(t)), decl(a + "b", s.value(t)), ex(call("f%d" % j, pre("&", var(a)), pre("&", var(a + "b")))), *s.show(lambda: var(a), t), *s.show(lambda: var(a + "b"), t)]
            elif k == 5:
                w = "W%d" % j
                types.append(struct(w, [("n", I8), ("v", t), ("m", I8)]))
                ss += [decl(a, slit(w, [("n", num(1, I8)), ("v", s.value(t)), ("m", num(2, I8))])), decl(p, pre("&", dot(var(a), "v"))), decl(p + "s", pre("&", var(a))),
                       *s.mutate(lambda: D(var(p)), t), *s.show(lambda: dot(var(p + "s"), "v"), t), asg(dot(var(p + "s"), "m"), num(5, I8)), pr(dot(var(a), "n"), dot(var(a), "m")),
                       asg(pre("*", pre("&", dot(var(p + "s"), "v"))), s.value(t)), *s.show(lambda: dot(var(a), "v"), t), pr(dot(var(a), "n"), dot(var(a), "m"))]
            elif k == 6:
                ss += [decl(p, pre("&", var("gx"))), asg(pre("*", var(p)), bin_("+", pre("*", var(p)), lit(j + 1))), pr(var("gx")), ex(pre("++", var("gx"))), pr(pre("*", var(p))), ex(pre("--", pre("*", var(p)))), pr(var("gx"))]
            elif k == 7:
                m = rng.randrange(1, 4)
                ss += [decl(a, alit(arr(m, ptr(t)), [blk(ptr(t), block(decl("h", alloc(t, num(1, it))), asg(pre("*", var("h")), s.value(t)), ret(var("h")))) for _ in range(m)]))]
                for i in range(m): ss += s.mutate(lambda: D(idx(var(a), lit(i))), t) if rng.random() < 0.5 else []
                for i in range(m): ss += s.show(lambda: D(idx(var(a), num(i, it))), t)
                ss += [pr(bin_("==", idx(var(a), lit(0)), idx(var(a), lit(m - 1))), pre("!", idx(var(a), lit(0))))]
            else:
                fs.append(func("f%d" % j, [("x", ptr(ptr(t)))], ptr(t), block(decl("o", pre("*", var("x"))), decl("h", alloc(t, lit(1))), asg(pre("*", var("h")), s.value(t)), asg(pre("*", var("x")), var("h")), ret(var("o")))))
                ss += [decl(a, s.value(t)), decl(p, pre("&", var(a))), decl(p + "o", call("f%d" % j, pre("&", var(p)))), *s.show(lambda: D(var(p)), t), *s.show(lambda: D(var(p + "o")), t),
                       pr(bin_("==", var(p + "o"), pre("&", var(a))), bin_("==", var(p), pre("&", var(a))))]
        yield P(gl + types + fs + [main(*ss)], "pointers")

# ---- functions -------------------------------------------------------------------------
def functions(rng, n, per=5):
    for _ in range(n):
        s = Shapes(rng); types = s.build(2)
        fs, ss = [], []
        for j in range(per):
            k = rng.randrange(10)
            f = "fn%d" % j
            if k == 9:       # the callee is looked up before the arguments, which may change it
                t = rng.choice(INTS)
                ft = fnt([t, t], t)
                w = "W%d" % j
                types.append(struct(w, [("k", I8), ("g", ft)]))
                fs += [func(f + x, [("a", t), ("b", t)], t, block(ret(bin_(o, var("a"), var("b"))))) for x, o in (("a", "+"), ("b", "-"), ("c", "^"))]
                fs += [func(f + "w", [("p", ptr(nm(w))), ("v", t)], t, block(asg(dot(var("p"), "g"), var(f + rng.choice("bc"))), ret(var("v"))))]
                h, v, a = "h%d" % j, "v%d" % j, "a%d" % j
                i_, q, m_ = "i%d" % j, "q%d" % j, "m%d" % j
                ss += [decl(h, slit(w, [("k", num(1, I8)), ("g", var(f + "a"))])), decl(v, var(f + "a")), decl(a, alit(arr(3, ft), [var(f + "a"), var(f + "b"), var(f + "c")])),
                       decl(i_, lit(0)), decl(q, pre("&", var(h))), decl(m_, lam([("x", t), ("y", t)], t, block(ret(bin_("*", var("x"), var("y"))))))]
                n2 = lambda: s.value(t)
                reset = [asg(dot(var(h), "g"), var(f + "a")), asg(var(v), var(f + "a")), asg(idx(var(a), lit(0)), var(f + "a")), asg(var(i_), lit(0))]
                by_h = lambda: call(f + "w", pre("&", var(h)), n2())
                by_b = lambda l, e: blk(t, block(asg(l, e), ret(n2())))
                by_v = lambda: by_b(var(v), var(f + rng.choice("bc")))
                by_a = lambda: by_b(idx(var(a), lit(0)), var(f + rng.choice("bc")))
                forms = [lambda: call(dot(var(h), "g"), by_h(), n2()), lambda: call(dot(var(h), "g"), n2(), by_h()), lambda: call(dot(var(q), "g"), by_h(), n2()),
                         lambda: call(v, by_v(), n2()), lambda: call(v, n2(), by_v()), lambda: call(idx(var(a), lit(0)), by_a(), n2()),
                         lambda: call(v, by_b(var(v), var(f + "c")), n2()), lambda: call(v, n2(), by_b(var(v), var(m_))), lambda: call(dot(var(h), "g"), n2(), by_b(dot(var(h), "g"), var(f + "b"))),
                         lambda: call(idx(var(a), var(i_)), by_b(var(i_), lit(2)), n2()), lambda: call(idx(var(a), var(i_)), n2(), by_b(idx(var(a), var(i_)), var(m_))),
                         lambda: call(v, call(v, n2(), by_v()), by_b(var(v), var(f + "b")))]
                for g in rng.sample(forms, rng.randrange(3, 7)): ss += reset + [pr(g()), pr(call(v, n2(), n2()), call(dot(var(h), "g"), n2(), n2()), call(idx(var(a), lit(0)), n2(), n2()))]
            elif k == 0:       # arity and types; the order of the parameters
                ts = [s.any(1) for _ in range(rng.randrange(0, 7))]
                ps = [("p%d" % i, t) for i, t in enumerate(ts)]
                b = [z for p, t in ps for z in s.show(lambda: var(p), t)]
                rt = s.any(1)
                fs.append(func(f, ps, rt, block(*b, ret(s.value(rt)))))
                ss += [decl("r%d" % j, call(f, *[s.value(t) for t in ts])), *s.show(lambda: var("r%d" % j), rt)]
                if rng.random() < 0.6:
                    v = "v%d" % j
                    ss += [decl(v, var(f)), decl(v + "r", call(v, *[s.value(t) for t in ts])), *s.show(lambda: var(v + "r"), rt)]
            elif k == 1:     # recursion
                it = rng.choice([I32, I64, U32, U64])
                one, two = num(1, it), num(2, it)
                fs.append(func(f, [("n", it)], it, block(if_(bin_("<", var("n"), two), block(ret(var("n")))), ret(bin_("+", call(f, bin_("-", var("n"), one)), call(f, bin_("-", var("n"), two)))))))
                ss.append(pr(call(f, num(rng.randrange(2, 8), it))))
            elif k == 2:     # mutual recursion, called before it is declared
                fs += [func(f, [("n", I32)], I1, block(if_(bin_("==", var("n"), lit(0)), block(ret(cast(I1, lit(1))))), ret(call(f + "o", bin_("-", var("n"), lit(1)))))),
                       func(f + "o", [("n", I32)], I1, block(if_(bin_("==", var("n"), lit(0)), block(ret(cast(I1, lit(0))))), ret(call(f, bin_("-", var("n"), lit(1))))))]
                ss.append(pr(call(f, lit(rng.randrange(9))), call(f + "o", lit(rng.randrange(9)))))
            elif k == 3:     # several results
                ts = [s.any(1) for _ in range(rng.randrange(2, 5))]
                fs.append(func(f, [("a", I32)], tlist(ts), block(if_(bin_(">", var("a"), lit(0)), block(ret(comma(*[s.value(t) for t in ts])))), ret(comma(*[s.value(t) for t in ts])))))
                ns = ["m%d_%d" % (j, i) for i in range(len(ts))]
                ss.append(mdecl(ns, call(f, lit(rng.randrange(2)))))
                for x, t in zip(ns, ts): ss += s.show(lambda: var(x), t)
                ss.append(asg(comma(*map(var, ns)), call(f, lit(rng.randrange(2)))))
                for x, t in zip(ns, ts): ss += s.show(lambda: var(x), t)
            elif k == 4:     # function pointers in arrays, structs and parameters
                t = rng.choice(INTS)
                op = lambda: bin_(rng.choice("+-*^"), var("a"), num(rng.randrange(1, 9), t))
                fs += [func(f + x, [("a", t)], t, block(ret(op()))) for x in "abc"]
                w = "W%d" % j
                ft = fnt([t], t)
                types.append(struct(w, [("k", I8), ("g", ft)]))
                fs.append(func(f, [("h", ft), ("x", t)], t, block(ret(call("h", call("h", var("x")))))))
                fs.append(func(f + "p", [("n", I32)], ft, block(if_(bin_("==", var("n"), lit(0)), block(ret(var(f + "a")))), ret(var(f + "b")))))
                ar = "ar%d" % j
                ss += [decl(ar, alit(arr(3, ft), [var(f + x) for x in rng.sample("abc", 3)])), decl(ar + "s", slit(w, [("k", num(1, I8)), ("g", var(f + "c"))])),
                       for_(decl("i", lit(0)), bin_("<", var("i"), lit(3)), ex(pre("++", var("i"))), block(pr(call(idx(var(ar), var("i")), num(5, t)), call(f, idx(var(ar), var("i")), num(3, t))))),
                       pr(call(dot(var(ar + "s"), "g"), num(7, t)), call(f, dot(var(ar + "s"), "g"), num(1, t)), call(f, var(f + "a"), num(2, t))),
                       asg(dot(var(ar + "s"), "g"), idx(var(ar), lit(1))), pr(call(dot(var(ar + "s"), "g"), num(7, t))),
                       decl(ar + "p", call(f + "p", lit(rng.randrange(2)))), pr(call(ar + "p", num(11, t)), call(f, call(f + "p", lit(rng.randrange(2))), num(4, t)))]
            elif k == 5:     # methods on structs, pointers to them and numbers
                st = rng.choice(s.structs)
                t = nm(st)
                ff, ft = rng.choice(s.fields[st])
                fs.append(func(f, [("self", t), ("k", I32)], I32, block(*s.show(lambda: var("self"), t), ret(bin_("+", var("k"), lit(1))))))
                fs.append(func(f + "m", [("self", ptr(t)), ("k", I32)], I32, block(*s.mutate(lambda: dot(var("self"), ff), ft), ret(bin_("*", var("k"), lit(2))))))
                it = rng.choice(INTS + [F64])
                fs.append(func(f + "n", [("x", it), ("y", it)], it, block(ret(bin_("-", var("x"), var("y"))))))
                v = "v%d" % j
                ss += [decl(v, s.value(t)), pr(call(dot(var(v), f), lit(4))), decl(v + "p", pre("&", var(v))), pr(call(dot(var(v + "p"), f + "m"), lit(5))), *s.show(lambda: var(v), t),
                       decl(v + "n", s.value(it)), pr(call(dot(var(v + "n"), f + "n"), s.value(it)), call(dot(call(dot(var(v + "n"), f + "n"), s.value(it)), f + "n"), s.value(it)))]
            elif k == 6:     # nothing returned, early return
                fs.append(func(f, [("a", I32)], VOID, block(if_(bin_(">", var("a"), lit(2)), block(tr(1), ret()), bin_(">", var("a"), lit(1)), block(tr(2))), tr(3))))
                ss += [ex(call(f, lit(i))) for i in range(4)] + [decl("v%d" % j, var(f)), ex(call("v%d" % j, lit(3)))]
            elif k == 7:     # parameters are copies
                t = s.any(2)
                fs.append(func(f, [("a", t), ("n", I32)], VOID, block(if_(bin_("==", var("n"), lit(0)), block(ret())), *s.mutate(lambda: var("a"), t), ex(call(f, var("a"), bin_("-", var("n"), lit(1)))), *s.show(lambda: var("a"), t))))
                ss += [decl("v%d" % j, s.value(t)), ex(call(f, var("v%d" % j), lit(rng.randrange(3)))), *s.show(lambda: var("v%d" % j), t)]
            else:            # ackermann, depth of local variables
                fs.append(func(f, [("m", I32), ("n", I32)], I32, block(decl("o", var("m")), if_(bin_("==", var("m"), lit(0)), block(ret(bin_("+", var("n"), lit(1)))), bin_("==", var("n"), lit(0)), block(ret(call(f, bin_("-", var("m"), lit(1)), lit(1))))),
                          decl("x", call(f, var("m"), bin_("-", var("n"), lit(1)))), ret(call(f, bin_("-", var("o"), lit(1)), var("x"))))))
                ss.append(pr(call(f, lit(rng.randrange(3)), lit(rng.randrange(3)))))
        m = [main(*ss)]
        ds = fs + m if rng.random() < 0.5 else m + fs
        yield P(types + ds, "functions")

def lambdas(rng, n, per=4):
    for _ in range(n):
        s = Shapes(rng); types = s.build(2)
        fs, ss = [], []
        for j in range(per):
            k = rng.randrange(8)
            a, l = "a%d" % j, "l%d" % j
            t = s.any(2)
            A = lambda a=a: var(a)
            if k == 0:       # captured by value when it is created
                ss += [decl(a, s.value(t)), decl(l, lam([], t, block(ret(A())))), *s.mutate(A, t), decl(a + "r", call(l)), *s.show(lambda: var(a + "r"), t), *s.show(A, t)]
            elif k == 1:     # changes of the captured copy stay inside
                ss += [decl(a, s.value(t)), decl(l, lam([], t, block(*s.mutate(A, t), ret(A())))), decl(a + "r", call(l)), *s.show(lambda: var(a + "r"), t), *s.show(A, t), decl(a + "q", call(l)), *s.show(lambda: var(a + "q"), t)]
            elif k == 2:     # several captures and parameters
                t2, t3 = s.any(1), s.any(1)
                ss += [decl(a, s.value(t)), decl(a + "b", s.value(t2)), decl(l, lam([("x", t3), ("y", I32)], VOID, block(*s.show(lambda: var("x"), t3), *s.show(A, t), *s.show(lambda: var(a + "b"), t2), pr(var("y"))))),
                       ex(call(l, s.value(t3), s.value(I32))), *s.mutate(lambda: var(a + "b"), t2), ex(call(l, s.value(t3), s.value(I32)))]
            elif k == 3:     # nested
                ss += [decl(a, s.value(t)), decl(a + "b", s.value(I32)),
                       decl(l, lam([("x", I32)], I32, block(decl("i", lam([("y", I32)], I32, block(*s.show(A, t), ret(bin_("+", bin_("+", var("x"), var("y")), var(a + "b")))))), ret(bin_("+", call("i", lit(1)), call("i", var("x"))))))),
                       pr(call(l, lit(10))), pr(call(l, lit(20)))]
            elif k == 4:     # passed to a function, returned from a function
                f = "f%d" % j
                fs.append(func(f, [("g", fnt([I32], I32)), ("n", I32)], I32, block(decl("s", lit(0)), for_(decl("i", lit(0)), bin_("<", var("i"), var("n")), ex(pre("++", var("i"))), block(asg(var("s"), bin_("+", var("s"), call("g", var("i")))))), ret(var("s")))))
                fs.append(func(f + "m", [("k", I32)], fnt([I32], I32), block(ret(lam([("x", I32)], I32, block(ret(bin_("*", var("x"), var("k")))))))))
                ss += [decl(a, s.value(I32)), pr(call(f, lam([("x", I32)], I32, block(ret(bin_("+", var("x"), A())))), lit(4))), decl(l, call(f + "m", s.value(I32))), pr(call(l, lit(3)), call(f, var(l), lit(3)))]
            elif k == 5:     # created in a loop, each captures the counter
                ss += [decl(l, lam([], I32, block(ret(lit(0))))),
                       for_(decl("i", lit(0)), bin_("<", var("i"), lit(3)), ex(pre("++", var("i"))), block(asg(var(l), lam([], I32, block(ret(bin_("*", var("i"), lit(7)))))), pr(call(l)))), pr(call(l))]
            elif k == 6:     # in a struct and an array
                w = "W%d" % j
                types.append(struct(w, [("g", fnt([I32], t)), ("n", I32)]))
                ss += [decl(a, s.value(t)), decl(l, slit(w, [("g", lam([("x", I32)], t, block(if_(bin_(">", var("x"), lit(1)), block(*s.mutate(A, t))), ret(A())))), ("n", lit(2))])),
                       decl(a + "r", call(dot(var(l), "g"), lit(1))), *s.show(lambda: var(a + "r"), t), decl(a + "q", call(dot(var(l), "g"), lit(2))), *s.show(lambda: var(a + "q"), t), *s.show(A, t)]
            else:            # captures a parameter and a pointer: what is pointed to is shared
                f = "f%d" % j
                fs.append(func(f, [("p", t), ("q", ptr(t))], VOID, block(decl("l", lam([], t, block(asg(pre("*", var("q")), var("p")), ret(var("p"))))), *s.mutate(lambda: var("p"), t), decl("r", call("l")), *s.show(lambda: var("r"), t), *s.show(lambda: var("p"), t))))
                ss += [decl(a, s.value(t)), decl(a + "b", s.value(t)), ex(call(f, A(), pre("&", var(a + "b")))), *s.show(lambda: var(a + "b"), t)]
        yield P(types + fs + [main(*ss)], "anonymous functions")

# ---- layout ------------------------------------------------------------------------------
def layouts(rng, n, per=10):
    """sizes of structs, unions, arrays and pointers; the fields around a written one keep their value"""
    for _ in range(n):
        s = Shapes(rng)
        types, ss = [], []
        names = []
        base = INTS + [I1, F32, F64, STR, ptr(I64), fnt([I32], I32), fnt([], I8)]
        for j in range(per):
            k = rng.random()
            pick = lambda: rng.choice(base) if rng.random() < 0.5 else arr(rng.randrange(1, 5), rng.choice(base)) if rng.random() < 0.4 or not names else (nm(rng.choice(names)) if rng.random() < 0.6 else arr(rng.randrange(1, 4), rng.choice(base + [nm(x) for x in names])))
            fs = [("f%d" % i, pick()) for i in range(rng.randrange(0 if k < 0.08 else 1, 6))]
            types.append((union if k > 0.75 and fs else struct)("T%d" % j, fs))
            names.append("T%d" % j)
        if rng.random() < 0.5:
            rng.shuffle(types)
        # every type between two bytes
        for x in names:
            types.append(struct("B" + x, [("a", I8), ("m", nm(x)), ("z", I8)])); ss.append(pr(sizeof(nm("B" + x))))
        for x in names:
            ss.append(pr(sizeof(nm(x)), sizeof(arr(rng.randrange(1, 4), nm(x))), sizeof(ptr(nm(x)))))
        ss.append(pr(*[sizeof(t) for t in base]))
        yield P(types + [main(*ss)], "layout")
def neighbours(rng, n):
    for _ in range(n):
        s = Shapes(rng)
        types = s.build(4)
        ss = []
        for j, st in enumerate(s.structs):
            t = nm(st)
            ss += [decl("v%d" % j, alit(arr(3, t), [s.value(t) for _ in range(3)])), decl("h%d" % j, alloc(t, lit(3)))]
            ss += [asg(idx(var("h%d" % j), lit(i)), idx(var("v%d" % j), lit(i))) for i in range(3)]
            for g, lt in s.leaves(t):
                ss.append(asg(g(idx(var("v%d" % j), lit(1))), s.value(lt)))
                if rng.random() < 0.4: ss += s.show(lambda: var("v%d" % j), arr(3, t))
                ss.append(asg(g(idx(var("h%d" % j), lit(1))), s.value(lt)))
            ss += s.show(lambda: var("v%d" % j), arr(3, t))
            for i in range(3): ss += s.show(lambda: idx(var("h%d" % j), lit(i)), t)
        yield P(types + [main(*ss)], "neighbours")

# ---- unions ----------------------------------------------------------------------------------
def unions(rng, n, per=3):
    for _ in range(n):
        s = Shapes(rng); types = s.build(2)
        fs, ss = [], []
        for j in range(per):
            ts = []
            for _ in range(rng.randrange(2, 6)):
                t = rng.choice(INTS + [arr(rng.choice([2, 4, 8]), rng.choice([I8, U8, U16])), F64, F32, STR] + [nm(x) for x in s.structs] + [ptr(I32)])
                if t not in ts and t != ptr(I32): ts.append(t)
            if not ts: ts = [I32]
            u = "U%d" % j
            types.append(union(u, [("m%d" % i, t) for i, t in enumerate(ts)]))
            v = "u%d" % j
            V = lambda: var(v)
            def isint(w): return w[0] in "iu" and len(w[0]) == 1
            def bits(w): return w[1] if isint(w) else w[1] * w[2][1] if w[0] == "arr" else 0
            ini = [0]            # so many bits of the union have been written
            def all_views():
                out = []
                for i, w in enumerate(ts):
                    if 0 < bits(w) <= ini[0]: out += s.show(lambda: dot(V(), "m%d" % i), w)
                return out
            def views(e, t):
                out = []
                for i, w in enumerate(ts):
                    if w == t or (w[0] in "iu" and len(w[0]) == 1 and t[0] in "iu" and len(t[0]) == 1 and w[1] <= t[1]) or \
                       (w[0] == "arr" and t[0] in "iu" and len(t[0]) == 1 and w[1] * w[2][1] <= t[1]) or (t[0] == "arr" and w[0] in "iu" and len(w[0]) == 1 and w[1] <= t[1] * t[2][1]):
                        out += s.show(lambda: dot(e(), "m%d" % i), w)
                return out
            t0 = rng.choice(ts)
            ss.append(decl(v, s.value(t0), nm(u))); ss += views(V, t0); ini[0] = bits(t0)
            if rng.random() < 0.5:      # byte by byte, and around it
                for i, t in sorted(enumerate(ts), key=lambda x: -bits(x[1])):
                    if bits(t): ss.append(asg(dot(V(), "m%d" % i), s.value(t))); ini[0] = max(ini[0], bits(t)); ss += all_views()
            for _ in range(rng.randrange(2, 6)):
                i = rng.randrange(len(ts)); t = ts[i]
                k = rng.randrange(6)
                if k == 0: ss.append(asg(V(), s.value(t)))
                elif k == 1: ss.append(asg(dot(V(), "m%d" % i), s.value(t)))
                elif k == 2:
                    ss += [asg(dot(V(), "m%d" % i), s.value(t)), decl("c%d" % s.k, V())]
                    c = "c%d" % (s.k)
                    ss += [asg(dot(V(), "m%d" % i), s.value(t))] + views(lambda: var(c), t)
                elif k == 3:
                    f = "f%d_%d" % (j, s.k)
                    fs.append(func(f, [("p", nm(u))], nm(u), block(*s.show(lambda: dot(var("p"), "m%d" % i), t), asg(dot(var("p"), "m%d" % i), s.value(t)), ret(var("p")))))
                    ss += [asg(dot(V(), "m%d" % i), s.value(t)), decl("r" + f, call(f, V()))] + s.show(lambda: dot(V(), "m%d" % i), t) + s.show(lambda: dot(var("r" + f), "m%d" % i), t)
                elif k == 4:
                    ss += [decl("p%d" % s.k, pre("&", V()))]
                    p = "p%d" % s.k
                    ss += [asg(dot(var(p), "m%d" % i), s.value(t))]
                else:
                    w = "W%d_%d" % (j, s.k)
                    types.append(struct(w, [("a", I8), ("u", nm(u)), ("b", I8)]))
                    x = "x" + w
                    ss += [decl(x, slit(w, [("a", num(1, I8)), ("u", s.value(t)), ("b", num(2, I8))]))] + s.show(lambda: dot(dot(var(x), "u"), "m%d" % i), t)
                    ss += [asg(dot(dot(var(x), "u"), "m%d" % i), s.value(t)), pr(dot(var(x), "a"), dot(var(x), "b"), sizeof(nm(w)), sizeof(nm(u)))] + s.show(lambda: dot(dot(var(x), "u"), "m%d" % i), t)
                    ss += [asg(V(), s.value(t))]
                # assigning a member leaves the rest of the union's bytes alone
                ini[0] = max(ini[0], bits(t)) if k in (1, 2, 3, 4) and bits(t) else bits(t)
                ss += views(V, t) + all_views()
        yield P(types + fs + [main(*ss)], "unions")

# ---- strings and print ----------------------------------------------------------------------
TEXTS = ["", "a", "b", "ab", "aa", "abc", "B", " ", "hello world", "%d %s %%", "\n", "x\ny", "0", "\xe9", "\xff", "\x01", "~!@#$^&*()", "//x", "/* */", "'", "a" * 40]
def strings(rng, n):
    for _ in range(n):
        fs, ss = [], []
        k = 0
        xs = [rng.choice(TEXTS) for _ in range(5)]
        # memory that the program used before: what a string leaves out does not happen to be zero
        fs.append(func("dirt", [("n", I32), ("v", I8)], VOID, block(
            decl("p", alloc(I8, var("n"))), decl("q", alloc(I8, bin_("+", var("n"), lit(9)))),
            for_(decl("i", lit(0)), bin_("<", var("i"), var("n")), ex(pre("++", var("i"))), block(asg(idx(var("p"), var("i")), var("v")), asg(idx(var("q"), var("i")), var("v")))),
            ex(free(var("p"))), ex(free(var("q"))))))
        dirt = lambda: [ex(call("dirt", lit(rng.choice([1, 2, 3, 5, 9, 24, 25, 40, 60])), cast(I8, lit(rng.randint(33, 126))))) for _ in range(rng.randrange(1, 5))]
        gl = []
        for i, x in enumerate(xs):             # the first two never change
            d = decl("s%d" % i, string(x), rng.choice([NONE, NONE, STR]), const=i < 2 and rng.random() < 0.6)
            (gl if rng.random() < 0.3 else ss).append(d)
        if rng.random() < 0.7: ss += dirt()
        sx = lambda: var("s%d" % rng.randrange(5)) if rng.random() < 0.7 else string(rng.choice(TEXTS))
        fs.append(func("id", [("s", STR)], STR, block(ret(var("s")))))
        fs.append(func("join", [("a", STR), ("b", STR), ("c", STR)], STR, block(ret(bin_("+", bin_("+", var("a"), var("b")), var("c"))))))
        fs.append(func("rep", [("s", STR), ("n", I32)], STR, block(decl("r", string("")), for_(decl("i", lit(0)), bin_("<", var("i"), var("n")), ex(pre("++", var("i"))), block(asg(var("r"), bin_("+", var("r"), var("s"))))), ret(var("r")))))
        fs.append(func("len", [("s", STR)], I32, block(decl("n", lit(0)), for_(None, bin_("!=", idx(var("s"), var("n")), cast(I8, lit(0))), None, block(ex(pre("++", var("n"))))), ret(var("n")))))
        for _ in range(14):
            q = rng.randrange(11)
            if q == 0: ss.append(pr(*[bin_(o, sx(), sx()) for o in CMP]))
            elif q == 1: ss.append(pr(bin_("+", sx(), sx()), bin_("+", sx(), bin_("+", sx(), sx()))))
            elif q == 2: ss.append(asg(var("s%d" % rng.randrange(2, 5)), bin_("+", sx(), sx())))
            elif q == 3: ss.append(pr(call("join", sx(), sx(), sx()), call("len", sx())))
            elif q == 4: ss.append(pr(call("rep", sx(), lit(rng.randrange(4))), call("id", sx())))
            elif q == 5: ss.append(pr(bin_(rng.choice(CMP), bin_("+", sx(), sx()), bin_("+", sx(), sx()))))
            elif q == 6:
                k += 1
                ss += [decl("c%d" % k, bin_("+", sx(), string("zz"))), asg(idx(var("c%d" % k), lit(0)), char(rng.choice([81, 33, 10, 32]))), pr(var("c%d" % k)), pr(*[var("s%d" % i) for i in range(5)])]
            elif q == 7: ss.append(if_(bin_(rng.choice(CMP), sx(), sx()), block(pr(sx())), block(pr(sx()))))
            elif q == 8:
                k += 1
                fs.append(func("k%d" % k, [("n", I32)], STR, block(decl("K", string(rng.choice(TEXTS)), const=True),
                    if_(bin_("==", var("n"), lit(0)), block(decl("K", bin_("+", var("K"), string("!"))) if rng.random() < 0.3 else decl("K2", var("K")), ret(var("K")))), if_(bin_("<", var("n"), lit(3)), block(ret(bin_("+", call("k%d" % k, bin_("-", var("n"), lit(1))), var("K"))))), ret(var("K")))))
                ss.append(pr(*[call("k%d" % k, lit(x)) for x in rng.sample(range(4), 2)]))
            elif q == 9:
                k += 1
                ss += [decl("L%d" % k, string(rng.choice(TEXTS)), const=True), decl("h%d" % k, lam([("x", STR)], STR, block(ret(bin_("+", var("x"), var("L%d" % k)))))), pr(call("h%d" % k, sx()), var("L%d" % k), idx(var("L%d" % k), lit(0)))]
            else: ss.append(asg(var("s%d" % rng.randrange(2, 5)), rng.choice([sx(), call("id", sx()), blk(STR, block(ret(sx())))])))
            if rng.random() < 0.2: ss += dirt()
        ss.append(pr(*[var("s%d" % i) for i in range(5)]))
        yield P(gl + fs + [main(*ss)], "strings")
def prints(rng, n):
    """every printable value, from every kind of place, many at once"""
    for _ in range(n):
        s = Shapes(rng)
        ts = [rng.choice(INTS + [I1, F32, F64, STR]) for _ in range(rng.randrange(3, 9))]
        types = [struct("T", [("f%d" % i, t) for i, t in enumerate(ts)])]
        bv = lambda t: num(rng.choice(bounds(t)), t) if len(t[0]) == 1 and t[0] in "iu" else (string(rng.choice(TEXTS)) if t == STR else (lambda e: e if t == F32 else cast(F64, e))(rng.choice([flt(x) for x in (0, 1, 7, 8, 100, 12345, 800000)] + [neg(flt(x)) for x in (1, 8, 999)])))
        fs = [func("f%d" % i, [], t, block(ret(bv(t)))) for i, t in enumerate(ts)]
        ss = [decl("t", slit("T", [("f%d" % i, bv(t)) for i, t in enumerate(ts)])), decl("p", pre("&", var("t")))]
        ss += [decl("v%d" % i, bv(t)) for i, t in enumerate(ts)] + [decl("a%d" % i, alit(arr(2, t), [bv(t), bv(t)])) for i, t in enumerate(ts)]
        for i, t in enumerate(ts):
            ss.append(ex(print_(*rng.sample([bv(t), dot(var("t"), "f%d" % i), dot(var("p"), "f%d" % i), call("f%d" % i), var("v%d" % i), idx(var("a%d" % i), lit(1)), pre("*", pre("&", var("v%d" % i)))], rng.randrange(1, 6)))))
            if rng.random() < 0.5: ss.append(ex(print_(NL)))
        ss.append(pr(*[dot(var("t"), "f%d" % i) for i in range(len(ts))]))
        ss.append(ex(print_(string("end"))))
        yield P(types + fs + [main(*ss)], "print")

# ---- globals and constants -----------------------------------------------------------------
def cexpr(rng, t, d, consts):
    """a constant expression of type t"""
    cs = [n for n, ct in consts if ct == t]
    if cs and rng.random() < 0.4: return var(rng.choice(cs))
    if t[0] == "f": 
        if d > 0 and rng.random() < 0.5:
            k = rng.randrange(4)
            if k == 0: return neg(cexpr(rng, t, d - 1, consts and [c for c in consts if rng.random() < 0.5]))
            if k == 1: return cast(t, cexpr(rng, rng.choice(INTS + [I1]), d - 1, consts))
            if k == 2: return cast(t, cexpr(rng, F64 if t == F32 else F32, d - 1, consts))
            return bin_(rng.choice("+-*/"), cexpr(rng, t, d - 1, consts), cexpr(rng, t, d - 1, consts))
        e = flt(rng.randrange(1, 400)) if rng.random() < 0.7 else fltd("%d.%d" % (rng.randrange(100), rng.randrange(1000)))
        e = e if t == F32 else cast(F64, e)
        return e
    if d > 0 and t != I1 and rng.random() < 0.65:
        op = rng.choice(["+", "-", "*", "&", "|", "^", "/", "%", "<<", ">>", "cast", "neg"])
        if op == "neg": return neg(cexpr(rng, t, d - 1, consts))
        if op in "/%": return bin_(op, cexpr(rng, t, d - 1, consts), poslit(rng.randrange(1, 9), t))
        if op in ("<<", ">>"): return bin_(op, cexpr(rng, t, d - 1, consts), lit(rng.randrange(t[1])))
        if op == "cast": return cast(t, cexpr(rng, rng.choice(INTS), d - 1, consts))
        return bin_(op, cexpr(rng, t, d - 1, consts), cexpr(rng, t, d - 1, consts))
    return poslit(rng.choice([0, 1, 2, 3, 7, 100, 127, 128, 255, 32767, 65535, 2**31 - 1, 2**32 - 1, 2**62]), t)
def poslit(v, t):
    if t[1] == 1: return cast(I1, lit(v & 1))
    v %= 1 << (t[1] - (t[0] == "i"))
    if t == I32: return lit(v)
    if t == I64 and v > 2**31 - 1: return lit(v)
    return cast(t, lit(v))
def globals_(rng, n):
    for _ in range(n):
        consts, vars_, gl = [], [], []
        ts = INTS + [I1, F32, F64]
        for j in range(rng.randrange(3, 9)):
            t = rng.choice(ts)
            isc = rng.random() < 0.5
            x = ("C%d" if isc else "g%d") % j
            gl.append(decl(x, cexpr(rng, t, 3, consts), t if rng.random() < 0.4 else NONE, const=isc))
            (consts if isc else vars_).append((x, t))
        if rng.random() < 0.5: gl.append(decl("gs", string(rng.choice(TEXTS)))); vars_.append(("gs", STR))
        for j in range(rng.randrange(3)): gl.append(decl("CS%d" % j, string(rng.choice(TEXTS)), rng.choice([NONE, STR]), const=True)); consts.append(("CS%d" % j, STR))
        fg = rng.random() < 0.4
        if fg: gl.append(decl("gf", var("fa"), rng.choice([NONE, fnt([I32], I32)])))
        show = lambda: [pr(*[var(x) for x, _ in consts + vars_], *([call("gf", lit(20))] if fg else []))]
        fs = [func("show", [], VOID, block(*show()))]
        body = []
        for x, t in vars_:
            v = string("new") if t == STR else flt(44) if t == F32 else cast(F64, flt(33)) if t == F64 else num(rng.choice(bounds(t)), t)
            body.append(asg(var(x), v))
            if rng.random() < 0.4 and t[0] in "iu" and len(t[0]) == 1 and t != I1: body.append(ex(pre("++", var(x))))
        if fg:
            fs += [func("fa", [("x", I32)], I32, block(ret(bin_("+", var("x"), lit(1))))), func("fb", [("x", I32)], I32, block(ret(bin_("*", var("x"), lit(2)))))]
            body.append(asg(var("gf"), rng.choice([var("fb"), var("fa"), lam([("y", I32)], I32, block(ret(bin_("-", var("y"), lit(7)))))])))
        fs.append(func("change", [], VOID, block(*body)))
        ss = show() + [ex(call("show"))]
        loc = list(consts)
        for j in range(rng.randrange(1, 5)):
            t = rng.choice(ts)
            x = rng.choice(["L%d" % j] + [n for n, _ in consts][:1])
            ss.append(decl(x, cexpr(rng, t, 2, loc), const=True))
            if rng.random() < 0.3: ss += [decl("f%d" % j, lam([], t, block(decl("K", cexpr(rng, t, 1, [(x, t)]), const=True), ret(bin_("+", var("K"), var(x)) if t != I1 else var("K"))))), pr(call("f%d" % j))]
            loc = [(n, q) for n, q in loc if n != x] + [(x, t)]
            ss.append(pr(var(x)))
        ints = [n for n, t in loc if t == I32]
        if ints:
            ss.append(sw(lit(rng.choice([0, 1, 2, 3, 7])), [(var(ints[0]), block(tr(1)))], block(tr(2))))
            ss.append(decl("u", bin_("+", var(ints[0]), lit(1)))); ss.append(pr(var("u")))
        ss += [ex(call("change")), *[pr(var(x)) for x, _ in vars_], ex(call("show"))]
        if vars_:
            x, t = rng.choice(vars_)
            ss += [decl("p", pre("&", var(x))), pr(bin_("==", var("p"), pre("&", var(x))), pre("*", var("p")))]
            ss += [block(decl(x, lit(5)), asg(var(x), lit(6)), pr(var(x))), pr(var(x))]
        ds = fs + [main(*ss)]
        if rng.random() < 0.5: ds = ds[::-1]
        # globals are declared in order; functions may come before them
        yield P(ds[:1] + gl + ds[1:] if rng.random() < 0.1 else gl + ds, "globals and constants")

# ---- block expressions -----------------------------------------------------------------------
def blocks(rng, n, per=5):
    for _ in range(n):
        s = Shapes(rng); types = s.build(2)
        fs, ss = [], []
        cnt = [0]
        def be(t, d, vis):
            """a block expression of type t; vis are integer variables that can be seen"""
            cnt[0] += 1
            v = "b%d" % cnt[0]
            body = []
            k = rng.randrange(7)
            cur = [vis]
            inner = lambda q=t: be(q, d - 1, cur[0]) if d > 0 and rng.random() < 0.6 else s.value(q)
            c = lambda: bin_(rng.choice(CMP), var(rng.choice(vis)), lit(rng.randrange(3)))
            body.append(decl(v, inner(I32) if rng.random() < 0.5 else lit(rng.randrange(4))))
            cur[0] = vis + [v]
            if rng.random() < 0.5: body.append(tr(cnt[0]))
            if k == 0: body += [ret(inner())]
            elif k == 1: body += [if_(c(), block(ret(inner()))), ret(inner())]
            elif k == 2: body += [if_(c(), block(ret(inner())), c(), block(tr(cnt[0]), ret(s.value(t))), block(ret(inner())))]
            elif k == 3: body += [sw(var(rng.choice(vis)), [(lit(0), block(ret(inner()))), (lit(1), block(tr(cnt[0])))], block(ret(s.value(t)))), ret(inner())]
            elif k == 4:
                i = "i%d" % cnt[0]
                body += [for_(decl(i, lit(0)), bin_("<", var(i), lit(4)), ex(pre("++", var(i))), block(tr(cnt[0]), if_(bin_(">", var(i), var(v)), block(ret(inner()))), if_(bin_("==", var(i), lit(2)), block(brk() if rng.random() < 0.5 else cont())))), ret(s.value(t))]
            elif k == 5:
                x = rng.choice(vis)
                body += [asg(var(x), bin_("+", var(x), lit(1))), block(decl(v, s.value(t)), ret(var(v)))]
            else:
                r_ = "r%d" % cnt[0]
                body += [decl(r_, inner()), *s.show(lambda: var(r_), t), ret(var(r_))]
            return blk(t, block(*body))
        for j in range(per):
            t = s.any(1); x = "x%d" % j
            k = rng.randrange(12)
            vis = ["n", "m"]
            e = lambda q=t: be(q, 2, vis)
            if k == 0: ss += [decl(x, e()), *s.show(lambda: var(x), t)]
            elif k == 1: ss += [pr(e(I32), bin_("+", e(I32), e(I32)), bin_("==", e(STR), string("s1")))]
            elif k == 2:
                f = "f%d" % j
                fs.append(func(f, [("a", t), ("n", I32)], I32, block(*s.show(lambda: var("a"), t), decl("m", lit(1)), ret(bin_("+", e(I32), var("n"))))))
                ss += [pr(call(f, e(), e(I32)))]
            elif k == 3: ss += [if_(e(I1), block(tr(900)), e(I1), block(tr(901)), block(tr(902)))]
            elif k == 4: ss += [decl(x, alit(arr(2, t), [e(), e()])), *s.show(lambda: var(x), arr(2, t)), pr(idx(var("ar"), bin_("&", e(I32), lit(1))))]
            elif k == 5: ss += [decl(x, s.value(t)), asg(var(x), e()), *s.show(lambda: var(x), t), asg(idx(var("ar"), bin_("&", e(I32), lit(1))), e(I32)), pr(idx(var("ar"), lit(0)), idx(var("ar"), lit(1)))]
            elif k == 6: ss += [for_(decl("i", lit(0)), bin_("&&", bin_("<", var("i"), lit(2)), e(I1)), asg(var("i"), bin_("+", var("i"), blk(I32, block(tr(77), ret(lit(1)))))), block(ex(e(I32))))]
            elif k == 7: ss += [decl(x, lam([("n", I32)], t, block(decl("m", lit(2)), ret(be(t, 1, ["n", "m"]))))), decl(x + "r", call(x, lit(1))), *s.show(lambda: var(x + "r"), t)]
            elif k == 8: ss += [sw(e(I32), [(lit(0), block(tr(1))), (lit(1), block(tr(2)))], block(tr(3))), mdecl([x, x + "b"], comma(e(), e(I32))), pr(var(x + "b")), *s.show(lambda: var(x), t)]
            elif k >= 10:       # places in the value of a block, found by other blocks
                q = arr(rng.choice([2, 4]), I32 if k == 10 else arr(2, I32))
                m = lit(q[1] - 1)
                in_ = lambda: idx(e(q), bin_("&", e(I32), m)) if q[2] == I32 else idx(idx(e(q), bin_("&", e(I32), m)), bin_("&", e(I32), lit(1)))
                o = idx(e(q), bin_("&", in_(), m))
                if q[2] != I32: o = idx(o, bin_("&", in_(), lit(1)))
                ss += [pr(o), decl(x, alit(arr(2, I32), [in_(), in_()])), pr(idx(var(x), bin_("&", in_(), lit(1))), bin_(rng.choice("+-*"), in_(), in_()))]
            else: ss += [decl(x, bin_(rng.choice(["&&", "||"]), e(I1), e(I1))), pr(var(x), var("n"), var("m"))]
        yield P(types + fs + [main(decl("n", lit(0)), decl("m", lit(1)), decl("ar", alit(arr(2, I32), [lit(5), lit(6)])), *ss, pr(var("n"), var("m")))], "block expressions")

# ---- modules and generics ----------------------------------------------------------------------
def modules(rng, n):
    """a module of generic containers, one of helpers that imports it, and a program that uses both"""
    for _ in range(n):
        T = nm("T")
        a_types = [rng.choice(INTS + [F64, STR, I1]) for _ in range(2)]
        gen_ds = [tparam("T"),
                  struct("Box", [("pre", I8), ("v", T), ("n", I32)]),
                  struct("Pair", [("a", T), ("b", nm("Box"))]),
                  decl("count", lit(0)),
                  decl("BASE", lit(rng.randrange(2, 50)), const=True),
                  func("make", [("v", T)], nm("Box"), block(asg(var("count"), bin_("+", var("count"), lit(1))), ret(slit("Box", [("pre", num(1, I8)), ("v", var("v")), ("n", var("count"))])))),
                  func("get", [("b", nm("Box"))], T, block(ret(dot(var("b"), "v")))),
                  func("set", [("b", ptr(nm("Box"))), ("v", T)], VOID, block(asg(dot(var("b"), "v"), var("v")), asg(dot(var("b"), "n"), bin_("+", dot(var("b"), "n"), var("BASE"))))),
                  func("size", [], I32, block(ret(bin_("+", sizeof(T), bin_("*", lit(100), sizeof(nm("Box"))))))),
                  func("pair", [("x", T)], nm("Pair"), block(ret(slit("Pair", [("a", var("x")), ("b", call("make", var("x")))])))),
                  func("apply", [("b", nm("Box")), ("f", fnt([T], T))], T, block(ret(call("f", dot(var("b"), "v"))))),
                  func("pick", [("l", arr(3, T)), ("i", I32)], T, block(ret(idx(var("l"), var("i"))))),
                  func("fill", [("v", T), ("n", I32)], ptr(T), block(decl("h", alloc(T, var("n"))), for_(decl("i", lit(0)), bin_("<", var("i"), var("n")), ex(pre("++", var("i"))), block(asg(idx(var("h"), var("i")), var("v")))), ret(var("h")))),
                  func("helper", [], I32, block(ret(lit(rng.randrange(100)))))]
        use_t = rng.choice([a_types[0], rng.choice(INTS)])
        mid_ds = [import_("gen", [use_t], 2), decl("total", num(rng.randrange(9), I64)),
                  struct("Box", [("k", I16)]),
                  alias("Key", rng.choice(INTS)),
                  func("helper", [("x", use_t)], use_t, block(decl("b", call(dot(var("gen"), "make"), var("x"))), ret(call(dot(var("gen"), "get"), var("b"))))),
                  func("calls", [], I32, block(asg(var("total"), bin_("+", var("total"), num(1, I64))), ret(dot(var("gen"), "count")))),
                  func("key", [("k", nm("Key"))], nm("Key"), block(ret(bin_("+", var("k"), cast(nm("Key"), lit(1)))))),
                  func("mine", [("b", nm("Box"))], I16, block(ret(dot(var("b"), "k"))))]
        s = Shapes(rng)
        ss = []
        imps = []
        for i, t in enumerate(a_types):
            m = "m%d" % i
            imps.append(import_(m, [t], 2))
            x = "x%d" % i
            M = lambda f, m=m: dot(var(m), f)
            ss += [decl(x, call(M("make"), s.value(t))), pr(dot(var(x), "pre"), dot(var(x), "v"), dot(var(x), "n"), call(M("get"), var(x)), call(M("size")), dot(var(m), "BASE"), dot(var(m), "count"))]
            stmts = [
                [ex(call(M("set"), pre("&", var(x)), s.value(t))), pr(dot(var(x), "v"), dot(var(x), "n"))],
                [pr(call(dot(var(x), "get")))],
                [decl(x + "p", pre("&", var(x))), ex(call(dot(var(x + "p"), "set"), s.value(t))), pr(dot(var(x), "v"))],
                [asg(dot(var(m), "count"), lit(rng.randrange(100))), pr(dot(var(m), "count")), asg(var(x), call(M("make"), s.value(t))), pr(dot(var(x), "n"))],
                [decl(x + "q", call(M("pair"), s.value(t))), pr(dot(var(x + "q"), "a"), dot(dot(var(x + "q"), "b"), "v"), dot(dot(var(x + "q"), "b"), "n"))],
                [pr(call(M("apply"), var(x), lam([("z", t)], t, block(ret(var("z"))))))],
                [pr(call(M("pick"), alit(arr(3, t), [s.value(t) for _ in range(3)]), lit(rng.randrange(3))))],
                [decl(x + "h", call(M("fill"), s.value(t), lit(3))), pr(idx(var(x + "h"), lit(2))), ex(free(var(x + "h")))],
                [decl(x + "s", slit("Box", [("pre", num(4, I8)), ("v", s.value(t)), ("n", lit(3))], m)), pr(call(M("get"), var(x + "s"))), pr(sizeof(qual(m, "Box")), sizeof(qual(m, "Pair")))],
                [decl(x + "t", call(M("make"), s.value(t)), qual(m, "Box")), asg(var(x + "t"), var(x)), pr(dot(var(x + "t"), "v"))],
                [decl(x + "f", M("get")), pr(call(x + "f", var(x)))],
                [pr(call(M("helper")), call("helper"))],
            ]
            for b in rng.sample(stmts, rng.randrange(3, len(stmts))): ss += b
        imps.append(import_("mid", [], 3))
        ss += [pr(call(dot(var("mid"), "helper"), s.value(use_t)), call(dot(var("mid"), "calls")), dot(var("mid"), "total")), pr(*[dot(var("m%d" % i), "count") for i in range(2)]),
               decl("k", slit("Box", [("k", num(77, I16))], "mid")), pr(call(dot(var("mid"), "mine"), var("k")), call(dot(var("k"), "mine")), sizeof(qual("mid", "Box"))),
               pr(call(dot(var("mid"), "calls")), dot(var("mid"), "total"))]
        rng.shuffle(imps)
        own = [func("helper", [], I32, block(ret(lit(1000)))), decl("count", lit(5)), func("show", [("k", qual("mid", "Box"))], I16, block(ret(dot(var("k"), "k"))))]
        ss += [pr(var("count"), call("show", var("k")))]
        if rng.random() < 0.1: ss.append(pr(call(dot(var("k"), "show"))))
        # where the files are says nothing about what they are
        fg, fm = rng.choice([("gen.cd", "mid.cd"), ("gen.cd", "mid.cd"), ("lib/util.cd", "util.cd"), ("util.cd", "lib/util.cd"), ("a/util.cd", "b/util.cd"), ("lib/gen.cd", "lib/mid.cd"),
                             ("lib/sub/mod.cd", "lib/mod.cd"), ("lib/main.cd", "lib/sub/main.cd")])
        yield Program([("main.cd", imps + own + [main(*ss)]), (fg, gen_ds), (fm, mid_ds)], "modules")

PATHS = ["util.cd", "lib/util.cd", "a/util.cd", "a/b/util.cd", "lib/a.cd", "a.cd", "b.cd", "main2.cd", "a/main.cd", "lib/b.cd", "utilcd.cd", "lib/lib.cd"]
def module_graph(rng, n):
    """import graphs: the same names everywhere, the same file through several paths and with several types"""
    for _ in range(n):
        m = rng.randrange(2, 6)
        paths = ["main.cd"] + rng.sample(PATHS, m)
        par = [None] + [rng.random() < 0.4 for _ in range(m)]
        mods = [None] * (m + 1)
        ALL = "main" if rng.random() < 0.2 else "all"     # a main that nothing starts is a function like any other
        for i in range(m, -1, -1):
            ds = []
            T = nm("T")
            if i and par[i]: ds.append(tparam("T"))
            ims = []
            later = list(range(i + 1, m + 1))
            for j in rng.sample(later, min(len(later), rng.randrange(1 if i == 0 else 0, 4))) + ([rng.choice(later)] if later and rng.random() < 0.4 else []):
                if i == 0 and len(ims) < 1: j = 1
                nme = rng.choice("abcxyz") + ("%d" % len(ims) if rng.random() < 0.8 else "")
                if nme in [x[0] for x in ims]: nme = "q%d" % len(ims)
                t = None
                if par[j]: t = T if i and par[i] and rng.random() < 0.4 else rng.choice([I8, I32, I64, U8, F64, STR, ptr(I32), arr(2, I16)] + [qual(ims[k][0], "S") for k in range(len(ims))])
                ims.append((nme, j, t))
            # imports come in the order in which types name them
            ds += [import_(x, [t] if t else [], j + 1) for x, j, t in ims]
            fs = rng.sample([("p", I8), ("v", rng.choice([I32, I64])), ("w", U16)], rng.randrange(1, 4))
            if not any(f == "v" for f, _ in fs): fs.append(("v", I32))
            vt = dict(fs)["v"]
            if i and par[i] and rng.random() < 0.7: fs.insert(rng.randrange(len(fs) + 1), ("t", T))
            for k, (x, j, t) in enumerate(ims):
                if rng.random() < 0.3: fs.insert(0, ("m%d" % k, qual(x, "S")))
            pub_ = [f for f, _ in fs]
            K = rng.randrange(1, 1000)
            ds += [struct("S", fs), decl("count", lit(rng.randrange(100))), decl("ID", lit(K), const=True)]
            def dflt(ft): return None
            lines = [asg(dot(var("s"), "v"), num(K, vt))]
            for f, ft in fs:
                if ft in (I8, U16): lines.append(asg(dot(var("s"), f), num(K % 100 + 1, ft)))
            ds += [func("id", [], I32, block(asg(var("count"), bin_("+", var("count"), lit(1))), ret(bin_("+", var("ID"), bin_("*", var("count"), lit(1000)))))),
                   func("mk", [("s", ptr(nm("S")))], VOID, block(*lines)),
                   func("size", [], I32, block(ret(bin_("+", sizeof(nm("S")), bin_("*", lit(1000), sizeof(T) if i and par[i] else lit(0)))))),
                   func("show", [("s", nm("S")), ("k", I32)], vt, block(ret(bin_("+", dot(var("s"), "v"), cast(vt, bin_("+", var("k"), var("ID"))))))),
                   func("up", [("s", ptr(nm("S")))], VOID, block(asg(dot(var("s"), "v"), bin_("+", dot(var("s"), "v"), cast(vt, var("ID"))))))]
            body = []
            for x, j, t in ims:
                X = lambda f: dot(var(x), f)
                k = len(body)
                # through a pointer, so that nothing need be known about the fields
                us = [[pr(call(X("id")), dot(var(x), "count"), dot(var(x), "ID"), call(X("size")), sizeof(qual(x, "S")))],
                      [decl("h%d" % k, alloc(qual(x, "S"), lit(1))), ex(call(X("mk"), var("h%d" % k))), ex(call(dot(var("h%d" % k), "up"))),
                       pr(dot(var("h%d" % k), "v"), call(X("show"), pre("*", var("h%d" % k)), lit(5)), call(dot(pre("*", var("h%d" % k)), "show"), lit(7)))],
                      [asg(dot(var(x), "count"), lit(rng.randrange(50))), pr(call(X("id")))],
                      [decl("f%d" % k, X("id")), pr(call("f%d" % k))],
                      [ex(call(X(ALL), lit(1)))],
                      [pr(call("id"))]]
                for u in rng.sample(us, rng.randrange(2, len(us) + 1)): body += u
            deep = func(ALL, [("d", I32)], VOID, block(pr(lit(K), var("d")), *body))
            if i == 0: ds.append(main(*body, decl("mine", alloc(nm("S"), lit(1))), ex(call("mk", var("mine"))), ex(call(dot(var("mine"), "up"))), pr(call(dot(pre("*", var("mine")), "show"), lit(3)), call("size"), call("id"))))
            else: ds.append(deep)
            mods[i] = (paths[i], ds)
        # modules that nothing imports stay out of the comparison of files, not of the program
        yield Program(mods, "module graphs")

# ---- conditional compilation -------------------------------------------------------------------
CONDS = [0, 0, 1, 2, 10, 255, 256, 65536, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**33, 3 * 2**40, 2**62, 2**63 - 1, "LINUX", "WINDOWS", "MACOS", "X64", "ARM64", "ARM", "ARM64BE", "ARMBE"]
def macros(rng, n, bad=0.05):
    for _ in range(n):
        k = [0]; ds = []
        def stmts(d, vis):
            out = []
            for _ in range(rng.randrange(1, 5)):
                k[0] += 1
                q = rng.random()
                if d > 0 and q < 0.45:
                    c = rng.choice(CONDS)
                    m = macro(c, stmts(d - 1, vis))
                    if rng.random() < 0.1: m["c"].append(ret(lit(k[0] % 100)))
                    out.append(m)
                elif q < 0.6: out.append(decl("x", lit(k[0])))
                elif q < 0.65: out.append(if_(bin_(">", var("x"), lit(3)), block(*stmts(d - 1, vis)) if d > 0 else block(tr(k[0]))))
                elif q < 0.65 + bad: out.append(ex(call("nowhere", lit(1))))
                elif q < 0.8: out.append(pr(var("x")))
                else: out.append(tr(k[0]))
            return out
        # declarations, alternatives for several platforms
        for j in range(rng.randrange(1, 4)):
            kind = rng.randrange(4)
            alts = rng.sample(["LINUX", "WINDOWS", "MACOS"], 3)
            for a in alts:
                k[0] += 1
                if kind == 0: d_ = [func("p%d" % j, [], I32, block(tr(k[0]), ret(lit(k[0]))))]
                elif kind == 1: d_ = [struct("P%d" % j, [("a", rng.choice(INTS)), ("b", arr(k[0], I8))]), func("p%d" % j, [], I32, block(ret(sizeof(nm("P%d" % j)))))]
                elif kind == 2: d_ = [alias("P%d" % j, rng.choice(INTS)), func("p%d" % j, [], I32, block(ret(sizeof(nm("P%d" % j)))))]
                else: d_ = [decl("K%d" % j, lit(k[0]), const=rng.random() < 0.5), func("p%d" % j, [], I32, block(ret(bin_("+", var("K%d" % j), lit(1)))))]
                m = macro(a, d_)
                if rng.random() < 0.3: m = macro(rng.choice(["X64", 1, 3]), [m])
                ds.append(m)
            if rng.random() < 0.1: ds.append(macro("ARM64", [func("p%d" % j, [], I32, block(ret(string("no number"))))]))
            ds.append(("use", j))
        uses = [pr(call("p%d" % d_[1])) for d_ in ds if isinstance(d_, tuple)]
        ds = [d_ for d_ in ds if not isinstance(d_, tuple)]
        if rng.random() < 0.05: ds.append(macro("PLAN9", []))
        yield P(ds + [main(decl("x", lit(0)), *stmts(3, []), *uses)], "conditional compilation")

# ---- floats --------------------------------------------------------------------------------
# numbers as their bits, so that every one of them can be made and shown
import struct as pystruct, math
FBITS = {F32: ("<f", "<I", 23, 8), F64: ("<d", "<Q", 52, 11)}
def to_f(b, t): return pystruct.unpack(FBITS[t][0], pystruct.pack(FBITS[t][1], b))[0]
def to_b(v, t):
    try: return pystruct.unpack(FBITS[t][1], pystruct.pack(FBITS[t][0], v))[0]
    except OverflowError: return pystruct.unpack(FBITS[t][1], pystruct.pack(FBITS[t][0], math.copysign(math.inf, v)))[0]
def fbits(rng, t):
    """the bits of an interesting number"""
    mb, eb = FBITS[t][2:]
    bias = (1 << (eb - 1)) - 1; top = (1 << eb) - 1
    k = rng.random()
    if k < 0.25: return to_b(rng.choice([0.0, 1.0, -1.0, 0.5, 1.5, 2.0, 3.0, 0.1, -0.1, 10.0, 100.0, 1e10, 16777216.0, 16777217.0, 2147483648.0, 9007199254740992.0, 1e-5, -0.0, 0.0005, 0.0015, 0.3, -7.25, 1234.5678]), t)
    e = rng.choice([0, 0, 1, 2, top - 1, top - 1, top - 2, top, bias, bias - 1, bias + 1, bias + mb, bias + mb + 1, bias - mb, bias + mb - 1, bias + rng.randrange(-40, 70), bias // 2, bias + bias // 2, rng.randrange(top)])
    m = rng.choice([0, 0, 1, (1 << mb) - 1, 1 << (mb - 1), (1 << mb) - 2, rng.getrandbits(mb), rng.getrandbits(mb), rng.getrandbits(mb), rng.getrandbits(8), 3])
    if e == top: m = 0                        # infinity
    return rng.getrandbits(1) << (mb + eb) | e << mb | m
def farith(op, a, b):
    try:
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/": return a / b if b != 0 else math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
        return math.fmod(a, b) if b != 0 and not math.isinf(a) else math.nan
    except OverflowError: return math.inf
def fdec(rng, v):
    """a literal for v (or near to it), None when there is none"""
    from decimal import Decimal
    if math.copysign(1, v) < 0 or math.isinf(v) or math.isnan(v) or v > 3.4e38: return None
    s = format(Decimal(v), "f")
    if "." not in s: s += ".0"
    if len(s) > 60: s = s[:60]
    if s.endswith("."): return None
    return s
def floats(rng, n):
    old = float_exprs(rng, n)
    for j in range(n):
        k = j % 4
        yield next(old) if k == 3 else [float_ops, float_casts, float_literals][k](rng)
def fhelpers():
    fs = []
    for t, it in ((F32, I32), (F64, I64)):
        nm = "%d" % t[1]
        fs += [func("of" + nm, [("x", it)], t, block(ret(pre("*", cast(ptr(t), pre("&", var("x"))))))),
               func("show" + nm, [("x", t)], VOID, block(pr(pre("*", cast(ptr(it), pre("&", var("x"))))), pr(var("x"))))]
    return fs
def fnum(rng, b, t):
    """an expression for the number with these bits"""
    v = to_f(b, t); d = fdec(rng, v) if t == F32 and rng.random() < 0.4 else None
    if d: return fltd(d)
    it = I32 if t == F32 else I64
    return call("of%d" % t[1], num(b - (1 << t[1]) if b >> (t[1] - 1) else b, it))
def float_ops(rng):
    ss = []
    for j in range(5):
        t = rng.choice([F32, F64]); nm = "%d" % t[1]
        ba, bb = fbits(rng, t), fbits(rng, t)
        if rng.random() < 0.3:                # numbers that are near to each other
            bb = ba ^ rng.choice([1, 2, 3, 1 << rng.randrange(t[1]), 1 << (t[1] - 1), rng.getrandbits(8)])
            if math.isnan(to_f(bb, t)): bb = ba
        a, b = "a%d" % j, "b%d" % j
        ss += [decl(a, fnum(rng, ba, t)), decl(b, fnum(rng, bb, t))]
        va, vb = to_f(ba, t), to_f(bb, t)
        for op in "+-*/%":
            r = farith(op, va, vb)
            e = bin_(op, var(a), var(b))
            if op == "%" and va != 0 and vb != 0 and not math.isinf(va) and not math.isinf(vb) and math.frexp(va)[1] - math.frexp(vb)[1] > 120: continue
            if math.isnan(r):
                ss += [decl("n%d%d" % (j, ord(op)), e), pr(*[bin_(o, var("n%d%d" % (j, ord(op))), var(rng.choice([a, "n%d%d" % (j, ord(op))]))) for o in CMP]), pr(pre("!", var("n%d%d" % (j, ord(op)))))]
                if rng.random() < 0.5: ss.append(if_(var("n%d%d" % (j, ord(op))), block(tr(1)), block(tr(2))))
            else: ss.append(ex(call("show" + nm, e)))
        ss.append(pr(*[bin_(o, var(a), var(b)) for o in CMP]))
        if rng.random() < 0.5: ss += [ex(call("show" + nm, neg(var(a)))), pr(pre("!", var(b)))]
        if rng.random() < 0.3: ss += [ex(pre(rng.choice(["++", "--"]), var(a))), ex(call("show" + nm, var(a)))]
        if rng.random() < 0.3: ss += [if_(bin_("&&", pre("!", var(a)), pre("!", var(b))), block(tr(1)), var(b), block(tr(2)), block(tr(3)))]
    return P(fhelpers() + [main(*ss)], "arithmetic of floating point numbers")
def float_casts(rng):
    ss = []
    near = lambda n: [s * ((1 << k) + d) for k in n for d in (-2, -1, 0, 1, 2, 3) for s in (1, -1)]
    for j in range(8):
        k = rng.randrange(4)
        if k == 0:                            # integer -> floating point
            t = rng.choice([F32, F64]); it = rng.choice(INTS + [I1, I64, U64, U32, I32])
            lo, hi = (0, (1 << it[1]) - 1) if it[0] == "u" or it == I1 else (-(1 << (it[1] - 1)), (1 << (it[1] - 1)) - 1)
            vs = [v for v in near([8, 16, 23, 24, 25, 31, 32, 52, 53, 54, 61, 62, 63, 64]) + [rng.getrandbits(64) - (1 << 63), rng.getrandbits(64), rng.getrandbits(30), 0, 1] if lo <= v <= hi]
            e = cast(I1, lit(rng.randrange(2))) if it == I1 else num(rng.choice(vs), it)
            if rng.random() < 0.6: ss.append(decl("x%d" % j, e)); e = var("x%d" % j)
            ss.append(ex(call("show%d" % t[1], cast(t, e))))
        elif k == 1:                          # floating point -> integer
            t = rng.choice([F32, F64]); it = rng.choice(INTS)
            lo, hi = (0, (1 << it[1]) - 1) if it[0] == "u" else (-(1 << (it[1] - 1)), (1 << (it[1] - 1)) - 1)
            vs = []
            for _ in range(60):
                v = rng.choice([lo, hi, 0, 1, -1, hi // 2, rng.randrange(lo, hi + 1)]) + rng.choice([0, 0.5, -0.5, 0.999, -0.999, 0.25, 1, -1])
                v = to_f(to_b(float(v), t), t)
                if lo <= int(v) <= hi: vs.append(v)
            e = fnum(rng, to_b(rng.choice(vs), t), t)
            if rng.random() < 0.6: ss.append(decl("x%d" % j, e)); e = var("x%d" % j)
            ss.append(pr(cast(it, e)))
        elif k == 2:
            b = rng.choice([fbits(rng, F64), to_b(to_f(fbits(rng, F32), F32), F64) + rng.choice([0, 1, -1, 1 << 28, (1 << 28) + 1, (1 << 28) - 1, 3 << 28])]) % (1 << 64)
            if not math.isnan(to_f(b, F64)): ss.append(ex(call("show32", cast(F32, fnum(rng, b, F64)))))
        else: ss.append(ex(call("show64", cast(F64, fnum(rng, fbits(rng, F32), F32)))))
    return P(fhelpers() + [main(*ss)], "conversions of floating point numbers")
def float_literals(rng):
    ss, gs = [], []
    for j in range(8):
        k = rng.randrange(5)
        if k == 0: s = "%d.%s" % (rng.choice([0, 0, 1, 9, 12, 255, 16777217, 123456789, 2147483648, 9999999999]), "".join(rng.choice("0123456789") for _ in range(rng.randrange(1, 20))))
        elif k == 1: s = "0." + "0" * rng.randrange(45) + str(rng.randrange(1, 10**rng.randrange(1, 10)))
        elif k == 2:                          # exactly between two numbers, and next to that
            from decimal import Decimal, getcontext
            getcontext().prec = 200
            b = fbits(rng, F32) & 0x7fffffff
            if b >= 0x7f000000: b = 0x3f800000 + rng.getrandbits(23)
            s = format((Decimal(to_f(b, F32)) + Decimal(to_f(b + 1, F32))) / 2, "f")
            if "." not in s: s += ".0"
            if len(s) > 58: s = s[:58]
            elif rng.random() < 0.5: s += rng.choice(["0", "1", "01"])
            if s.endswith("."): s += "0"
        elif k == 3: s = rng.choice(["340282346638528859811704183484516925440.0", "340282346638528859811704183484516925440.5", "340282356779733661637539395458142568447.9", "0.00000000000000000000000000000000000000000000140129846432", "0.0000000000000000000000000000000000000000000007", "000012.50", "0.10", "1.0"])
        else: s = str(rng.getrandbits(rng.randrange(1, 127))) + ".0"
        e = fltd(s)
        if rng.random() < 0.3: e = neg(e)
        if rng.random() < 0.4: gs.append(decl("g%d" % j, e if rng.random() < 0.7 else cast(F64, e))); t = F64 if gs[-1]["c"][0]["k"] == "cast" else F32; e = var("g%d" % j)
        else: t = F32
        ss.append(ex(call("show%d" % t[1], e)))
    return P(gs + fhelpers() + [main(*ss)], "literals of floating point numbers")

def float_exprs(rng, n):
    for _ in range(n):
        ss = []
        fs = [func("f", [("a", F32), ("b", F64)], F64, block(ret(bin_("-", cast(F64, var("a")), var("b"))))),
              func("g", [("a", F64)], F32, block(ret(cast(F32, var("a")))))]
        fl = lambda t: (lambda v: (neg if rng.random() < 0.3 else (lambda x: x))(flt(v) if t == F32 else cast(F64, flt(v))))(rng.choice([0, 1, 4, 8, 8, 12, 16, 16, 24, 32, 56, 80, 96, 104, 800, 1001, 4000]))
        for j in range(4): ss.append(decl("v%d" % j, fl([F32, F64][j % 2])))
        def e(t, d):
            if d == 0: return fl(t) if rng.random() < 0.5 else var("v%d" % (rng.choice([0, 2]) + (t == F64)))
            k = rng.randrange(9)
            if k < 3: return bin_(rng.choice("+-"), e(t, d - 1), e(t, d - 1))
            if k == 3: return bin_("*", e(t, d - 1), fl(t))
            if k == 4: return bin_("/", e(t, d - 1), (lambda x: x if t == F32 else cast(F64, x))(flt(rng.choice([1, 2, 4, 8, 8, 16]))))
            if k == 5: return cast(t, e(F32 if t == F64 else F64, d - 1))
            if k == 6: return cast(t, num(rng.choice([-100, -1, 0, 1, 7, 100]), rng.choice([I8, I16, I32, I64])))
            if k == 7: return neg(e(t, d - 1))
            return call("f", e(F32, d - 1), e(F64, d - 1)) if t == F64 else call("g", e(F64, d - 1))
        for _ in range(3):
            t = rng.choice([F32, F64]); k = rng.randrange(7)
            if k == 0: ss.append(pr(e(t, 2), e(t, 1)))
            elif k == 1: ss.append(pr(*[bin_(o, e(t, 1), e(t, 1)) for o in rng.sample(CMP, 3)]))
            elif k == 2: ss.append(pr(cast(rng.choice([I8, I16, I32, I64]), e(t, 1))))
            elif k == 3: ss.append(asg(var("v%d" % (rng.choice([0, 2]) + (t == F64))), e(t, 2)))
            elif k == 4: ss.append(if_(e(t, 1), block(tr(1)), bin_(rng.choice(CMP), e(t, 1), e(t, 1)), block(tr(2)), block(tr(3))))
            elif k == 5: ss.append(ex(pre(rng.choice(["++", "--"]), var("v%d" % rng.randrange(4)))))
            else: ss.append(pr(bin_("%", e(t, 1), (lambda x: x if t == F32 else cast(F64, x))(flt(rng.choice([8, 16, 24, 4])))), pre("!", e(t, 1))))
        ss.append(pr(*[var("v%d" % j) for j in range(4)]))
        # small pieces: what is inexact in one does not hide the others
        yield P(fs + [main(*ss)], "floats")

# ---- order of declarations -------------------------------------------------------------------
def permutations(rng, n, gens=("functions", "modules", "aggregates", "layouts")):
    """the same declarations in several orders: types and functions may be used before they are declared"""
    for _ in range(n):
        g = rng.choice(gens + ("random", "random"))
        p = gen.program(rng, dict(nglobals=3, structs=3, unions=1, stmts=6)) if g == "random" else next(iter(globals()[g](rng, 1)))
        for _ in range(3):
            mods = []
            for f, ds in p.mods:
                fixed = [d for d in ds if d["k"] in ("import", "tparam", "decl")]
                free = [d for d in ds if d["k"] not in ("import", "tparam", "decl", "func")]
                fn = [d for d in ds if d["k"] == "func"]
                imp = [d for d in fixed if d["k"] != "decl"]; gl = [d for d in fixed if d["k"] == "decl"]
                rng.shuffle(free); rng.shuffle(fn)
                # types anywhere; globals in order and before the functions
                out = imp + gl + fn
                for d in free: out.insert(rng.randrange(len(imp), len(out) + 1), d)
                if rng.random() < 0.4:       # some of them inside of #if blocks, which change nothing
                    i = len(imp)
                    while i < len(out):
                        if rng.random() < 0.3:
                            k = rng.choice([1, 1, 1, 2, 3]); xs = out[i:i + k]
                            if len(xs) > 1 and rng.random() < 0.3: xs = [macro("X64", xs[:1])] + xs[1:]
                            out[i:i + k] = [macro(rng.choice([1, "LINUX", "X64", 7]), xs)]
                        i += 1
                mods.append((f, out))
            q = Program(mods, "order of declarations")
            yield q

# ---- mutations: programs that are almost right ------------------------------------------------
import copy
def nodes(prog):
    """(container, key, node) of every expression and statement"""
    out = []
    def go(c, k, n):
        out.append((c, k, n))
        for kk, v in n.items():
            if kk == "c":
                for i, x in enumerate(v): go(v, i, x)
            elif kk in ("b", "init", "cond", "upd", "def") and isinstance(v, dict): go(n, kk, v)
    for f, ds in prog.mods:
        for i, d in enumerate(ds): go(ds, i, d)
    return out
EXPR = {"int", "char", "flt", "str", "id", "bin", "pre", "dot", "idx", "call", "cast", "alloc", "realloc", "free", "sizeof", "print", "slit", "alit", "lam", "blk"}
STMT = {"decl", "mdecl", "asg", "ex", "if", "for", "sw", "ret", "brk", "cont", "block"}
def near_type(rng, t):
    """a type that differs from t in one place"""
    k = t[0]
    if k in ("arr", "*", "fn") and rng.random() < 0.5:
        if k == "arr": return arr(t[1], near_type(rng, t[2]))
        if k == "*": return ptr(near_type(rng, t[1]))
        ps = list(t[1])
        if ps and rng.random() < 0.6:
            i = rng.randrange(len(ps)); ps[i] = near_type(rng, ps[i])
            return fnt(ps, t[2])
        return fnt(ps, near_type(rng, t[2]))
    if k == "arr": return rng.choice([arr(t[1] + 1, t[2]), arr(max(t[1] - 1, 1), t[2]), arr(t[1] * 2, t[2]), t[2], ptr(t[2]), arr(t[1], t)])
    if k == "*": return rng.choice([t[1], ptr(t)])
    if k == "fn": return rng.choice([fnt(list(t[1]) + [I32], t[2]), fnt(list(t[1])[1:], t[2]), fnt(list(t[1])[:-1], t[2]), fnt(list(reversed(t[1])), t[2]), ptr(t)])
    if k in "iu" and len(t) == 2: return rng.choice([(k, max(8, t[1] // 2)), (k, min(64, max(8, t[1] * 2))), ("u" if k == "i" else "i", max(8, t[1])), ptr(t), arr(1, t), (k, 8)])
    if k == "f" and len(t) == 2: return rng.choice([F32, F64, I32])
    return rng.choice([ptr(t), arr(1, t), I32])
def types_in(n):
    """(container, key) of every type of a node"""
    out = [(n, k) for k in ("t", "rt") if isinstance(n.get(k), tuple) and n[k] != NONE]
    for k in ("ts", "pts"):
        if n.get(k):
            n[k] = list(n[k]); out += [(n[k], i) for i in range(len(n[k]))]
    return out
def mutate_types(rng, p):
    """one change that concerns types"""
    if rng.random() < 0.3:
        p = copy.deepcopy(p)
        ts = [x for _, _, n in nodes(p) for x in types_in(n)]
        if ts:
            c, i = rng.choice(ts); t = near_type(rng, c[i])
            if t[0] == "arr" or not (isinstance(c, dict) and c["k"] == "alit"): c[i] = t
            return p
    p = copy.deepcopy(p)
    ns = nodes(p)
    es = [(c, k, n) for c, k, n in ns if n["k"] in EXPR and not (isinstance(c, dict))]
    k = rng.randrange(12)
    types_ = INTS + [I1, F32, F64, STR, ptr(I32), arr(2, I32), fnt([I32], I32), VOID, ptr(VOID)] + [nm(d["s"]) for _, ds in p.mods[:1] for d in ds if d["k"] in ("struct", "union")] + [nm("Nope")]
    T = lambda: rng.choice(types_)
    def pick(f):
        l = [x for x in ns if f(x[2])]
        return rng.choice(l) if l else None
    if k <= 2:      # an expression where another one was
        a = rng.choice(es); b = rng.choice(es)
        a[0][a[1]] = copy.deepcopy(b[2])
    elif k == 3:    # a literal of another type
        a = rng.choice(es)
        a[0][a[1]] = rng.choice([lit(3), num(3, I64), flt(8), string("s"), char(65), cast(U8, lit(1)), cast(I1, lit(1)), cast(F64, flt(8)), alit(arr(2, I32), [lit(1), lit(2)])])
    elif k == 4:
        x = pick(lambda n: n["k"] == "decl")
        if x: x[2]["t"] = T()
    elif k == 5:
        x = pick(lambda n: n["k"] in ("func", "lam") and n["pts"])
        if x: i = rng.randrange(len(x[2]["pts"])); x[2]["pts"] = list(x[2]["pts"]); x[2]["pts"][i] = T()
    elif k == 6:
        x = pick(lambda n: n["k"] in ("func", "lam", "blk"))
        if x: x[2]["t" if x[2]["k"] == "blk" else "rt"] = T()
    elif k == 7:    # number of arguments
        x = pick(lambda n: n["k"] == "call")
        if x:
            c = x[2]["c"]
            if len(c) > 1 and rng.random() < 0.5: c.pop(rng.randrange(1, len(c)))
            else: c.insert(rng.randrange(1, len(c) + 1), rng.choice([lit(1), string("x")]))
    elif k == 8:
        x = pick(lambda n: n["k"] in ("cast", "alloc", "alit", "sizeof"))
        if x:
            t = T()
            if x[2]["k"] != "alit" or t[0] == "arr": x[2]["t"] = t
    elif k == 9:    # an operator
        x = pick(lambda n: n["k"] in ("bin", "pre"))
        if x: x[2]["op"] = rng.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "<", "&&", "||"] if x[2]["k"] == "bin" else ["-", "!", "*", "&", "++", "--"])
    elif k == 10:
        x = pick(lambda n: n["k"] in ("struct", "union") and n["ts"])
        if x: i = rng.randrange(len(x[2]["ts"])); x[2]["ts"] = list(x[2]["ts"]); x[2]["ts"][i] = T() if rng.random() < 0.8 else nm(x[2]["s"])
    else:           # fields and operands
        x = pick(lambda n: n["k"] in ("dot", "slit"))
        if x:
            if x[2]["k"] == "dot": x[2]["s"] = rng.choice(["f0", "f1", "nope", "v"])
            elif x[2]["fs"]: x[2]["fs"] = list(x[2]["fs"]); x[2]["fs"][rng.randrange(len(x[2]["fs"]))] = rng.choice(["f0", "f1", "nope"])
    return p
def mutate_static(rng, p):
    """one change that concerns names, constants, jumps and returns"""
    p = copy.deepcopy(p)
    ns = nodes(p)
    k = rng.randrange(11)
    names = sorted({n["s"] for _, _, n in ns if n["k"] in ("id", "decl", "func")} | {"nope"})
    def pick(f):
        l = [x for x in ns if f(x[2])]
        return rng.choice(l) if l else None
    bodies = [n for _, _, n in ns if n["k"] == "block"]
    if k <= 1:
        x = pick(lambda n: n["k"] == "id")
        if x: x[2]["s"] = rng.choice(names)
    elif k == 2:
        x = pick(lambda n: n["k"] in ("decl", "mdecl"))
        if x: x[2]["const"] = True
    elif k == 3:
        x = pick(lambda n: n["k"] == "decl")
        if x: x[2]["s"] = rng.choice(names)
    elif k <= 5:    # a return disappears
        x = pick(lambda n: n["k"] == "ret")
        if x and isinstance(x[0], list): x[0].pop(x[1])
    elif k == 6:
        b = rng.choice(bodies)["c"]
        b.insert(rng.randrange(len(b) + 1), rng.choice([brk(), cont()]))
    elif k == 7:    # a statement disappears
        b = rng.choice(bodies)["c"]
        if b: b.pop(rng.randrange(len(b)))
    elif k == 8:    # a statement moves elsewhere
        b = rng.choice(bodies)["c"]
        if b:
            x = b.pop(rng.randrange(len(b)))
            b = rng.choice(bodies)["c"]
            b.insert(rng.randrange(len(b) + 1), x)
    elif k == 9:    # a return without or with a value
        x = pick(lambda n: n["k"] == "ret")
        if x: x[2]["c"] = [] if x[2]["c"] and rng.random() < 0.5 else [lit(1)]
    else:           # an else or default disappears
        x = pick(lambda n: n["k"] == "if" and len(n["c"]) > 2 or n["k"] == "sw" and n["def"])
        if x:
            if x[2]["k"] == "if": x[2]["c"].pop(-1 if len(x[2]["c"]) % 2 else -1); x[2]["c"] = x[2]["c"][: len(x[2]["c"]) // 2 * 2]
            else: x[2]["def"] = None
    return p
def renders(p):
    try: p.files(); return True
    except Exception: return False
def mutated(rng, n, how, tag, base=None):
    base = base or ["functions", "aggregates", "lambdas", "blocks", "globals_", "modules", "pointers", "unions", "control"]
    i = 0
    pool = []
    while i < n:
        if not pool or rng.random() < 0.1:
            g = rng.choice(base + ["random"] * 6 * (len(base) > 1))
            if g == "random": q = gen.program(rng, dict(nfuncs=2, stmts=4, nest=2, floats=0.3))
            elif g == "control": q = next(iter(control(rng, 1, 2, 1)))
            else: q = next(iter(globals()[g](rng, 1, 1) if g in ("functions", "aggregates", "lambdas", "blocks", "pointers", "unions") else globals()[g](rng, 1)))
            pool.append(q)
            if len(pool) > 6: pool.pop(0)
        p = how(rng, rng.choice(pool))
        if not renders(p): continue
        p.tag = tag
        i += 1
        yield p
def type_errors(rng, n): return mutated(rng, n, mutate_types, "type mutations")
def static_errors(rng, n): return mutated(rng, n, mutate_static, "static mutations")
def extern_errors(rng, n): return itertools.chain(mutated(rng, n - n // 3, mutate_types, "type mutations", ["externs"]), mutated(rng, n // 3, mutate_static, "static mutations", ["externs"]))

# ---- functions that must return -----------------------------------------------------------------
def ret_shapes(d):
    """control structures with leaves: ('ret',) returns, ('no',) does not"""
    if d == 0: return [("ret",), ("no",)]
    sub = ret_shapes(d - 1)
    out = list(sub) if d == 1 else [("ret",), ("no",)]
    for a in sub:
        out += [("if", a), ("block", a), ("for", a), ("forever", a), ("while", a), ("sw", a), ("swonly", a)]
        for b in sub: out += [("ifelse", a, b), ("seq", a, b), ("swdef", a, b), ("ifelif", a, b), ("sw2", a, b)]
    for a in ret_shapes(d - 1)[:6] if d > 1 else sub:
        for b in ret_shapes(0):
            for c in ret_shapes(0): out += [("if3", a, b, c), ("if3", b, a, c), ("if3", b, c, a), ("sw3", a, b, c), ("sw3", b, c, a)]
    return out
def returns(rng, n, d=2):
    shapes = ret_shapes(1)
    more = ret_shapes(2)
    k = [0]
    def build(x):
        k[0] += 1
        t = x[0]; r = lambda i: block(*build(x[i]))
        c = lambda: bin_(rng.choice(["<", "==", ">"]), var("a"), lit(rng.randrange(4)))
        if t == "ret": return [ret(bin_("+", var("a"), lit(100 * k[0])))]
        if t == "no": return rng.choice([[], [tr(k[0])], [asg(var("b"), lit(k[0]))]])
        if t == "if": return [if_(c(), r(1))]
        if t == "ifelse": return [if_(c(), r(1), r(2))]
        if t == "ifelif": return [if_(c(), r(1), c(), r(2))]
        if t == "if3": return [if_(c(), r(1), c(), r(2), r(3))]
        if t == "block": return [block(*build(x[1]))]
        if t == "seq": return [block(*build(x[1])), block(*build(x[2]))] if rng.random() < 0.5 else build(x[1]) + build(x[2])
        if t == "for": i = "i%d" % k[0]; return [for_(decl(i, lit(0)), bin_("<", var(i), lit(2)), ex(pre("++", var(i))), r(1))]
        if t == "while": i = "i%d" % k[0]; return [decl(i, lit(0)), for_(None, bin_("<", var(i), lit(2)), None, block(ex(pre("++", var(i))), *build(x[1])))]
        if t == "forever": return [for_(None, None, None, block(*build(x[1]), *([] if rng.random() < 0.5 else [brk()])))]
        if t == "sw": return [sw(var("a"), [(lit(1), r(1))])]
        if t == "swonly": return [sw(var("a"), [], r(1))]
        if t == "swdef": return [sw(var("a"), [(lit(1), r(1))], r(2))]
        if t == "sw2": return [sw(var("a"), [(lit(1), r(1)), (lit(2), r(2))])]
        if t == "sw3": return [sw(var("a"), [(lit(0), r(1)), (lit(2), r(2))], r(3))]
    for i in range(n):
        x = rng.choice(shapes if rng.random() < 0.3 else more)
        while rng.random() < 0.75 and str(x).count("'no'") > 1: x = rng.choice(shapes if rng.random() < 0.3 else more)
        k[0] = 0
        body = build(x)
        if rng.random() < 0.35: body += build(("ret",))
        where = rng.randrange(5)
        pre_ = [decl("b", lit(0))]
        b = block(*pre_, *body)
        calls = [pr(call("f", lit(v))) for v in range(4)]
        if where <= 1: ds = [func("f", [("a", I32)], I32, b), main(*calls)]
        elif where == 2: ds = [main(decl("f", lam([("a", I32)], I32, b)), *calls)]
        elif where == 3: ds = [func("f", [("a", I32)], I32, block(ret(blk(I32, b)))), main(*calls)]
        else: ds = [func("f", [("a", I32)], tlist([I32, I32]), block(*pre_, *copy.deepcopy(body))), main(*[z for v in range(4) for z in (mdecl(["x%d" % v, "y%d" % v], call("f", lit(v))), pr(var("x%d" % v), var("y%d" % v)))])]
        if where == 4:
            for _, _, nd in nodes(Program(ds)):
                if nd["k"] == "ret" and nd["c"] and nd["c"][0]["k"] != "int": nd["c"] = [comma(nd["c"][0], lit(7))]
            ds[-1]["b"]["c"][-1] = ret(lit(0))
        yield P(ds, "returns")

# ---- what optimisers like to assume -----------------------------------------------------------------
def bait(rng, n, per=10):
    """values computed at run time whose overflow, sign or overlap an optimiser may only use when the language leaves it undefined"""
    for _ in range(n):
        fs, ss = [], []
        for j in range(per):
            t = rng.choice(INTS); N_ = t[1]; one = lambda: num(1, t)
            x, y = var("x"), var("y")
            k = lambda: num(rng.randrange(1, min(7, N_ - 1)), t)
            es = [bin_(rng.choice([">", "<", ">=", "<="]), bin_(rng.choice("+-"), x, one()), x), bin_(rng.choice([">", "<"]), bin_("+", x, y), x), bin_(rng.choice([">", "<"]), bin_("-", x, y), x),
                  bin_("==", bin_("/", bin_("*", x, num(2, t)), num(2, t)), x), bin_("/", bin_("*", x, y), y) if False else bin_("/", bin_("*", x, num(3, t)), num(3, t)),
                  bin_(">>", bin_("<<", x, lit(N_ // 2)), lit(N_ // 2)), bin_("<<", bin_(">>", x, lit(3)), lit(3)), bin_("==", bin_("<<", x, lit(1)), bin_("*", x, num(2, t))),
                  bin_(rng.choice([">", "<"]), bin_("*", x, num(2, t)), num(0, t)), bin_("%", bin_("*", x, num(4, t)), num(4, t)), bin_("<", bin_("*", x, x), num(0, t)),
                  bin_("==", bin_("-", bin_("+", x, y), y), x), bin_("<", pre("-", x), num(0, t)), bin_("==", pre("-", pre("-", x)), x), bin_(rng.choice(CMP), bin_("+", x, k()), bin_("+", y, k())),
                  bin_(rng.choice(CMP), bin_("-", x, k()), bin_("-", y, k())), bin_("+", cast(I64, bin_("+", x, y)), num(1, I64)), cast(I64, bin_("*", x, y)), cast(U64, bin_("-", x, y)),
                  bin_(">", cast(I64, bin_("+", x, one())), cast(I64, x)), cast(I32, bin_("+", cast(I8, x), cast(I8, num(100, I8)))), bin_("&", bin_("-", x, one()), x)]
            es = [e for e in es]
            body = rng.sample(es, 4)
            f = "f%d" % j
            fs.append(func(f, [("x", t), ("y", t)], I32, block(*[pr(e) for e in body], ret(lit(0)))))
            vs = bounds(t)
            for _ in range(3): ss.append(ex(call(f, num(rng.choice(vs[-8:]), t), num(rng.choice(vs), t))))
            if rng.random() < 0.4:      # a counter that wraps
                g = "g%d" % j
                b, e = rng.choice([(vs[-3] if False else (1 << (N_ - (t[0] == "i"))) - 3, num(0, t)), ((1 << (N_ - (t[0] == "i"))) - 2, one())])
                fs.append(func(g, [("x", t)], I32, block(decl("n", lit(0)), for_(decl("i", x), bin_(rng.choice([">", ">="]), var("i"), e), asg(var("i"), bin_("+", var("i"), one())), block(ex(pre("++", var("n"))), if_(bin_(">", var("n"), lit(12)), block(brk())))), ret(var("n")))))
                ss.append(pr(call(g, num(b, t))))
            if rng.random() < 0.4:      # the sum over an array, forwards and through another pointer
                g = "h%d" % j
                fs.append(func(g, [("p", ptr(t)), ("q", ptr(t)), ("n", I32)], t, block(decl("s", num(0, t)), for_(decl("i", lit(0)), bin_("<", var("i"), var("n")), ex(pre("++", var("i"))), block(asg(idx(var("q"), var("i")), bin_("+", idx(var("p"), var("i")), var("s"))), asg(var("s"), bin_("+", var("s"), idx(var("p"), var("i")))))), ret(var("s")))))
                a = "a%d" % j
                ss += [decl(a, alit(arr(5, t), [num(rng.choice(vs), t) for _ in range(5)])), pr(call(g, pre("&", idx(var(a), lit(rng.randrange(2)))), pre("&", idx(var(a), lit(rng.randrange(2)))), lit(4))), pr(*[idx(var(a), lit(i)) for i in range(5)])]
        yield P(fs + [main(*ss)], "optimiser bait")

def random_programs(rng, n, prof=None, tag="random"):
    for _ in range(n):
        p = gen.program(rng, prof); p.tag = tag
        yield p

# ---- functions of C -----------------------------------------------------------------
CNAME = {I1: "_Bool", I8: "signed char", I16: "short", I32: "int", I64: "long", U8: "unsigned char", U16: "unsigned short", U32: "unsigned", U64: "unsigned long", F32: "float", F64: "double", VOID: "void"}
class CSide:
    """functions of C: their text, and functions of the language that do the same"""
    def __init__(self):
        self.ds, self.text, self.protos = [], [], []
    def ty(self, t, name=""):
        if t[0] == "*": return self.ty(t[1], "*" + name)
        if t[0] == "fn": return "%s (*%s)(%s)" % (self.ty(t[2]), name, ", ".join(self.ty(p) for p in t[1]) or "void")
        if t[0] == "name": return "struct %s %s" % (t[1], name)
        return (CNAME[t] + " " + name).strip()
    def source(self): return "#include <stdio.h>\n#include <stdlib.h>\n" + "\n".join(self.protos + self.text) + "\n"
def isint(t): return t[0] in "iu" and len(t) == 2
def isflt(t): return t[0] == "f" and len(t) == 2
def fmt(t): return "%.3f" if isflt(t) else "%s" if t == STR else {("i", 64): "%ld", ("u", 64): "%lu", ("u", 32): "%u"}.get(t, "%d")
def shown(t, e): return e if t not in (I1, I8, I16, U8, U16) else cast(I32, e)
def cnum(v, t): return "((%s)%dll)" % (CNAME[t], v if t[0] == "i" and v > -(1 << 63) else v - (1 << 64) if v >= 1 << 63 else v)
def cfunc(rng, cs, name, pts, rt):
    """a function of C that prints what it is given, changes what its pointers point to, calls back and returns something"""
    ps = ["a%d" % i for i in range(len(pts))]
    b, c = [], []
    def show(label, pairs):
        b.append(pr(string(label), *[shown(t, e) for t, e, _ in pairs]))
        c.append('printf("%s %s\\n"%s);' % (label, "".join(fmt(t) + " " for t, _, _ in pairs), "".join(", " + x for _, _, x in pairs)))
    show(name, [(t, var(p), p) for p, t in zip(ps, pts) if not (t[0] in ("fn",) or (t[0] == "*" and t != STR))])
    terms = []               # what the result is made of: (type, expression, C)
    for p, t in zip(ps, pts):
        if isint(t) or isflt(t): terms.append((t, var(p), p))
        elif t[0] == "*" and t != STR and t[1][0] != "name":
            e = t[1]
            show(name + "." + p, [(e, idx(var(p), lit(i)), "%s[%d]" % (p, i)) for i in range(2)])
            terms.append((e, idx(var(p), lit(1)), p + "[1]"))
            if isint(e) and e != I1:
                v = rng.choice(bounds(e))
                b.append(asg(idx(var(p), lit(0)), num(v, e))); c.append("%s[0] = %s;" % (p, cnum(v, e)))
                b.append(asg(idx(var(p), lit(1)), bin_("^", idx(var(p), lit(1)), num(1, e)))); c.append("%s[1] ^= 1;" % p)
            elif isflt(e): b.append(asg(idx(var(p), lit(0)), bin_("+", idx(var(p), lit(0)), cast(e, flt(4))))); c.append("%s[0] += 0.5f;" % p)
        elif t[0] == "*" and t[1][0] == "name":
            sd = next(d for d in cs.ds if d["k"] == "struct" and d["s"] == t[1][1])
            fs = [(ft, dot(var(p), f), "%s->%s" % (p, f)) for f, ft in zip(sd["fs"], sd["ts"])]
            show(name + "." + p, fs)
            ft, e, x = rng.choice(fs)
            if isint(ft) and ft != I1:
                v = rng.choice(bounds(ft))
                b.append(asg(e, num(v, ft))); c.append("%s = %s;" % (x, cnum(v, ft)))
            terms += [z for z in fs if isint(z[0])][:1]
        elif t[0] == "fn":
            for _ in range(rng.randrange(1, 3)):
                args = []
                for q in t[1]:
                    if isflt(q): k = rng.randrange(-16, 17); args.append((neg(cast(q, flt(-k))) if k < 0 else cast(q, flt(k)), "%gf" % (k / 8) if k % 8 else "%d.0f" % (k // 8)))
                    else: v = rng.choice(bounds(q)); args.append((num(v, q), cnum(v, q)))
                if t[2] == VOID:
                    b.append(ex(call(var(p), *[a for a, _ in args]))); c.append("%s(%s);" % (p, ", ".join(x for _, x in args)))
                else:
                    r = "r%d" % len(b)
                    b.append(decl(r, call(var(p), *[a for a, _ in args]))); c.append("%s = %s(%s);" % (cs.ty(t[2], r), p, ", ".join(x for _, x in args)))
                    show(name + "." + p, [(t[2], var(r), r)])
                    terms.append((t[2], var(r), r))
    if isint(rt):
        e, x = lit(rng.randrange(50)), None
        e, x = cast(U64, e), "%dul" % e["d"][-1] if len(e["d"]) == 1 else "%d%dul" % tuple(e["d"])
        for t, v, y in terms:
            if isint(t):
                k = rng.choice([1, 1, 3, 257])
                e = bin_("+", e, bin_("*", cast(U64, v), cast(U64, lit(k)))); x += " + (unsigned long)%s * %dul" % (y, k)
        if rt == I1: e = bin_("!=", bin_("&", e, cast(U64, lit(1))), cast(U64, lit(0))); x = "(%s) & 1" % x
        else: e = cast(rt, e)
        b.append(ret(e)); c.append("return (%s)(%s);" % (CNAME[rt], x))
    elif isflt(rt):
        e, x = cast(rt, flt(3)), "(%s)0.375" % CNAME[rt]
        for t, v, y in terms:
            if t == rt: e = bin_("+", e, v); x += " + " + y
        b.append(ret(e)); c.append("return %s;" % x)
    elif rt[0] in ("*", "fn"):
        j = [p for p, t in zip(ps, pts) if t == rt]
        b.append(ret(var(j[0]))); c.append("return %s;" % j[0])
    cs.ds.append(func(name, list(zip(ps, pts)), rt, block(*b)))
    args = ", ".join(cs.ty(t, p) for p, t in zip(ps, pts)) or "void"
    if rt[0] == "fn":
        cs.text.append("typedef %s;\nT%s %s(%s) { %s }" % (cs.ty(rt, "T" + name), name, name, args, "\n  ".join(c)))
    else: cs.text.append("%s(%s) {\n  %s\n}" % (cs.ty(rt, name), args, "\n  ".join(c)))

SCALARS = INTS + [F32, F64]
def some_type(rng, cs, d=1):
    r = rng.random()
    if r < 0.62: return rng.choice(SCALARS)
    if r < 0.72: return rng.choice([I8, I16, I1, U8, U16])
    if r < 0.78: return STR
    if r < 0.86: return ptr(rng.choice([x for x in SCALARS if x not in (I1, I8)]))
    if r < 0.93 and d: return fnt([rng.choice(SCALARS) for _ in range(rng.randrange(0, 4))], rng.choice(SCALARS + [VOID]))
    ss = [x for x in cs.ds if x["k"] == "struct"]
    return ptr(nm(rng.choice(ss)["s"])) if ss else I8
# what libc does, for the arguments that the programs give
def libc():
    x, s, n = var("x"), var("s"), var("n")
    up = lambda a, b, k: func(k, [("x", I32)], I32, block(if_(bin_("&", bin_(">=", x, lit(a)), bin_("<=", x, lit(a + 25))), block(ret(bin_("+", x, b)))), ret(x)))
    loop = lambda *body: for_(decl("i", cast(U64, lit(0))), bin_("<", var("i"), n), asg(var("i"), bin_("+", var("i"), cast(U64, lit(1)))), block(*body))
    return {"abs": ([I32], I32, func("abs", [("x", I32)], I32, block(if_(bin_("<", x, lit(0)), block(ret(neg(x)))), ret(x)))),
        "labs": ([I64], I64, func("labs", [("x", I64)], I64, block(if_(bin_("<", x, num(0, I64)), block(ret(neg(x)))), ret(x)))),
        "toupper": ([I32], I32, up(97, neg(lit(32)), "toupper")), "tolower": ([I32], I32, up(65, lit(32), "tolower")),
        "putchar": ([I32], I32, func("putchar", [("x", I32)], I32, block(decl("b", alit(arr(2, I8), [cast(I8, x), num(0, I8)])), ex(print_(pre("&", idx(var("b"), lit(0))))), ret(cast(I32, cast(U8, x)))))),
        "puts": ([STR], I32, func("puts", [("s", STR)], I32, block(ex(print_(s)), ex(print_(NL)), ret(lit(1))))),
        "strlen": ([STR], U64, func("strlen", [("s", STR)], U64, block(decl("n", cast(U64, lit(0))), for_(None, bin_("!=", idx(s, n), num(0, I8)), None, block(asg(n, bin_("+", n, cast(U64, lit(1)))))), ret(n)))),
        "malloc": ([U64], STR, func("malloc", [("n", U64)], STR, block(ret(alloc(I8, n))))),
        "free": ([STR], VOID, func("free", [("s", STR)], VOID, block(ex(free(s))))),
        "memset": ([STR, I32, U64], STR, func("memset", [("s", STR), ("x", I32), ("n", U64)], STR, block(loop(asg(idx(s, var("i")), cast(I8, x))), ret(s)))),
        "memcpy": ([STR, STR, U64], STR, func("memcpy", [("s", STR), ("x", STR), ("n", U64)], STR, block(loop(asg(idx(s, var("i")), idx(x, var("i")))), ret(s)))),
        "fabs": ([F64], F64, func("fabs", [("x", F64)], F64, block(if_(bin_("<", x, cast(F64, flt(0))), block(ret(bin_("-", cast(F64, flt(0)), x)))), ret(x)))),
        "floor_": None}
def carg(rng, cs, t, out, k, cbs, alt=None):
    """an argument of type t; (expression, statements that show what became of it)"""
    s = "v%d" % k
    if isint(t):
        v = rng.choice(bounds(t) + [rng.randrange(1 << t[1]) if t[0] == "u" else rng.randrange(-(1 << (t[1] - 1)), 1 << (t[1] - 1))])
        if t == I1: v &= 1
        if rng.random() < 0.3 and t != I1:      # computed, so that the bits above it are those of an overflow
            w = rng.choice(bounds(t))
            out.append(decl(s, num(v, t)))
            op = rng.choice(["+", "-", "*"])
            return bin_(op, var(s), num(w, t)), []
        if rng.random() < 0.5: out.append(decl(s, num(v, t))); return var(s), []
        return num(v, t), []
    if isflt(t):
        j = rng.randrange(-40, 41)
        e = neg(cast(t, flt(-j))) if j < 0 else cast(t, flt(j))
        if rng.random() < 0.5: out.append(decl(s, e)); return var(s), []
        return e, []
    if t == STR: return string("".join(rng.choice("abcXYZ 0") for _ in range(rng.randrange(0, 9)))), []
    if t[0] == "*" and t[1][0] == "name":
        sd = next(d for d in cs.ds if d["k"] == "struct" and d["s"] == t[1][1])
        vals = [(f, num(rng.choice(bounds(ft)), ft) if isint(ft) else cast(ft, flt(rng.randrange(40)))) for f, ft in zip(sd["fs"], sd["ts"])]
        out.append(decl(s, slit(sd["s"], vals)))
        return pre("&", var(s)), [pr(*[shown(ft, dot(var(s), f)) for f, ft in zip(sd["fs"], sd["ts"])])]
    if t[0] == "*":
        e = t[1]
        mk = lambda: num(rng.choice(bounds(e)), e) if isint(e) else cast(e, flt(rng.randrange(40)))
        out.append(decl(s, alit(arr(3, e), [mk() for _ in range(3)])))
        return pre("&", idx(var(s), lit(rng.randrange(2)))), [pr(*[shown(e, idx(var(s), lit(i))) for i in range(3)])]
    if t[0] == "fn":
        key = repr(t)
        r = rng.random()
        qs = [("q%d" % i, q) for i, q in enumerate(t[1])]
        say = [pr(string("cb%d" % k), *[shown(q, var(p)) for p, q in qs])]
        same = [var(p) for p, q in qs if q == t[2]]
        if t[2] == VOID: res = []
        elif isflt(t[2]): res = [ret(bin_("+", same[0], same[-1]) if same else cast(t[2], flt(rng.randrange(30))))]
        else:
            e = num(rng.choice(bounds(t[2])), t[2])
            if t[2] != I1 and same: e = bin_(rng.choice(["+", "*", "-", "^"]), same[0], e)
            elif t[2] == I1 and len(qs): e = bin_("==", var(qs[0][0]), num(1, qs[0][1]) if isint(qs[0][1]) else cast(qs[0][1], flt(8)))
            res = [ret(e)]
        if r < 0.6:
            if key not in cbs or r < 0.2:
                f = "callback%d" % k
                cbs[key] = f
                cbs["ds"].append(func(f, qs, t[2], block(*say, *res), pub=rng.random() < 0.1))
            f = cbs[key]
            if r < 0.3: return var(f), []
            out.append(decl(s, var(f))); return var(s), []
        out.append(decl("k%d" % k, lit(rng.randrange(9))))
        lm = lam(qs, t[2], block(pr(string("captured"), var("k%d" % k)), *say, *res))
        out.append(decl(s, lm)); return var(s), []
def externs(rng, n):
    """C functions of random signatures, callbacks, pointers; libc; public functions that C calls"""
    lib = {k: v for k, v in libc().items() if v}
    for i in range(n):
        cs = CSide(); cbs = {"ds": []}
        types, names = [], {}
        again = {}                      # externs declared with pointers to something else
        def other_pointer(name, pts, rt):
            re = lambda t: ptr(rng.choice([U8, I32, F64, I64])) if t[0] == "*" and rng.random() < 0.7 else t
            again[name] = ([re(t) for t in pts], re(rt)) if rng.random() < 0.2 else (pts, rt)
            return again[name]
        def cast_call(f, name, args, pts, rt):
            ds, r = again.get(name, (pts, rt))
            cl = call(f, *[a if d == t else cast(d, a) for a, d, t in zip(args, ds, pts)])
            return cl if r == rt else cast(rt, cl)
        def other_name(t):              # aliases
            if t == VOID or t[0] in ("*", "name") or rng.random() < 0.8: return t
            if t[0] == "fn" and rng.random() < 0.5: return fnt([other_name(q) for q in t[1]], other_name(t[2]))
            if repr(t) not in names:
                names[repr(t)] = "Alias%d" % len(names)
                types.append(alias(names[repr(t)], t))
            return nm(names[repr(t)])
        for j in range(rng.choice([0, 0, 1, 2])):
            sd = struct("S%d" % j, [("f%d" % x, rng.choice(SCALARS)) for x in range(rng.randrange(1, 6))])
            cs.ds.append(sd); types.append(copy.deepcopy(sd))
            cs.text.append("struct S%d { %s };" % (j, " ".join(cs.ty(t, f) + ";" for f, t in zip(sd["fs"], sd["ts"]))))
        mods = rng.choice([1, 1, 1, 2])
        exts, sigs = [], []
        for j in range(rng.randrange(1, 5)):
            pts = [some_type(rng, cs) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9, 12]))]
            rt = rng.choice([VOID, I8, I16, U8, U16, I1, *SCALARS])
            back = [t for t in pts if t[0] in ("*", "fn")]
            if back and rng.random() < 0.25: rt = rng.choice(back)
            cfunc(rng, cs, "ext%d" % j, pts, rt)
            dp, dr = other_pointer("ext%d" % j, pts, rt)
            sigs.append(("ext%d" % j, pts, rt)); exts.append(extern("ext%d" % j, [other_name(t) for t in dp], other_name(dr)))
        pubs = []
        if rng.random() < 0.4:          # a public function of the program that C calls
            qs = [("q%d" % x, rng.choice(SCALARS)) for x in range(rng.randrange(0, 8))]
            rt = rng.choice(SCALARS + [I8, U8, I16, I1])
            same = [var(p) for p, q in qs if q == rt]
            res = bin_("+", same[0], same[-1]) if same and rt != I1 else num(rng.choice(bounds(rt)), rt) if isint(rt) else cast(rt, flt(5))
            pubs = [func("shared", qs, rt, block(pr(string("shared"), *[shown(q, var(p)) for p, q in qs]), ret(res)), pub=True)]
            cs.ds.append(extern("shared", [q for _, q in qs], rt))
            cs.protos.append("%s(%s);" % (cs.ty(rt, "shared"), ", ".join(cs.ty(q) for _, q in qs) or "void"))
            args = [(num(v, q), cnum(v, q)) if isint(q) else (cast(q, flt(v)), "%d/8.0f" % v) for _, q in qs for v in [rng.choice(bounds(q)) if isint(q) else rng.randrange(30)]]
            cs.ds.append(func("viac", [], VOID, block(pr(string("viac"), shown(rt, call("shared", *[a for a, _ in args]))))))
            cs.text.append('void viac(void) { printf("viac %s \\n", shared(%s)); }' % (fmt(rt), ", ".join(x for _, x in args)))
            sigs.append(("viac", [], VOID)); exts.append(extern("viac", [], VOID))
            if rng.random() < 0.5: sigs.append(("shared", [q for _, q in qs], rt))
        ss, k = [], 0
        for name, pts, rt in [rng.choice(sigs) for _ in range(rng.randrange(2, 6))] + sigs:
            after, args = [], []
            for t in pts:
                k += 1
                e, a = carg(rng, cs, t, ss, k, cbs); args.append(e); after += a
            f = var(name)
            if rng.random() < 0.2: ss.append(decl("h%d" % k, f)); f = var("h%d" % k)
            cl = cast_call(f, name, args, pts, rt); k += 1
            if rt == VOID or rng.random() < 0.1: ss.append(ex(cl))
            elif rt[0] == "fn":
                ss.append(decl("h%d" % k, cl))
            elif isint(rt) or isflt(rt): 
                if rng.random() < 0.5: ss.append(pr(shown(rt, cl)))
                else: ss += [decl("r%d" % k, cl), pr(shown(rt, var("r%d" % k)))]
            elif rt == STR: ss.append(pr(cl))
            elif rt[1][0] == "name":
                ss += [decl("r%d" % k, cl), pr(*[shown(ft, dot(var("r%d" % k), fd)) for sd in types if sd["s"] == rt[1][1] for fd, ft in zip(sd["fs"], sd["ts"])])]
            else: ss.append(pr(shown(rt[1], idx(cl, lit(0)))))
            ss += after
        # libc
        used = [x for x in rng.sample(sorted(lib), rng.choice([0, 2, 4, 8])) if not any(d["s"] == x for d in cs.ds if "s" in d)]
        for x in used:
            cs.ds.append(copy.deepcopy(lib[x][2])); exts.append(extern(x, lib[x][0], lib[x][1]))
        for x in used:
            k += 1; s = "l%d" % k
            if x in ("abs",): ss.append(pr(call(x, num(rng.randrange(-99, 99), I32))))
            elif x == "labs": ss.append(pr(call(x, num(rng.randrange(-1 << 40, 99), I64))))
            elif x in ("toupper", "tolower"): ss.append(pr(call(x, char(rng.choice([65, 90, 97, 122, 48, 91, 64])) if False else lit(rng.choice([65, 90, 97, 122, 48, 91, 64])))))
            elif x == "putchar": ss.append(ex(call(x, lit(rng.choice([65, 10, 97])))))
            elif x == "puts": ss.append(ex(call(x, bin_("+", string("a"), string("bc")))))
            elif x == "strlen": ss.append(pr(call(x, string("x" * rng.randrange(9)))))
            elif x == "fabs": ss.append(pr(call(x, rng.choice([cast(F64, flt(12)), neg(cast(F64, flt(12)))]))))
            elif x == "malloc":
                ss += [decl(s, call(x, num(8, U64))), asg(idx(var(s), lit(0)), num(72, I8)), asg(idx(var(s), lit(1)), num(0, I8)), pr(var(s)), decl(s + "b", bin_("+", string("q"), var(s))), pr(var(s + "b")),
                       decl(s + "c", alloc(I32, lit(2))), asg(idx(var(s + "c"), lit(1)), lit(k)), pr(idx(var(s + "c"), lit(1))), ex(free(var(s + "c")))]
                if "free" in used: ss.append(ex(call("free", var(s))))
            elif x == "free": ss += [decl(s, alloc(I8, lit(4))), ex(call(x, var(s)))]
            elif x == "memset": ss += [decl(s, alit(arr(4, I8), [num(j % 3, I8) for j in range(4)])), decl(s + "p", call(x, pre("&", idx(var(s), lit(1))), lit(321), num(2, U64))), pr(*[cast(I32, idx(var(s), lit(j))) for j in range(4)], var(s + "p"))]
            elif x == "memcpy": ss += [decl(s, alit(arr(4, I8), [num(j, I8) for j in range(4)])), ex(call(x, pre("&", idx(var(s), lit(0))), string("hi"), num(3, U64))), pr(pre("&", idx(var(s), lit(0))), cast(I32, idx(var(s), lit(3))))]
        if rng.random() < 0.4:          # printf
            exts.append(extern("printf", [STR], I32, True))
            for _ in range(rng.randrange(1, 4)):
                ts = [rng.choice(SCALARS + [STR]) for _ in range(rng.choice([0, 1, 2, 3, 7]))]
                ts = [t for t in ts if t != U32] + [U32] * ts.count(U32)
                args = []
                for t in ts:
                    k += 1; args.append(carg(rng, cs, t, ss, k, cbs)[0])
                c_ = call("printf", string(" ".join("%u" if t == U32 else fmt(t) for t in ts) + "%%\n"), *args)
                ss.append(rng.choice([ex(c_), pr(c_)]))
        body = main(*ss)
        own = lambda: exts if rng.random() < 0.5 else rng.sample(exts, len(exts))
        ds = types + own() + pubs + cbs["ds"] + [body]
        if rng.random() < 0.3: ds = types + pubs + cbs["ds"] + [body] + exts          # declared after their use
        ms = [("main.cd", ds)]
        if mods == 2:               # another file declares and uses some of them too
            ok = [x for x in sigs if all(isint(t) or isflt(t) or (t[0] == "*" and t[1][0] != "name") for t in x[1]) and not x[2][0] in ("fn", "name")]
            other, body2 = [], []
            for name, pts, rt in rng.sample(ok, min(len(ok), 2)):
                dp, dr = other_pointer(name, pts, rt)
                after, args = [], []
                for t in pts:
                    k += 1
                    e, a = carg(rng, cs, t, body2, k, cbs); args.append(e); after += a
                cl = cast_call(var(name), name, args, pts, rt)
                other.append(extern(name, dp, dr))
                body2 += [pr(shown(rt, cl)) if isint(rt) or isflt(rt) or rt == STR else ex(cl)] + after
            for x in rng.sample(["malloc", "strlen", "memcpy", "free"], rng.randrange(4)):
                if not any(d["k"] == "func" and d["s"] == x for d in cs.ds): cs.ds.append(copy.deepcopy(lib[x][2]))
                dp, dr = other_pointer(x, lib[x][0], lib[x][1])
                other.append(extern(x, dp, dr))
                g = lambda *a: cast_call(var(x), x, list(a), lib[x][0], lib[x][1])
                k += 1; h = "m%d" % k
                if x == "malloc": body2 += [decl(h, g(num(4, U64))), asg(idx(var(h), lit(0)), num(66, I8)), asg(idx(var(h), lit(1)), num(0, I8)), pr(bin_("+", var(h), string("c")))]
                elif x == "strlen": body2 += [pr(g(bin_("+", string("ab"), string("cde"))))]
                elif x == "memcpy": body2 += [decl(h, alloc(I8, lit(6))), ex(g(var(h), string("hello"), num(6, U64))), pr(var(h), bin_("==", var(h), string("hello")))]
                else: body2 += [decl(h, alloc(I8, lit(4))), asg(idx(var(h), lit(0)), num(0, I8)), pr(bin_("+", var(h), string("x"))), ex(g(var(h)))]
            if body2:
                other.append(func("use", [], VOID, block(*body2)))
                if rng.random() < 0.5: other = other[::-1]
                body["b"]["c"].insert(rng.choice([0, len(body["b"]["c"]) - 1]), ex(call(dot(var("o"), "use"))))
                ds.insert(rng.choice([0, len(ds)]) if rng.random() < 0.3 else 0, import_("o", [], 2))
                ms.append(("other.cd", other))
        p = Program(ms, "externs")
        p.c_ds, p.c_text = cs.ds, cs.source()
        yield p

# ---- size ---------------------------------------------------------------------------------------
def large(rng, n):
    """programs with much of one thing: what works a few times has to work any number of times"""
    def literals(k):
        ss = [decl("n", lit(0)), decl("s", string(""))]
        for i in range(k): ss += [asg(var("s"), string("%d" % rng.randrange(1000)))] + ([pr(var("s"))] if i % 97 == 0 else [])
        return [main(*ss, pr(var("s")))]
    def lambdas(k):
        ss = [decl("a", lit(rng.randrange(100))), decl("sum", lit(0))]
        for i in range(k): ss += [decl("f%d" % i, lam([("x", I32)], I32, block(ret(bin_("+", var("x"), bin_("*", var("a"), lit(i))))))), asg(var("sum"), bin_("+", var("sum"), call("f%d" % i, lit(1)))), asg(var("a"), lit(i % 13))]
        return [main(*ss, pr(var("sum"), call("f0", lit(2)), call("f%d" % (k - 1), lit(3))))]
    def functions(k):
        ds = [func("f%d" % i, [("x", I32)], I32, block(ret(call("f%d" % (i + 1), bin_("+", var("x"), lit(i)))))) for i in range(k)]
        ds.append(func("f%d" % k, [("x", I32)], I32, block(ret(var("x")))))
        rng.shuffle(ds)
        return ds + [main(pr(call("f0", lit(1))))]
    def globals_(k):
        ds = [decl("g%d" % i, string("v%d" % i)) if rng.random() < 0.3 else decl("g%d" % i, num(i, rng.choice([I32, I64, U8])), const=rng.random() < 0.4) for i in range(k)]
        return ds + [main(*[pr(*[var("g%d" % i) for i in range(j, min(k, j + 8))]) for j in range(0, k, 8)])]
    def deep(k):
        kind = [rng.choice(["if", "for", "switch", "block", "blk"]) for _ in range(k)]
        def nest(i):
            if i == k: return [asg(var("n"), bin_("+", var("n"), lit(1))), decl("v", var("n"))]
            inner = [decl("v", bin_("+", var("v"), lit(1)))] + nest(i + 1) + [asg(var("n"), bin_("+", var("n"), var("v")))]
            if kind[i] == "for": return [for_(decl("i%d" % i, lit(0)), bin_("<", var("i%d" % i), lit(1)), ex(pre("++", var("i%d" % i))), block(*inner))]
            if kind[i] == "switch": return [sw(bin_("&", var("v"), lit(0)), [(lit(1), block(pr(lit(i)))), (lit(0), block(*inner))], block(pr(lit(-1 * -i))))]
            if kind[i] == "blk": return [asg(var("n"), blk(I32, block(*inner, ret(var("n")))))]
            return [if_(bin_(">=", var("v"), lit(0)), block(*inner), block(pr(lit(i))))]
        return [main(decl("n", lit(0)), decl("v", lit(0)), *nest(0), pr(var("n"), var("v")))]
    def long_expr(k):
        t = rng.choice([I32, U32, I64, U8])
        e = num(1, t)
        for i in range(k):
            x = rng.choice([num(rng.randrange(1, 100), t), var("a"), call("f", var("a"))])
            op = rng.choice(["+", "-", "*", "^", "&", "|"])
            e = bin_(op, e, x) if rng.random() < 0.6 else bin_(op, x, e)
        return [func("f", [("x", t)], t, block(ret(bin_("+", var("x"), num(1, t))))), main(decl("a", num(5, t)), decl("r", e), pr(var("r"), var("a")))]
    def fields(k):
        ts = [rng.choice([I8, I16, I32, I64, U8, F64, STR, ptr(I32)]) for _ in range(k)]
        s = Shapes(rng)
        def v(t): return alloc(I32, lit(1)) if t == ptr(I32) else s.value(t)
        order = list(range(k)); rng.shuffle(order)
        show = [i for i in range(k) if ts[i] != ptr(I32)]
        return [struct("S", [("f%d" % i, t) for i, t in enumerate(ts)]), func("same", [("x", nm("S"))], nm("S"), block(ret(var("x")))),
                main(decl("x", slit("S", [("f%d" % i, v(ts[i])) for i in order])), decl("y", call("same", var("x"))), *[pr(dot(var("y"), "f%d" % i)) for i in show], pr(sizeof(nm("S"))))]
    def params(k):
        ts = [rng.choice([I8, I16, I32, I64, U8, U16, F32, F64, STR, I1]) for _ in range(k)]
        s = Shapes(rng)
        return [func("f", [("p%d" % i, t) for i, t in enumerate(ts)], I32, block(*[pr(*[var("p%d" % i) for i in range(j, min(k, j + 6))]) for j in range(0, k, 6)], ret(lit(k)))),
                main(pr(call("f", *[s.value(t) for t in ts])))]
    def cases(k):
        vs = rng.sample(range(1000), k)
        body = sw(var("x"), [(lit(v), block(ret(lit(i)))) for i, v in enumerate(vs)], block(ret(lit(9999))))
        chain = if_(*sum([[bin_("==", var("x"), lit(v)), block(ret(lit(i)))] for i, v in enumerate(vs[:60])], []), block(ret(lit(8888))))
        return [func("f", [("x", I32)], I32, block(body)), func("g", [("x", I32)], I32, block(chain)),
                main(*[pr(call("f", lit(v)), call("g", lit(v))) for v in rng.sample(vs, 12) + vs[:1] + vs[-1:] + [1001]])]
    def loops(k):
        return [main(decl("n", lit(0)), *[for_(decl("i", lit(0)), bin_("<", var("i"), lit(3)), ex(pre("++", var("i"))), block(if_(bin_("==", var("i"), lit(j % 4)), block(rng.choice([brk, cont])())), asg(var("n"), bin_("+", var("n"), lit(j))))) for j in range(k)], pr(var("n")))]
    def blocks(k):
        return [main(decl("n", lit(0)), *[asg(var("n"), bin_("+", var("n"), blk(I32, block(if_(bin_(">", var("n"), lit(j * 3)), block(ret(lit(1)))), ret(lit(j)))))) for j in range(k)], pr(var("n")))]
    def logic(k):
        e = var("b")
        for i in range(k): e = bin_(rng.choice(["&&", "||"]), e, bin_(rng.choice(["==", "<", ">"]), call("f", lit(i)), lit(rng.randrange(k))))
        return [decl("c", lit(0)), func("f", [("x", I32)], I32, block(asg(var("c"), bin_("+", var("c"), lit(1))), ret(var("x")))), main(decl("b", bin_("==", var("c"), lit(0))), if_(e, block(pr(string("y"), var("c"))), block(pr(string("n"), var("c")))))]
    def text(k):
        return [main(pr(string("".join(rng.choice("abc %d\\\n") for _ in range(k)))), decl("a", arr_of(k)), pr(idx(var("a"), lit(k - 1)), idx(var("a"), lit(k // 2))))]
    def arr_of(k): return alit(arr(k, I32), [lit(i * 7 % 1000) for i in range(k)])
    def shadows(k):
        ss = [pr(var("x"))]
        for i in range(k): ss = [decl("x", bin_("+", var("x"), lit(1))), if_(bin_(">", var("x"), lit(0)), block(*ss)), pr(var("x"))]
        return [main(decl("x", lit(0)), if_(bin_("==", var("x"), lit(0)), block(*ss)), pr(var("x")))]
    kinds = [(literals, 1200), (lambdas, 60), (functions, 50), (globals_, 120), (deep, 24), (long_expr, 120), (fields, 40), (params, 30), (cases, 120), (loops, 80), (blocks, 60), (logic, 40), (text, 600), (shadows, 30)]
    for i in range(n):
        f, k = kinds[i % len(kinds)]
        if i >= len(kinds): k = max(2, int(k * rng.random()))
        yield Program(f(k), "large: " + f.__name__.rstrip("_"))

# ---- a value of one type where another type is expected ----------------------------------------------------
def misfit_pool():
    s, r, u = nm("S"), nm("R"), nm("U")
    return [I1, I8, I16, I32, I64, U8, U16, U32, U64, F32, F64, STR, ptr(I32), ptr(ptr(I32)), arr(2, I32), arr(3, I32), arr(2, I64), arr(2, arr(3, I32)), arr(3, s),
            arr(2, ptr(I32)), s, r, u, ptr(s), ptr(u), fnt([], I32), fnt([], VOID), fnt([I32], I32), fnt([I32, I64], I32), fnt([I32, I64, U8], U8), fnt([s], r), fnt([ptr(s), arr(2, I32)], VOID), fnt([], fnt([I32], I32)), ptr(fnt([I32], I32))]
def misfits(rng, n):
    """programs that are right if A and B are the same type; what else is allowed the specification says"""
    pool = misfit_pool()
    compound = [t for t in pool if t[0] in ("arr", "*", "fn")]
    a, b = var("a"), var("b")
    def ctx(A, B):
        F1 = lambda *ss, ps=(("a", A),), rt=VOID: [func("f", list(ps), rt, block(*ss))]
        take = func("take", [("b", B)], VOID, block())
        H = struct("H", [("p", I8), ("v", B)])
        two = (("a", A), ("b", B))
        op = rng.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">=", "&&", "||"])
        return rng.choice([
            lambda: [take] + F1(ex(call("take", a))),
            lambda: [func("take", [("z", I8), ("b", B)], VOID, block())] + F1(ex(call("take", cast(I8, lit(1)), a))),
            lambda: [func("take", [("b", B), ("z", I8)], VOID, block())] + F1(ex(call(dot(a, "take"), cast(I8, lit(1))))),
            lambda: [func("take", [("z", I32), ("b", B)], VOID, block())] + F1(ex(call(dot(lit(3), "take"), a))),
            lambda: F1(ret(a), rt=B),
            lambda: F1(if_(lit(1), block(ret(a)), block(ret(a))), rt=B),
            lambda: F1(decl("v", a, B)),
            lambda: F1(decl("v", a, B, True)),
            lambda: F1(asg(b, a), ps=two),
            lambda: F1(asg(comma(a, b), comma(b, a)), ps=two),
            lambda: [H] + F1(decl("h", slit("H", [("p", cast(I8, lit(1))), ("v", a)]))),
            lambda: [H] + F1(asg(dot(var("h"), "v"), a), ps=(("a", A), ("h", ptr(nm("H"))))),
            lambda: F1(decl("v", alit(arr(2, B), [b, a])), ps=two),
            lambda: F1(asg(idx(var("v"), lit(1)), a), ps=(("a", A), ("v", arr(2, B)))),
            lambda: F1(asg(pre("*", var("v")), a), ps=(("a", A), ("v", ptr(B)))),
            lambda: F1(decl("l", lam([("x", I32)], B, block(ret(a))))),
            lambda: F1(decl("l", lam([("x", A)], B, block(ret(var("x")))))),
            lambda: F1(decl("l", lam([("x", A)], VOID, block()), fnt([B], VOID))),
            lambda: F1(decl("l", blk(B, block(ret(a))))),
            lambda: F1(ex(call("g", a)), ps=(("a", A), ("g", fnt([B], VOID)))),
            lambda: F1(ex(call(dot(var("h"), "g"), a)), ps=(("a", A), ("h", nm("G")))),
            lambda: F1(decl("v", bin_(op, a, b)), ps=two),
            lambda: F1(decl("v", bin_(op, a, bin_(op, b, a))), ps=two),
            lambda: F1(sw(a, [(b, block(ex(print_(lit(1)))))]), ps=two),
            lambda: F1(decl("v", cast(B, a))),
            lambda: F1(decl("v", dot(a, "x"), B)),
            lambda: F1(decl("v", idx(a, lit(0)), B)),
            lambda: F1(decl("v", pre("*", a), B)),
            lambda: F1(decl("v", pre("&", a), ptr(B))),
            lambda: F1(decl("v", call("a"), B)),
            lambda: F1(decl("v", call("a", b)), ps=two),
            lambda: F1(if_(a, block())),
            lambda: F1(for_(None, a, None, block(ret()))),
            lambda: F1(decl("v", idx(b, a)), ps=two),
            lambda: F1(decl("v", pre(rng.choice("-!"), a), B)),
            lambda: F1(ex(print_(a))) if A[0] in "iuf" and len(A) == 2 or A == STR else F1(asg(b, a), ps=two),
            lambda: F1(decl("v", alloc(B, a), ptr(B))),
            lambda: F1(ex(free(a))),
            lambda: F1(asg(a, realloc(a, lit(4)))),
            lambda: F1(ret(), rt=B) if rng.random() < 0.3 else F1(asg(dot(b, "x"), a), ps=two),
        ])() + ([struct("G", [("g", fnt([B], VOID))])])
    def place(A, d=0):
        """wrap both in the same constructor"""
        k = rng.randrange(5)
        return (lambda t: ptr(t)) if k == 0 else (lambda t: arr(2, t)) if k == 1 else (lambda t: fnt([t], I32)) if k == 2 else (lambda t: fnt([I32, t], I32)) if k == 3 else (lambda t: fnt([I32], t))
    for _ in range(n):
        A = rng.choice(compound if rng.random() < 0.4 else pool)
        k = rng.random()
        if k < 0.1: B = A
        elif k < 0.7: B = near_type(rng, A)
        else: B = rng.choice(pool)
        if rng.random() < 0.2:
            w = place(A); A, B = w(A), w(B)
        if rng.random() < 0.5: A, B = B, A
        yield P([struct("S", [("x", I32)]), struct("R", [("x", I32)]), union("U", [("x", I32), ("y", I64)])] + ctx(A, B) + [main(pr(lit(7)))], "misfits")

# ---- what can be written to -------------------------------------------------------------------------------
def constants(rng, n):
    """a variable or constant of every kind, written in every way, at every place it is visible from"""
    val = {I32: lambda: lit(rng.randrange(100)), I64: lambda: cast(I64, lit(rng.randrange(100))), U8: lambda: cast(U8, lit(rng.randrange(100))), F32: lambda: flt(rng.randrange(80)),
           STR: lambda: string(rng.choice("abc")), I1: lambda: bin_("==", lit(1), lit(rng.randrange(2)))}
    for _ in range(n):
        t = rng.choice(list(val))
        v = val[t]
        const = rng.random() < 0.6
        names = ["k1", "k2", "k3"]
        gl, lo, ps, inits = [], [], [], []
        kind = rng.randrange(7)
        if kind == 0: lo = [decl(x, v(), NONE, const) for x in names]
        elif kind == 1: lo = [decl(x, v(), t, const) for x in names]
        elif kind == 2: lo = [mdecl(names, comma(v(), v(), v()), const)]
        elif kind == 3: lo = [mdecl(names[:2], comma(v(), v()), const), decl("k3", v(), NONE, not const)]
        elif kind == 4: gl = [decl(x, v(), rng.choice([t, NONE]), const) for x in names]
        elif kind == 5: gl = [decl(names[0], v(), t, const)]; lo = [decl(x, var(names[0]), NONE, const) for x in names[1:]]
        else: ps = [(x, t) for x in names]
        k = rng.choice(names)
        o = rng.choice([x for x in names if x != k])
        w = rng.randrange(9)
        if w <= 1: wr = [asg(var(k), v())]
        elif w == 2: wr = [asg(comma(var(o), var(k)), comma(v(), v()))]
        elif w == 3: wr = [asg(comma(var(k), var(o)), comma(var(o), var(k)))]
        elif w == 4: wr = [decl("m", v()), asg(comma(var("m"), var(k)), comma(v(), v()))]
        elif w == 5: wr = [decl("p", pre("&", var(k))), asg(pre("*", var("p")), v())]
        elif w == 6: wr = [decl(k, v()), asg(var(k), v())]
        elif w == 7: wr = [for_(asg(var(k), v()), bin_("==", lit(1), lit(0)), None, block())]
        else: wr = [asg(idx(var(k), lit(0)), cast(I8, lit(65)))] if t == STR and not const and False else [decl("m", var(k)), asg(var("m"), v()), pr(*([var("m")] if t != I1 else []))]
        show = [pr(*[cast(I32, var(x)) if t == I1 else var(x) for x in names])]
        place = rng.randrange(6)
        if place == 0: body = wr + show
        elif place == 1: body = [block(*wr, *show)] + show
        elif place == 2: body = [if_(bin_("<", lit(1), lit(2)), block(*wr))] + show
        elif place == 3: body = [decl("l", lam([], I32, block(*wr, *show, ret(lit(1))))), pr(call("l"), call("l"))] + show
        elif place == 4: body = [decl("l", blk(I32, block(*wr, *show, ret(lit(1))))), pr(var("l"))] + show
        else: body = [sw(lit(1), [(lit(1), block(*wr))], block())] + show
        if rng.random() < 0.1: body = body[-1:]
        f = func("f", ps, VOID, block(*lo, *body))
        yield P(gl + [f, main(ex(call("f", *[v() for _ in ps])))], "constants")

# ---- instances of generic files ---------------------------------------------------------------------------
def instances(rng, n):
    """one generic file of several types, imported with every kind and order of them, from several places: one instance for each sequence of types"""
    for _ in range(n):
        nums = rng.random() < 0.5
        k = rng.randrange(1, 4)
        names = ["A", "B", "C"][:k]
        quals = [qual("s1", "S"), qual("s2", "S")]
        if nums: pool = rng.sample(INTS + [F32, F64], 3)
        else:
            a, b = rng.sample([I8, I16, I32, I64, F64, U32], 2)
            pool = rng.sample([a, b, ptr(a), ptr(b), ptr(ptr(a)), arr(2, a), arr(3, a), arr(2, arr(3, a)), arr(3, arr(2, a)), fnt([a], b), fnt([b], a), fnt([a, b], a), fnt([a], a), ptr(fnt([a], b)), fnt([ptr(a)], b), quals[0], quals[1],
                               ptr(quals[0]), ptr(quals[1]), arr(2, quals[0]), arr(2, quals[1]), STR], 3)
        tuples = [tuple(rng.choice(pool) for _ in range(k)) for _ in range(rng.randrange(2, 5))]
        if k > 1: tuples += [tuple(reversed(tuples[0])), tuples[0][1:] + tuples[0][:1]]
        tuples.append(tuples[0])
        rng.shuffle(tuples)
        ds = [tparam(x) for x in names]
        ds += [struct("P", [("f%d" % i, nm(rng.choice(names)) if i else nm(names[-1])) for i in range(rng.randrange(1, 4))] + [("z", I8)]), decl("count", lit(0))]
        w = lit(0)
        for x in names: w = bin_("+", bin_("*", w, lit(100)), sizeof(nm(x)))
        ds += [func("size", [], I32, block(ret(bin_("+", bin_("*", w, lit(100)), sizeof(nm("P")))))),
               func("next", [], I32, block(asg(var("count"), bin_("+", var("count"), lit(1))), ret(var("count"))))]
        if nums: ds.append(func("conv", [("x", nm(names[0]))], nm(names[-1]), block(decl("p", cast(nm(rng.choice(names)), var("x"))), ret(cast(nm(names[-1]), var("p"))))))
        imps = [import_("s1", [], 3), import_("s2", [], 4), import_("mid", [], 5)]
        body = []
        def use(i, t, out):
            M = lambda f: dot(var("m%d" % i), f)
            out.append(pr(call(M("size")), call(M("next")), dot(var("m%d" % i), "count"), sizeof(qual("m%d" % i, "P"))))
            if nums:
                v = lit(rng.randrange(300)) if t[0][0] != "f" else flt(rng.randrange(900))
                out.append(pr(call(M("conv"), cast(t[0], v))))
        for i, t in enumerate(tuples):
            imps.append(import_("m%d" % i, list(t), 2)); use(i, t, body)
        mid_t = [t for t in tuples if not any("qual" in str(x) for x in t)][:2]
        mid, mb = [], []
        for i, t in enumerate(mid_t):
            mid.append(import_("m%d" % i, list(t), 2)); use(i, t, mb)
        mid.append(func("show", [], VOID, block(*mb)))
        body.insert(rng.randrange(len(body) + 1), ex(call(dot(var("mid"), "show"))))
        g, m = rng.choice([("gen.cd", "mid.cd"), ("lib/gen.cd", "mid.cd"), ("gen.cd", "lib/mid.cd"), ("a/g.cd", "b/g.cd")])
        yield Program([("main.cd", imps + [main(*body)]), (g, ds), ("s1.cd", [struct("S", [("x", I8)])]), ("s2.cd", [struct("S", [("x", I64)])]), (m, mid)], "instances")
