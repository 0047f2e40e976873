"""Random well typed candice programs.  The generator knows types and scopes, and avoids what candice leaves
undefined where that is easy; what a program means is decided by the specification alone."""
from cast import *

INTERESTING = [0, 1, 2, 3, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 1000, 32767, 32768, 65535,
               65536, 123456789, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 5, 2**53 + 1, 2**62, 2**63 - 1, 2**63, 2**64 - 1]
STRS = ["", "a", "b", "ab", "hello", "cand ice", "x-1", "zz", "Ab9", "a,b", "%d %s", "\x7fq", "\xe9t"]

DEFAULT = dict(
    ints=[I8, I16, I32, I64, U8, U16, U32, U64], bools=3, floats=1, strs=1, structs=2, unions=0, arrays=1, ptrs=1, heap=1, fns=1,
    nfuncs=4, nglobals=2, stmts=10, depth=3, nest=3, lams=1, blks=1, mcalls=1, multi=1, control=2, sideeff=1, ufcs=1, consts=1, shadow=1,
    mods=0, recursion=1, prints=2, sizeof=1, tsz=3)

class V:
    __slots__ = ("n", "t", "mut", "lvl", "const")
    def __init__(self, n, t, mut=True, lvl=0, const=False):
        self.n, self.t, self.mut, self.lvl, self.const = n, t, mut, lvl, const

class F:
    def __init__(self, n, ps, rt, mod=""):
        self.n, self.ps, self.rt, self.mod = n, ps, rt, mod

class Gen:
    def __init__(self, rng, prof=None):
        self.r = rng
        self.p = dict(DEFAULT)
        if prof: self.p.update(prof)
        self.structs, self.unions, self.funcs, self.globals = [], [], [], []
        self.sd = {}            # name -> [(field, type)]
        self.scopes = []
        self.n = 0
        self.loop = 0           # loop depth, inside which break/continue are allowed
        self.rt = []            # return types, innermost last
        self.callable = []
        self.cost = 1           # estimated number of executions of the current place
        self.inlam = 0
        self.ro = set()

    # -- helpers
    def chance(self, p): return self.r.random() < p
    def pick(self, l): return l[self.r.randrange(len(l))]
    def weighted(self, ws):
        tot = sum(w for w, _ in ws)
        x = self.r.random() * tot
        for w, v in ws:
            x -= w
            if x < 0: return v
        return ws[-1][1]
    def fresh(self, k="v"):
        self.n += 1
        return "%s%d" % (k, self.n)
    def name(self):
        if self.p["shadow"] and self.chance(0.25 * self.p["shadow"]):
            vis = [v.n for s in self.scopes for v in s if v.n not in self.ro]
            if vis:
                return self.pick(vis)
        return self.fresh()
    def visible(self):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for v in reversed(s):
                if v.n not in seen:
                    seen.add(v.n); out.append(v)
        for v in self.globals:
            if v.n not in seen: seen.add(v.n); out.append(v)
        return out
    def lvl(self): return len(self.scopes)
    def declare(self, v): self.scopes[-1].append(v)

    # -- types
    def inttype(self): return self.pick(self.p["ints"])
    def scalar(self):
        w = [(6, "i"), (self.p["bools"] * 0.5, "b"), (self.p["floats"], "f"), (self.p["strs"], "s")]
        k = self.weighted(w)
        if k == "i": return self.inttype()
        if k == "b": return I1
        if k == "f": return self.pick([F32, F64])
        return STR
    def anytype(self, d=2, ptrs=True):
        w = [(6, "sc")]
        if self.structs: w.append((self.p["structs"], "st"))
        if self.p["arrays"] and d > 0: w.append((self.p["arrays"], "arr"))
        if self.p["ptrs"] and d > 0 and ptrs: w.append((self.p["ptrs"], "ptr"))
        if self.p["fns"] and d > 0: w.append((self.p["fns"] * 0.5, "fn"))
        k = self.weighted(w)
        if k == "sc": return self.scalar()
        if k == "st": return nm(self.pick(self.structs))
        if k == "arr": return arr(self.r.choice([1, 2, 3, 4, 4]), self.anytype(d - 1, ptrs))
        if k == "ptr": return ptr(self.weighted([(4, self.inttype()), (1, I1)] + ([(3, nm(self.pick(self.structs)))] if self.structs else [])))
        return self.fntype()
    def fntype(self):
        return fnt([self.scalar() for _ in range(self.r.randrange(3))], self.scalar())
    def fields(self, t): return self.sd[t[1]]
    def isint(self, t): return t[0] in "iu" and len(t[0]) == 1 and t[1] != 1
    def isptr(self, t): return t[0] == "*"
    def printable(self, t): return len(t[0]) == 1 and t[0] in "iuf" or t == STR

    # -- lvalue paths: (expr, type, mutable, level) of everything reachable from a variable
    def paths(self, v, depth=2, forwrite=False):
        out = []
        def go(e, t, mut, d):
            out.append((e, t, mut))
            if d == 0: return
            if t[0] == "name" and t[1] in self.sd:
                for f, ft in self.fields(t): go((lambda e=e, f=f: dot(e(), f)), ft, mut, d - 1)
            elif t[0] == "arr":
                go((lambda e=e, n=t[1]: idx(e(), self.index(n))), t[2], mut, d - 1)
            elif t[0] == "*" and t != STR:
                if t[1][0] == "name" and t[1][1] in self.sd:
                    for f, ft in self.fields(t[1]): go((lambda e=e, f=f: dot(e(), f)), ft, True, d - 1)
                go((lambda e=e: pre("*", e())), t[1], True, d - 1)
        if v.const:
            go(lambda: var(v.n), v.t, False, 0)
        else: go(lambda: var(v.n), v.t, v.mut, depth)
        return out
    def lvalues(self, t=None, write=False, kinds=None):
        out = []
        for v in self.visible():
            for e, pt, mut in self.paths(v):
                if (t is None or pt == t) and (mut or not write): out.append((e, pt, v))
        return out
    def index(self, n):
        """an index that is in 0..n-1"""
        k = self.r.random()
        cands = [v for v in self.visible() if v.n in self.ro and v.t == I32 and getattr(v, "const", False) is False and self.bound.get(v.n, 99) <= n]
        if cands and k < 0.5: return var(self.pick(cands).n)
        if n in (2, 4) and k < 0.75 and self.budget > 0:
            it = self.weighted([(3, I32), (1, I64), (1, U8), (1, I16)])
            if it in self.p["ints"] or it == I32:
                return bin_("&", self.expr(it, 1), num(n - 1, it))
        return lit(self.r.randrange(n)) if self.chance(0.8) else num(self.r.randrange(n), self.pick([I64, U8, U64, I16]))

    # -- expressions
    def expr(self, t, d=None):
        if d is None: d = self.p["depth"]
        self.budget -= 1
        if self.budget < 0: d = 0
        k = t[0]
        if k in ("i", "u"): return self.iexpr(t, d) if t[1] != 1 else self.bexpr(d)
        if k == "f": return self.fexpr(t, d)
        if t == STR: return self.sexpr(d)
        if k == "name": return self.aggexpr(t, d)
        if k == "arr": return self.arrexpr(t, d)
        if k == "*": return self.ptrexpr(t, d)
        if k == "fn": return self.fnexpr(t, d)
        raise ValueError(t)
    def common(self, t, d):
        """generic ways to make a value of type t: (weight, thunk)"""
        w = []
        lv = self.lvalues(t)
        if lv: w.append((4, lambda: self.pick(lv)[0]()))
        if d > 0:
            fs = [f for f in self.callable if f.rt == t]
            if fs and self.cost < 60: w.append((2, lambda: self.callf(self.pick(fs), d)))
            if self.p["fns"] and self.cost < 60:
                fv = [v for v in self.visible() if v.t[0] == "fn" and v.t[2] == t]
                if fv: w.append((2, lambda: self.callv(self.pick(fv), d)))
            if self.p["blks"]: w.append((0.35 * self.p["blks"], lambda: self.blkexpr(t, d)))
        return w
    def callf(self, f, d):
        if f.ps and f.ps[0] == ("fuel", I32):
            args = [lit(self.r.randrange(1, 4))] + [self.expr(p, d - 1) for _, p in f.ps[1:]]
        else: args = [self.expr(p, d - 1) for _, p in f.ps]
        if self.p["ufcs"] and f.ps and not f.mod and f.ps[0][1][0] in ("i", "u", "f", "name") and self.chance(0.4) and args[0]["k"] in ("id", "dot", "idx", "call"):
            t0 = f.ps[0][1]
            if t0[0] != "name" or f.n not in [x for x, _ in self.sd.get(t0[1], [])]:
                return call(dot(args[0], f.n), *args[1:])
        return call(var(f.n) if not f.mod else dot(var(f.mod), f.n), *args)
    def callv(self, v, d):
        return call(var(v.n), *[self.expr(p, d - 1) for p in v.t[1]])
    def blkexpr(self, t, d):
        """(: T { ... return e; })"""
        ss = []
        saved = self.loop, self.inblk
        self.loop = 0; self.inblk = True
        self.scopes.append([]); self.rt.append(t)
        for _ in range(self.r.randrange(3)): ss += self.stmt(1)
        if self.chance(0.4):
            ss.append(if_(self.bexpr(1), block(ret(self.expr(t, d - 1)))))
            if self.chance(0.3): ss.append(self.printstmt())
        ss.append(ret(self.expr(t, d - 1)))
        self.rt.pop(); self.scopes.pop()
        self.loop, self.inblk = saved
        return blk(t, block(*ss))
    def intlit(self, t):
        n = t[1]
        v = self.pick(INTERESTING) if self.chance(0.6) else self.r.randrange(256)
        if self.chance(0.3): v = -v
        return num(v, t)
    def iexpr(self, t, d):
        w = [(2 if d else 3, lambda: self.intlit(t))] + self.common(t, d)
        if t == I8: w.append((1, lambda: char(self.pick([65, 97, 48, 32, 10, 39, 92, 122]))))
        if d > 0:
            e = lambda: self.expr(t, d - 1)
            w += [(4, lambda: bin_(self.pick(["+", "-", "*"]), e(), e())),
                  (2, lambda: bin_(self.pick(["&", "|", "^"]), e(), e())),
                  (1, lambda: bin_(self.pick(["/", "%"]), e(), self.divisor(t, d))),
                  (1.5, lambda: bin_(self.pick(["<<", ">>"]), e(), self.shamt(t))),
                  (1, lambda: neg(e())),
                  (2, lambda: self.castto(t, d))]
            if t == I32 and self.p["sizeof"]: w.append((0.3, lambda: sizeof(self.anytype())))
            if self.p["sideeff"]:
                lv = self.lvalues(t, write=True)
                if lv: w.append((0.7 * self.p["sideeff"], lambda: pre(self.pick(["++", "--"]), self.pick(lv)[0]())))
        return self.weighted(w)()
    def divisor(self, t, d):
        k = self.r.random()
        if k < 0.5: return num(self.pick([1, 2, 3, 7, 10, 100]) * (1 if t[0] == "u" or self.chance(0.6) else -1), t)
        if k < 0.75: return bin_("|", self.expr(t, d - 1), num(1, t))
        return bin_("+", bin_("&", self.expr(t, d - 1), num(7, t)), num(1, t))
    def shamt(self, t):
        if self.chance(0.6): return lit(self.r.randrange(t[1]))
        st = self.pick([x for x in (I8, I16, I32, I64) if x in self.p["ints"]] or [I32])
        if self.chance(0.4): return num(self.r.randrange(t[1]), st)
        return bin_("&", self.expr(st, 1), num(t[1] - 1, st))
    def castto(self, t, d):
        src = self.weighted([(6, "i"), (1, "b"), (self.p["floats"] * 0.5, "f")])
        if src == "i": e = self.expr(self.inttype(), d - 1)
        elif src == "b": e = self.bexpr(d - 1)
        else: e = self.fexpr(self.pick([F32, F64]), d - 1)
        return cast(t, e)
    def bexpr(self, d):
        w = [(1, lambda: cast(I1, lit(self.r.randrange(2))))] + self.common(I1, d)
        it = self.inttype()
        w.append((3, lambda: bin_(self.pick(["==", "!=", "<", "<=", ">", ">="]), self.expr(it, max(d - 1, 0)), self.expr(it, max(d - 1, 0)))))
        if d > 0:
            b = lambda: self.bexpr(d - 1)
            w += [(2, lambda: bin_(self.pick(["&&", "||"]), b(), b())),
                  (1, lambda: pre("!", b())),
                  (0.4, lambda: pre("!", self.expr(self.inttype(), d - 1))),
                  (0.4, lambda: bin_(self.pick(["==", "!=", "<", ">", "^", "&", "|"]), b(), b()))]
            if self.p["floats"]:
                ft = self.pick([F32, F64])
                w.append((self.p["floats"] * 0.7, lambda: bin_(self.pick(["==", "!=", "<", "<=", ">", ">="]), self.expr(ft, d - 1), self.expr(ft, d - 1))))
            if self.p["strs"]:
                w.append((self.p["strs"] * 0.7, lambda: bin_(self.pick(["==", "!=", "<", "<=", ">", ">="]), self.sexpr(d - 1), self.sexpr(d - 1))))
            if self.p["ptrs"]:
                pts = [v for v in self.visible() if self.isptr(v.t) and v.t != STR]
                if pts:
                    pv = self.pick(pts)
                    w.append((1, lambda: bin_(self.pick(["==", "!="]), var(pv.n), self.expr(pv.t, d - 1))))
                    w.append((0.5, lambda: pre("!", var(pv.n))))
        return self.weighted(w)()
    def fexpr(self, t, d):
        def flit():
            e = self.r.randrange(0, 800) if self.chance(0.7) else self.pick([0, 4, 8, 12, 1, 8000])
            x = flt(e) if self.chance(0.8) else fltd(self.pick(["0.1", "3.14159", "1000000.0", "123456789.0", "0.001", "16777217.0", "99999.9995", "340282346638528859811704183484516925440.0", "0.0000001"]))
            return x if t == F32 else cast(F64, x)
        w = [(2, flit)] + self.common(t, d)
        if d > 0:
            e = lambda: self.expr(t, d - 1)
            w += [(3, lambda: bin_(self.pick(["+", "-"]), e(), e())),
                  (1, lambda: bin_("*", e(), flit())),
                  (0.5, lambda: bin_("/", e(), cast(t, lit(self.pick([1, 2, 3, 4, 7, 10]))))),
                  (0.2, lambda: bin_("*", e(), e())),
                  (1, lambda: cast(t, self.expr(self.pick([I8, I16, U8, I32, I64, U32, U64, I1]), d - 1))),
                  (1, lambda: cast(t, self.expr(F64 if t == F32 else F32, d - 1))),
                  (0.5, lambda: neg(bin_("+", e(), flit())))]
            if self.p["sideeff"]:
                lv = self.lvalues(t, write=True)
                if lv: w.append((0.5 * self.p["sideeff"], lambda: pre(self.pick(["++", "--"]), self.pick(lv)[0]())))
        return self.weighted(w)()
    def sexpr(self, d):
        w = [(3, lambda: string(self.pick(STRS)))] + self.common(STR, d)
        if d > 0: w.append((2, lambda: bin_("+", self.sexpr(d - 1), self.sexpr(d - 1))))
        return self.weighted(w)()
    def aggexpr(self, t, d):
        w = self.common(t, d)
        def lit_():
            fs = list(self.fields(t))
            if self.chance(0.3): self.r.shuffle(fs)
            m, s = ("", t[1])
            return slit(s, [(f, self.expr(ft, max(d - 1, 0))) for f, ft in fs], m)
        w.append((2 if d > 0 else 1, lit_))
        return self.weighted(w)()
    def arrexpr(self, t, d):
        w = self.common(t, d)
        w.append((2, lambda: alit(t, [self.expr(t[2], max(d - 1, 0)) for _ in range(t[1])])))
        return self.weighted(w)()
    def ptrexpr(self, t, d):
        """a pointer that stays valid as long as the innermost scope"""
        w = [(3, (lambda e=e: pre("&", e()))) for e, pt, v in self.lvalues(t[1]) if not v.const][:6]
        w += [(2, (lambda e=e: e())) for e, pt, v in self.lvalues(t)][:4]
        if self.p["heap"] and self.cost < 30: w.append((0.5 * self.p["heap"], lambda: self.newptr(t, d)))
        if not w: w.append((1, lambda: self.newptr(t, d)))
        return self.weighted(w)()
    def newptr(self, t, d):
        """a block expression that allocates and initialises"""
        n = self.fresh("h")
        return blk(t, block(decl(n, alloc(t[1], num(1, self.pick([I32, I64])))), asg(pre("*", var(n)), self.expr(t[1], max(d - 1, 0))), ret(var(n))))
    def fnexpr(self, t, d):
        w = []
        for v in self.visible():
            if v.t == t: w.append((2, (lambda v=v: var(v.n))))
        for f in self.callable:
            if tuple(x for _, x in f.ps) == tuple(t[1]) and f.rt == t[2] and (not f.ps or f.ps[0][0] != "fuel"):
                w.append((3, (lambda f=f: var(f.n) if not f.mod else dot(var(f.mod), f.n))))
        w.append((1.5 * self.p["lams"] + 0.01, lambda: self.lamexpr(t, d)))
        return self.weighted(w)()
    def lamexpr(self, t, d):
        ps = [(self.fresh("p"), x) for x in t[1]]
        saved = self.loop, self.rt, self.inblk, self.callable, self.cost
        self.loop = 0; self.rt = [t[2]]; self.inblk = False; self.inlam += 1
        self.cost *= 4
        if self.inlam > 1: self.callable = []
        # constants of the surrounding function stay visible, variables are captured
        self.scopes.append([V(n, x, lvl=self.lvl()) for n, x in ps])
        ss = []
        if self.budget > 0 and self.inlam < 2:
            for _ in range(self.r.randrange(3)): ss += self.stmt(1)
        ss.append(ret(self.expr(t[2], min(d, 2))))
        self.scopes.pop()
        self.inlam -= 1
        self.loop, self.rt, self.inblk, self.callable, self.cost = saved
        return lam(ps, t[2], block(*ss))

    # -- statements: each returns a list of statements
    def printstmt(self, vs=None):
        es = []
        for _ in range(self.r.randrange(1, 4)):
            t = self.scalar()
            lv = [x for x in self.lvalues() if self.printable(x[1])]
            if lv and self.chance(0.7): es.append(self.pick(lv)[0]())
            else: es.append(self.expr(t, 2))
        return ex(print_(*(es + [string("\n")])))
    def body(self, nest, n=None, extra=(), exit=False):
        self.scopes.append(list(extra))
        ss = []
        for _ in range(n if n is not None else self.r.randrange(1, 4)): ss += self.stmt(nest)
        if exit: ss = self.maybe_exit(ss)
        self.scopes.pop()
        return ss
    def stmt(self, nest):
        p = self.p
        self.budget = 14
        w = [(3, self.s_decl), (3, self.s_assign), (p["prints"], lambda: [self.printstmt()]), (p["sideeff"] * 0.7, self.s_incr)]
        if p["multi"]: w.append((0.6 * p["multi"], self.s_multi))
        if self.callable and self.cost < 60: w.append((0.7, self.s_call))
        if nest > 0:
            c = p["control"]
            w += [(1.2 * c, lambda: self.s_if(nest)), (0.5 * c, lambda: self.s_for(nest)), (0.3 * c, lambda: self.s_while(nest)),
                  (0.5 * c, lambda: self.s_switch(nest)), (0.3 * c, lambda: [block(*self.body(nest - 1))])]
        if self.loop: w.append((0.5, self.s_jump))
        if p["heap"] and self.cost < 10: w.append((0.3 * p["heap"], self.s_heap))
        if p["unions"] and self.unions: w.append((1.2 * p["unions"], self.s_union))
        return self.weighted(w)()
    def s_decl(self):
        t = self.anytype()
        isconst = self.p["consts"] and self.chance(0.12 * self.p["consts"])
        if isconst:
            t = self.weighted([(3, self.inttype()), (1, I1)])
            e = self.constexpr(t, 2)
        else: e = self.expr(t)
        n = self.name()
        ty = t if self.chance(0.4) else NONE
        self.declare(V(n, t, mut=not isconst, lvl=self.lvl(), const=isconst))
        return [decl(n, e, ty, const=isconst)]
    def constexpr(self, t, d):
        cs = [v for v in self.visible() if v.const and v.t == t]
        if cs and self.chance(0.4): return var(self.pick(cs).n)
        if t == I1:
            return cast(I1, lit(self.r.randrange(2)))
        if d > 0 and self.chance(0.6):
            op = self.pick(["+", "-", "*", "&", "|", "^"])
            return bin_(op, self.constexpr(t, d - 1), self.constexpr(t, d - 1))
        v = self.pick(INTERESTING)
        v %= 1 << t[1]
        if t == I32: return lit(v % (1 << 31))
        return cast(t, lit(v))
    def s_assign(self):
        lv = self.lvalues(write=True)
        lv = [x for x in lv if x[2].n not in self.ro]
        if not lv: return self.s_decl()
        e, t, v = self.pick(lv)
        return [asg(e(), self.expr(t))]
    def s_incr(self):
        lv = [x for x in self.lvalues(write=True) if (self.isint(x[1]) or x[1][0] == "f") and x[2].n not in self.ro]
        if not lv: return self.s_decl()
        return [ex(pre(self.pick(["++", "--"]), self.pick(lv)[0]()))]
    def s_multi(self):
        fs = [f for f in self.callable if f.rt[0] == "list"]
        if fs and self.chance(0.6) and self.cost < 60:
            f = self.pick(fs)
            ts = f.rt[1]
            e = self.callf(f, 1)
        else:
            ts = [self.scalar() for _ in range(self.r.randrange(2, 4))]
            e = comma(*[self.expr(t, 2) for t in ts])
        lvs = [[x for x in self.lvalues(t, write=True) if x[2].n not in self.ro] for t in ts]
        if all(lvs) and self.chance(0.5):
            picked = [self.pick(l) for l in lvs]
            l = comma(*[x[0]() for x in picked])
            if l["c"][0]["k"] in ("id", "dot", "idx") and l["c"][0]["k"] != "pre": return [asg(l, e)]
        ns = []
        for t in ts: ns.append(self.fresh())
        for n, t in zip(ns, ts): self.declare(V(n, t, lvl=self.lvl()))
        return [mdecl(ns, e)]
    def s_call(self):
        return [ex(self.callf(self.pick(self.callable), 2))]
    def s_jump(self):
        return [if_(self.bexpr(1), block(brk() if self.chance(0.5) else cont()))]
    def maybe_exit(self, ss):
        """sometimes a branch ends by leaving"""
        k = self.r.random()
        if k < 0.12 and self.rt and self.rt[-1] is not None:
            rt = self.rt[-1]
            self.budget = 5
            return ss + [ret() if rt == VOID else ret(self.retexpr(rt))]
        if k < 0.25 and self.loop: return ss + [brk() if self.chance(0.5) else cont()]
        return ss
    def retexpr(self, rt):
        if rt[0] == "list": return comma(*[self.expr(t, 2) for t in rt[1]])
        return self.expr(rt, 2)
    def cond(self):
        k = self.r.random()
        if k < 0.85: return self.bexpr(2)
        if k < 0.95 or not self.p["floats"]: return self.expr(self.inttype(), 2)
        return self.expr(F32, 1)
    def s_if(self, nest):
        c = [self.cond(), block(*self.body(nest - 1, exit=True))]
        while self.chance(0.3): c += [self.cond(), block(*self.body(nest - 1, exit=True))]
        if self.chance(0.5): c.append(block(*self.body(nest - 1, exit=True)))
        return [if_(*c)]
    def loopbody(self, nest, extra):
        self.loop += 1
        c = self.cost
        self.cost *= 4
        b = self.body(nest - 1, extra=extra, exit=True) if self.cost <= 64 else [self.printstmt()]
        self.cost = c
        self.loop -= 1
        return b
    def s_for(self, nest):
        i = self.fresh("i")
        n = self.r.randrange(1, 5)
        it = I32 if self.chance(0.7) else self.inttype()
        self.ro.add(i); self.bound[i] = n
        v = V(i, it, mut=False, lvl=self.lvl())
        self.scopes.append([v])
        if self.chance(0.75):
            init, cnd = decl(i, num(0, it)), bin_("<", var(i), num(n, it))
            upd = asg(var(i), bin_("+", var(i), num(1, it))) if self.chance(0.6) else ex(pre("++", var(i)))
        else:
            init, cnd = decl(i, num(n, it)), bin_(">", var(i), num(0, it)) if self.chance(0.5) else bin_("!=", var(i), num(0, it))
            upd = asg(var(i), bin_("-", var(i), num(1, it)))
            self.bound[i] = n + 1
        if self.chance(0.2): cnd = bin_("&&", cnd, self.bexpr(1))
        b = self.loopbody(nest, [])
        self.scopes.pop()
        return [for_(init, cnd, upd, block(*b))]
    def s_while(self, nest):
        i = self.fresh("w")
        n = self.r.randrange(1, 5)
        self.ro.add(i); self.bound[i] = n + 1
        self.declare(V(i, I32, mut=False, lvl=self.lvl()))
        inc = asg(var(i), bin_("+", var(i), lit(1)))
        b = self.loopbody(nest, [])
        if self.chance(0.6):
            return [decl(i, lit(0)), for_(None, bin_("<", var(i), lit(n)), None, block(inc, *b))]
        return [decl(i, lit(0)), for_(None, None, None, block(if_(bin_(">=", var(i), lit(n)), block(brk())), inc, *b))]
    def s_switch(self, nest):
        it = self.weighted([(3, I32), (1, self.inttype()), (1, I8)])
        vals = self.r.sample(range(0, 8), self.r.randrange(0, 4))
        k = self.r.random()
        if k < 0.7: e = bin_("&", self.expr(it, 2), num(7, it))
        else: e = self.expr(it, 2)
        cases = []
        for x in vals:
            cv = lit(x) if it == I32 else cast(it, lit(x))
            if it == I8 and self.chance(0.3):
                cv = char(x + 65)
            cases.append((cv, block(*self.body(nest - 1, exit=True))))
        dflt = block(*self.body(nest - 1, exit=True)) if self.chance(0.7) else None
        return [sw(e, cases, dflt)]
    def s_heap(self):
        """allocate, fill, perhaps grow, use, perhaps free"""
        t = self.weighted([(3, self.inttype()), (1, I1)] + ([(2, nm(self.pick(self.structs)))] if self.structs else []))
        h, i = self.fresh("h"), self.fresh("i")
        n = self.r.choice([2, 4])
        it = self.pick([I32, I64, U8, U32])
        self.budget = 10
        ss = [decl(h, alloc(t, num(n, it)))]
        self.ro.add(i); self.bound[i] = n
        iv = V(i, I32, mut=False, lvl=self.lvl())
        self.scopes.append([iv])
        body = block(asg(idx(var(h), var(i)), self.expr(t, 2)))
        self.scopes.pop()
        ss.append(for_(decl(i, lit(0)), bin_("<", var(i), lit(n)), asg(var(i), bin_("+", var(i), lit(1))), body))
        if self.chance(0.4):
            ss.append(asg(var(h), realloc(var(h), num(n + 2, it))))
            self.budget = 8
            ss += [asg(idx(var(h), lit(n)), self.expr(t, 1)), asg(idx(var(h), lit(n + 1)), self.expr(t, 1))]
            n += 2
        self.budget = 8
        es = []
        for _ in range(2):
            k = self.r.randrange(n)
            e = idx(var(h), lit(k)) if self.chance(0.5) else pre("*", bin_("+", var(h), num(k, self.pick([I32, I64, U8]))))
            if t[0] == "name":
                fs = [f for f, ft in self.fields(t) if self.printable(ft)]
                if not fs: continue
                e = dot(idx(var(h), lit(k)), self.pick(fs))
            es.append(e)
        if es: ss.append(ex(print_(*(es + [string("\n")]))))
        if self.chance(0.5):
            ss.append(ex(free(var(h))))
        else:
            self.ro.add(h)
            self.declare(V(h, ptr(t), mut=False, lvl=self.lvl()))
        return ss
    def s_union(self):
        u = self.pick(self.unions)
        fs = self.sd_u[u]
        n = self.fresh("u")
        f, ft = self.pick(fs)
        ss = [decl(n, self.expr(ft, 2), nm(u))]
        for _ in range(self.r.randrange(1, 4)):
            if self.chance(0.6):
                f, ft = self.pick(fs)
                self.budget = 8
                ss.append(asg(dot(var(n), f) if self.chance(0.5) else var(n), self.expr(ft, 2)))
            k = [f2 for f2, ft2 in fs if ft2 == ft and self.printable(ft)] or ([f] if self.printable(ft) else [])
            # smaller integer views are defined as well
            k += [f2 for f2, ft2 in fs if ft2[0] in "iu" and len(ft2[0]) == 1 and ft[0] in "iu" and len(ft[0]) == 1 and 8 <= ft2[1] <= ft[1]]
            if k: ss.append(ex(print_(dot(var(n), self.pick(k)), string("\n"))))
        return ss

    # -- whole programs
    def build(self):
        p, r = self.p, self.r
        self.bound = {}
        self.inblk = False
        self.sd_u = {}
        ds_types = []
        for _ in range(r.randrange(0, p["structs"] + 1) if p["structs"] else 0):
            n = self.fresh("S")
            fs = [("f%d" % i, self.anytype(1, ptrs=False)) for i in range(r.randrange(1, 4))]
            self.sd[n] = fs; self.structs.append(n)
            ds_types.append(struct(n, fs))
        for _ in range(r.randrange(1, p["unions"] + 1) if p["unions"] else 0):
            n = self.fresh("U")
            ts = []
            for _ in range(r.randrange(1, 4)):
                t = self.anytype(1, ptrs=False)
                if t[0] == "fn": t = I64
                if t not in ts: ts.append(t)
            fs = [("u%d" % i, t) for i, t in enumerate(ts)]
            self.sd_u[n] = fs; self.unions.append(n)
            ds_types.append(union(n, fs))
        if p["shadow"] and len(ds_types) > 1 and self.chance(0.0): r.shuffle(ds_types)
        ds_glob = []
        for _ in range(r.randrange(0, p["nglobals"] + 1)):
            n = self.fresh("g")
            isconst = p["consts"] and self.chance(0.3)
            t = self.weighted([(4, self.inttype()), (1, I1)])
            ds_glob.append(decl(n, self.constexpr(t, 2), t if self.chance(0.3) else NONE, const=isconst))
            self.globals.append(V(n, t, mut=not isconst, const=isconst))
        fns = []
        for _ in range(r.randrange(0, p["nfuncs"] + 1) if p["nfuncs"] else 0):
            fns.append(self.function())
        self.budget = 14
        self.rt = [I32]; self.scopes = [[]]; self.cost = 1; self.ro = set()
        ss = []
        for _ in range(r.randrange(p["stmts"] // 2, p["stmts"] + 1)): ss += self.stmt(p["nest"])
        ss += self.dump()
        ss.append(ret(lit(r.randrange(0, 100)) if self.chance(0.7) else cast(I32, bin_("&", self.iexpr(I32, 1), lit(127)))))
        fns.append(func("main", [], I32, block(*ss)))
        order = list(fns)
        if self.chance(0.5): r.shuffle(order)
        return Program(ds_types + ds_glob + order)
    def dump(self):
        """print every scalar that is visible"""
        out, es = [], []
        for v in self.visible():
            for e, t, m in self.paths(v, 2):
                if self.printable(t): es.append(e())
        self.r.shuffle(es)
        es = es[:16]
        for i in range(0, len(es), 6): out.append(ex(print_(*(es[i:i + 6] + [string("\n")]))))
        return out
    def function(self):
        r, p = self.r, self.p
        n = self.fresh("f")
        saved = self.callable
        if p["multi"] and self.chance(0.2 * p["multi"]): rt = tlist([self.scalar() for _ in range(r.randrange(2, 4))])
        else: rt = self.weighted([(5, self.scalar()), (1, VOID), (2, self.anytype(1, ptrs=False))])
        ps = [(self.fresh("p"), self.anytype(1)) for _ in range(r.randrange(0, 4))]
        rec = p["recursion"] and self.chance(0.3)
        if rec: ps = [("fuel", I32)] + ps
        self.scopes = [[V(x, t, mut=(x != "fuel"), lvl=1) for x, t in ps]]
        self.ro = {"fuel"}
        self.rt = [rt]; self.loop = 0; self.cost = 6
        self.budget = 14
        ss = []
        if rec:
            # leave when the fuel is used up; every other call of itself passes one less
            self.budget = 5
            ss.append(if_(bin_("<=", var("fuel"), lit(0)), block(ret() if rt == VOID else ret(self.retexpr(rt)))))
        for _ in range(r.randrange(0, max(2, p["stmts"] // 2))): ss += self.stmt(max(p["nest"] - 1, 0))
        if rec:
            self.budget = 6
            c = call(n, bin_("-", var("fuel"), lit(1)), *[self.expr(t, 1) for _, t in ps[1:]])
            if rt == VOID or rt[0] == "list": ss.append(ex(c))
            else:
                x = self.fresh()
                ss.append(decl(x, c)); self.declare(V(x, rt, lvl=1))
        self.budget = 10
        if rt == VOID:
            if self.chance(0.2): ss.append(ret())
        else: ss.append(ret(self.retexpr(rt)))
        self.callable = saved + [F(n, ps, rt)]
        return func(n, ps, rt, block(*ss))

def program(rng, prof=None):
    return Gen(rng, prof).build()
