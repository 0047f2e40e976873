"""What every property's check explores.  Programs come from families.py and gen.py; what they mean comes from
the TLA+ specification alone (check.Check.programs compares it with the real compiler)."""
import itertools
import families as F
import harness as H
import projects as PJ
import texts as T

QUICK, LIMIT = 1, 640        # rounds of a quick run; seconds after which a thorough run starts no other round

def opts(i, p):
    """most programs run unoptimised, some also optimised: what a program does may not depend on it"""
    return ("-O0", "-O2") if i % 6 == 0 else ("-O0",)

def mix(c, *parts, o=opts, batch=400):
    """parts: (function of a random generator, name) ; thorough runs repeat with fresh programs"""
    rounds = 0
    while True:
        c.programs(itertools.chain.from_iterable(f(c.rng) for f in parts), opts=o, batch=batch)
        rounds += 1
        if not c.thorough or c.elapsed() > LIMIT or c.violations: break
    c.cov["rounds"] = rounds
def fam(f, *a, **kw): return lambda rng: f(rng, *a, **kw)
def rnd(n, tag, **prof):
    p = dict(floats=0.3); p.update(prof)
    return lambda rng: F.random_programs(rng, n, p, tag)

CALM = dict(structs=0, arrays=0, ptrs=0, heap=0, fns=0, lams=0, blks=0, mcalls=0, ufcs=0, strs=0)
def P01(c): mix(c, fam(F.int_ops, 10), fam(F.int_mixed, 150), fam(F.int_chains, 150), rnd(100, "random integer programs", **dict(CALM, depth=5, floats=0)), fam(F.bait, 15))
def P02(c): mix(c, fam(F.conversions, 3), rnd(100, "random programs", **dict(CALM, depth=4)), fam(F.int_mixed, 50))
def P03(c): mix(c, fam(T.operator_rows, 12), fam(T.groupings, 250), fam(T.sequences, 150))
def P04(c): mix(c, fam(F.control, 150), fam(F.control_pairs, 250), fam(F.returns, 100), rnd(120, "random control flow", control=4, nest=5, stmts=8))
def P05(c): mix(c, fam(F.order, 280), rnd(100, "random side effects", sideeff=4, mcalls=3))
NAMES = ("functions", "aggregates", "modules", "lambdas", "pointers", "unions", "blocks", "scopes", "module_graph", "strings", "layouts", "permutations", "globals_")
def P06(c): mix(c, fam(F.scopes, 250), fam(F.scopes, 200, bad=0.12), rnd(80, "random shadowing", shadow=3, nest=5),
        *[fam(lambda r, g: T.renamed(r, g(r), 3), lambda r, f=f: itertools.islice(getattr(F, f)(r, 8), 8)) for f in NAMES], fam(lambda r: T.renamed(r, rnd(12, "random", stmts=3, nfuncs=2)(r), 3)))
def P07(c): mix(c, fam(F.functions, 280), rnd(120, "random calls", nfuncs=7, fns=3, mcalls=4, ufcs=3, multi=2))
def P08(c): mix(c, fam(F.lambdas, 350), rnd(120, "random captures", lams=4, fns=2))
def P09(c): mix(c, fam(F.aggregates, 250), rnd(150, "random aggregates", structs=4, arrays=4, ints=[F.I8, F.I32, F.I64]))
def P10(c): mix(c, fam(F.pointers, 280), rnd(150, "random pointers", ptrs=4, heap=3, arrays=2))
def P11(c): mix(c, fam(F.layouts, 220), fam(F.neighbours, 120), rnd(40, "random layouts", structs=5, tsz=4, sizeof=3))
def P12(c): mix(c, fam(F.unions, 280), rnd(100, "random unions", unions=4, structs=2))
def P13(c): mix(c, fam(F.strings, 250), fam(F.prints, 200), rnd(100, "random strings", strs=5, prints=4))
def P14(c): mix(c, fam(F.globals_, 350), fam(F.constants, 120), rnd(100, "random globals", nglobals=8, consts=3))
def P15(c): mix(c, fam(F.blocks, 260), rnd(150, "random block expressions", blks=4))
def P16(c): mix(c, fam(F.modules, 180), fam(F.module_graph, 150), fam(F.instances, 150), rnd(60, "random modules", mods=2))
def P17(c): mix(c, fam(F.type_errors, 600), fam(F.misfits, 1200))
def P18(c): mix(c, fam(F.returns, 600), fam(F.static_errors, 500), fam(F.constants, 400), fam(F.scopes, 100, bad=0.3))
BREAK = ("functions", "aggregates", "modules", "lambdas", "pointers", "unions", "strings", "blocks", "control", "macros", "globals_", "module_graph", "layouts", "floats", "returns", "permutations", "scopes")
def P19(c):
    c.strict = True
    mix(c, fam(T.zoo, 0.5), *[fam(lambda r, g: T.broken(r, g(r), 4), lambda r, f=f: itertools.islice(getattr(F, f)(r, 12), 12)) for f in BREAK],
        fam(lambda r: T.broken(r, rnd(12, "random", stmts=3, nfuncs=2)(r), 4)), fam(lambda r: T.broken(r, T.groupings(r, 12), 4)), fam(lambda r: T.broken(r, T.sequences(r, 12), 4)))
def P20(c): mix(c, fam(F.permutations, 120))
def P22(c): mix(c, fam(F.bait, 40), fam(F.large, 14), rnd(80, "random programs"), fam(F.aggregates, 20), fam(F.lambdas, 20), fam(F.unions, 20), fam(F.modules, 20), fam(F.functions, 20), fam(F.blocks, 20), fam(F.pointers, 20),
                 o=("-O0", "-O1", "-O2", "-O3"))
def P23(c): mix(c, fam(F.macros, 600))
def P26(c): mix(c, fam(F.externs, 280), fam(F.extern_errors, 160), o=lambda i, p: ("-O0", "-O2") if i % 3 == 0 else ("-O0",))
def P27(c): mix(c, fam(F.floats, 700), rnd(40, "random float programs", floats=3))

def P21(c):
    c.tokens(T.bytes1(), "single bytes")
    c.tokens(T.pairs(), "two printable characters")
    c.tokens(T.short(2), "letters of the alphabet")
    c.tokens(T.framed(), "every byte inside of every kind of token")
    c.tokens(T.fragment_pairs(), "pairs of fragments")
    while True:
        c.tokens(T.fragments(c.rng, 6000), "random fragments")
        c.tokens((s for p in F.random_programs(c.rng, 40, {}, "t") for s in (x.encode("latin1") if isinstance(x, str) else x for x in p.files().values())), "programs")
        if not c.thorough or c.elapsed() > LIMIT or c.violations: break
    if c.thorough and not c.violations: c.tokens(T.short(3), "letters of the alphabet")

def P24(c):
    tools = PJ.Tools(c.work)
    while True:
        c.projects(tools, PJ, PJ.cases(c.rng, 700))
        if not c.thorough or c.elapsed() > LIMIT or c.violations: break
