"""Shrinks a program that shows a disagreement."""
import copy, json
import cast as C
KEYS = ("b", "init", "cond", "upd", "def")

def nodes(prog):
    """every (container, key) that holds a node"""
    out = []
    def go(holder, key):
        n = holder[key]
        if n is None: return
        out.append((holder, key))
        for k in KEYS:
            if k in n and isinstance(n.get(k), dict): go(n, k)
        for i in range(len(n.get("c", []))): go(n["c"], i)
    for _, ds in prog.mods:
        for i in range(len(ds)): go(ds, i)
    return out

def count(prog): return len(nodes(prog))

EXPR = {"int", "char", "flt", "str", "id", "bin", "pre", "dot", "idx", "call", "cast", "alloc", "realloc", "sizeof", "slit", "alit", "lam", "blk"}
def variants(prog):
    """one-step smaller programs"""
    res = []
    total = len(nodes(prog))
    lists = []
    def golist(n, path):
        pass
    for pos in range(total):
        base = copy.deepcopy(prog)
        h, k = nodes(base)[pos]
        n = h[k]
        kind = n["k"]
        if isinstance(h, list) and kind in ("decl", "mdecl", "asg", "ex", "if", "for", "sw", "ret", "block", "struct", "union", "func", "brk", "cont", "macro", "import", "alias"):
            v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]
            par = h2
            if not (kind == "func" and n["s"] == "main"):
                # only where a list of statements is held
                del h2[k2]; res.append(v)
        if kind == "block" and isinstance(h, list):
            v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2:k2 + 1] = h2[k2]["c"]; res.append(v)
        if kind == "if":
            for i, x in enumerate(n["c"]):
                if x["k"] == "block":
                    v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = h2[k2]["c"][i]; res.append(v)
            if len(n["c"]) > 2:
                v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2]["c"] = h2[k2]["c"][:2]; res.append(v)
                v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2]["c"] = h2[k2]["c"][2:]
                if len(h2[k2]["c"]) >= 2: res.append(v)
        if kind == "for":
            v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = C.block(*([n["init"]] if n["init"] else []), *copy.deepcopy(n["b"]["c"])); res.append(v)
        if kind == "sw":
            for i in range(1, len(n["c"]), 2):
                v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; del h2[k2]["c"][i:i + 2]; res.append(v)
            if n["def"]:
                v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = h2[k2]["def"]; res.append(v)
        if kind in ("bin", "pre", "cast", "call", "idx", "blk", "slit", "alit"):
            for i, x in enumerate(n.get("c", [])):
                if x["k"] in EXPR:
                    v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = h2[k2]["c"][i]; res.append(v)
        if kind == "blk" and n["b"]["c"] and n["b"]["c"][-1]["k"] == "ret" and n["b"]["c"][-1]["c"]:
            v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = h2[k2]["b"]["c"][-1]["c"][0]; res.append(v)
        if kind == "print" and len(n["c"]) > 1:
            for i in range(len(n["c"])):
                v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; del h2[k2]["c"][i]; res.append(v)
        if kind in EXPR and kind not in ("int", "id", "str", "char"):
            for r in (C.lit(1), C.cast(C.I1, C.lit(1)), C.string("a"), C.cast(C.I8, C.lit(1)), C.cast(C.I64, C.lit(1))):
                if h[k] != r and r["k"] != kind:
                    v = copy.deepcopy(prog); h2, k2 = nodes(v)[pos]; h2[k2] = copy.deepcopy(r); res.append(v)
    good = []
    for v in res:
        try: v.files(); good.append(v)
        except Exception: pass
    return good

def reduce(prog, fails, rounds=40, batch=400, verbose=False):
    """fails: list of programs -> list of bool"""
    import random
    rng = random.Random(1)
    for rd in range(rounds):
        vs = variants(prog)
        vs.sort(key=count)
        seen, u = set(), []
        for v in vs:
            j = json.dumps(v.flat(), sort_keys=True)
            if j not in seen: seen.add(j); u.append(v)
        vs = u
        hit = None
        i = 0
        while i < len(vs):
            chunk = vs[i:i + batch]; i += batch
            ok = fails(chunk)
            hit = next((v for v, o in zip(chunk, ok) if o), None)
            if hit: break
        if not hit: return prog
        prog = hit
        if verbose: print("  reduced to", count(prog), flush=True)
    return prog
