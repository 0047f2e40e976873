"""Projects on disk: the command line (cmd/build, cmd/compiler) against CdBuild (P24)."""
import json, os, random, shutil, subprocess, collections
from concurrent.futures import ThreadPoolExecutor
import harness as H

CLANG = shutil.which("clang") or "/usr/bin/clang"
DIRS = [[], ["src"], ["src", "lib"], ["lib"]]
def rel(a, b):
    """the relative path from directory a to b"""
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]: i += 1
    return [".."] * (len(a) - i) + b[i:]
def around(rng, a, p):
    """the same relative path, perhaps with steps that lead nowhere (a: the directory it starts at, which has parents only below the root)"""
    k = rng.random()
    if k < 0.6: return ["."] + p
    if k < 0.85 or not a: return p
    return ["..", a[-1]] + p

def case(rng, dev):
    d = lambda: rng.random() < dev
    mode = rng.choice(["build", "build", "run", "run", "compile"]) if rng.random() < 0.96 else "init"
    proj = rng.choice([["p"], ["p", "q"], []]) if d() else ["p"]
    cwd = rng.choice([[], ["p"], ["else"], ["p", "src"]]) if d() else proj
    base = cwd if mode == "compile" else proj
    if mode == "compile": proj = []
    files, used = [], set()
    def put(p, **kw):
        if tuple(p) in used: return 0
        used.add(tuple(p)); files.append(dict(dict(p=p, ims=[], what="ok", code=0, flag=False), **kw)); return len(files)
    entry = rng.choice(DIRS) + ["main.cd"] if d() else ["main.cd"]
    put(base + entry, code=rng.choice([0, 0, 7, 255]))
    for _ in range(rng.randrange(5)):
        put(base + rng.choice(DIRS) + [rng.choice(["a.cd", "b.cd", "main.cd"])], code=rng.randrange(4))
    n = len(files)
    kinds = ["ok"] * 6 + ["extern", "stdin"]
    for i in range(n):
        f = files[i]
        for j in range(i + 1, n):
            if rng.random() < (0.7 if j == i + 1 else 0.3): f["ims"].append(around(rng, f["p"][:-1], rel(f["p"][:-1], files[j]["p"])))
        if d(): f["what"] = rng.choice(kinds)
        if d() and mode != "compile": f["flag"] = True
        if d() and rng.random() < 0.25: f["what"] = rng.choice(["syntax", "types", "code"])
        if d() and rng.random() < 0.2: f["ims"].append(rng.choice([["."] + ["none.cd"], ["nodir", "a.cd"], rel(f["p"][:-1], files[rng.randint(0, i)]["p"])]))
        rng.shuffle(f["ims"])
    # other files with the same names, where the command runs or beside the entry
    for at in ([], cwd, proj, ["else"]):
        if d():
            for f in list(files):
                if f["p"][:len(base)] == base: put(at + f["p"][len(base):], code=rng.randrange(8))
    conf = dict(form="ok", entry=entry, kind="cxx", binary="exe", output=["prog"], cxx="clang", flags=[])
    if mode == "compile": conf["kind"] = "llvm"
    elif mode == "init": conf["form"] = "nodir" if d() else "ok"; files.clear()
    else:
        if d(): conf["kind"] = "llvm"
        if d() and rng.random() < 0.1: conf["kind"] = rng.choice(["zig", ""])
        if d(): conf["binary"] = rng.choice(["", "obj"])
        if d() and rng.random() < 0.2: conf["form"] = rng.choice(["missing", "broken", "type", "nodir"])
    if d() and rng.random() < 0.3: conf["entry"] = rng.choice([["none.cd"], ["nodir", "main.cd"]])
    if mode == "init": return dict(mode=mode, release=False, cwd=cwd, proj=proj, absolute=False, slash=d(), args=not (d() and rng.random() < 0.3), conf=conf, stale=False, files=[],
                                   dirs=[list(x[:i]) for x in (cwd, proj) for i in range(len(x) + 1)])
    if mode != "compile" and rng.random() < 0.2: conf["entry"] = ["."] + conf["entry"]
    if d(): conf["output"] = rng.choice([["out", "prog"], ["out", "prog"], ["nodir", "prog"]] + ([["..", "prog"]] if base else []) + ([[]] if mode != "compile" and conf["binary"] != "obj" else []))
    if d() and rng.random() < 0.4: conf["cxx"] = rng.choice(["failing", "missing"])
    T = lambda t, p=[]: {"t": t, "p": p}
    if mode != "compile":
        for x in ("-DA", "-g", "-DB=1"):
            if d(): conf["flags"].append(T(x))
    if any(f["what"] == "extern" for f in files) and rng.random() < 0.85 or d():
        o = rng.choice([["ext.o"], ["lib", "ext.o"]])
        conf["flags"].insert(rng.randint(0, len(conf["flags"])), T("/".join(o), o))
        if rng.random() < 0.93: put(base + o, what="obj", code=rng.randrange(5))
        for at in (cwd, proj, []):
            put(at + o, what="obj", code=rng.randrange(5, 9)) if at != base and d() else 0
    if mode != "compile" and d():                # options come in pairs, and as often as they are given
        for x in rng.choice([("-Xlinker", "-znow", "-Xlinker", "-zrelro"), ("-g", "-DA", "-g"), ("-I", "lib", "-I", "src")]):
            conf["flags"].append(T(x))
    dirs = [[], proj, cwd, base + ["out"], ["else"]] + ([base[:-1]] if base else []) + [f["p"][:-1] for f in files]
    dirs = [list(x) for x in {tuple(x[:i]) for x in dirs for i in range(len(x) + 1)}]
    out = base + conf["output"]
    return dict(mode=mode, release=mode != "compile" and d(), cwd=cwd, proj=proj, absolute=d(), slash=d(), args=not (d() and rng.random() < 0.1), conf=conf,
                stale=conf["output"] != [] and conf["output"][0] != "nodir" and d() and conf["form"] != "nodir", files=files, dirs=dirs)
def cases(rng, n):
    return [case(rng, rng.choice([0.05, 0.15, 0.15, 0.3, 0.5])) for _ in range(n)]

def text(c, i):
    """the source of file i (from 1)"""
    f = c["files"][i - 1]
    if f["what"] == "syntax": return "func (\n"
    out = "".join('import m%d, "%s"\n' % (j, "/".join(p)) for j, p in enumerate(f["ims"]))
    body = '@print("%d."); @print(n); @print(" "); n = n + 1; ' % i
    if f["flag"]: body = '@add_compiler_flag("-DF%d"); ' % i + body
    if f["what"] == "extern": out += "extern func ext() i32\n"; body += '@print("e"); @print(ext()); @print(" "); '
    if f["what"] == "stdin": out += "extern func getchar() i32\n"; body += '@print("i"); @print(getchar()); @print(" "); '
    out += "n : i32 = 0\n"
    if f["what"] == "types": out += 'func bad() i32 { return "s"; }\n'
    if f["what"] == "code": out += "v : i32 = n\n"
    body += "".join("m%d.show(); " % j for j in range(len(f["ims"])))
    out += "func show() { %s}\n" % body
    if f["p"][-1] == "main.cd": out += "func main() i32 { show(); return %d; }\n" % f["code"]
    return out

class Tools:
    """the command line programs and the stand-ins for the linker"""
    def __init__(self, work):
        self.work = work; self.dir = work.sub("cli")
        env = dict(os.environ); env.update(H.GOENV)
        for cmd in ("build", "compiler"):
            r = subprocess.run(["go", "build", "-o", os.path.join(self.dir, cmd), "./cmd/" + cmd], cwd=H.REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode: raise H.Broken("cmd/%s does not build: %s" % (cmd, r.stdout.decode(errors="replace")))
        self.objs = {}
        for v in range(9):
            o = os.path.join(self.dir, "ext%d.o" % v)
            r = subprocess.run([CLANG, "-c", "-x", "c", "-", "-o", o], input=b"int ext(void) { return %d; }" % v, timeout=60)
            if r.returncode: raise H.Broken("clang fails")
            self.objs[v] = open(o, "rb").read()
        self.stubs = {"clang": self.stub(True), "failing": self.stub(False), "missing": "/nonexistent/cc"}
    def stub(self, ok):
        """a linker that writes down its arguments (made once: a file that is being written can't be run)"""
        d = os.path.join(self.dir, "ok" if ok else "failing"); os.makedirs(d)
        p = os.path.join(d, "clang")
        with open(p, "w") as f:
            f.write("#!/bin/sh\nPATH=/usr/local/bin:/usr/bin:/bin\nfor a in \"$@\"; do printf '%%s\\n' \"$a\" >> \"$CD_LOG\"; done\nprintf '\\001\\n' >> \"$CD_LOG\"\n%s\n" % ('exec %s "$@"' % CLANG if ok else "echo no; exit 1"))
        os.chmod(p, 0o755); return p

OLD = b"#!/bin/sh\necho old\n"
def limits(): H.resource.setrlimit(H.resource.RLIMIT_CPU, (30, 30)); H.resource.setrlimit(H.resource.RLIMIT_CORE, (0, 0))
def observe(tools, c):
    """what the real command does with a case"""
    top = tools.work.sub()
    root, log = os.path.join(top, "t"), os.path.join(top, "log")
    P = lambda p: os.path.join(root, *p)
    for x in c["dirs"]: os.makedirs(P(x), exist_ok=True)
    for i, f in enumerate(c["files"]):
        if f["what"] == "obj": open(P(f["p"]), "wb").write(tools.objs[f["code"]])
        else: open(P(f["p"]), "w").write(text(c, i + 1))
    q = c["conf"]; base = c["cwd"] if c["mode"] == "compile" else c["proj"]
    path = "/usr/local/bin:/usr/bin:/bin"
    if c["mode"] == "compile":
        path = os.path.dirname(tools.stubs[q["cxx"]])
        cmd = [os.path.join(tools.dir, "compiler"), "-name", "/".join(q["output"])]
        objs = [x["t"] for x in q["flags"]]
        if objs: cmd += ["-o", ",".join(objs)]
        if c["args"]: cmd.append(P(c["cwd"] + q["entry"]) if c["absolute"] else "/".join(q["entry"]))
    else:
        cxx = tools.stubs[q["cxx"]]
        js = {"name": "x", "entrypoint": "/".join(q["entry"]), "cxx": cxx, "kind": q["kind"], "binary": q["binary"], "output": "/".join(q["output"]), "flags": [x["t"] for x in q["flags"]], "more": [1]}
        js = {a: b for a, b in js.items() if b not in ("", [])}
        if q["form"] == "type": js["output"] = 5
        s = json.dumps(js, indent=1)
        if q["form"] == "broken": s = s[:-3]
        if q["form"] != "missing" and c["mode"] != "init": open(P(c["proj"] + ["candice.json"]), "w").write(s)
        at = rel(c["cwd"], c["proj"]) + (["gone"] if q["form"] == "nodir" else [])
        arg = P(c["proj"] + at[len(rel(c["cwd"], c["proj"])):]) if c["absolute"] else "/".join(at) or "."
        cmd = [os.path.join(tools.dir, "build"), c["mode"]] + ([arg + ("/" if c["slash"] else "")] if c["args"] else [])
        if c["release"] and c["args"]: cmd.append("--release")
    out = os.path.normpath(P(base + q["output"]))
    exe = out + (".o" if q["binary"] == "obj" else "")
    if c["stale"]:
        open(exe, "wb").write(OLD); os.chmod(exe, 0o755)
    snap = lambda: {os.path.join(a, f): open(os.path.join(a, f), "rb").read() for a, _, fs in os.walk(root) for f in fs}
    before = snap()
    env = {"PATH": path, "HOME": top, "TMPDIR": top, "CD_LOG": log}
    try: r = subprocess.run(cmd, cwd=P(c["cwd"]), env=env, input=b"Q", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, preexec_fn=limits)
    except subprocess.TimeoutExpired: return None
    after = snap()
    o = {"said": r.stdout.decode("latin1"), "rc": r.returncode, "cmd": cmd[1:], "exe": "none", "text": "", "code": 0}
    o["changed"] = sorted(os.path.relpath(f, root) for f in set(before) | set(after) if before.get(f) != after.get(f) and f != exe)
    o["ll"] = os.path.relpath(os.path.join(P(base), "/".join(q["output"]) + (".o" if q["binary"] == "obj" else "") + ".ll"), root)
    if exe in after:
        if after[exe] == OLD: o["exe"] = "old"
        else:
            o["exe"] = "new"
            if q["binary"] == "obj": o["reloc"] = after[exe][:4] == b"\x7fELF" and after[exe][16] == 1
            else:
                try:
                    x = subprocess.run([exe], cwd=top, input=b"Q", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, preexec_fn=limits)
                    o["text"], o["code"] = x.stdout.decode("latin1"), x.returncode
                except (OSError, subprocess.TimeoutExpired) as e: o["text"] = "does not run: %s" % e
    if c["mode"] == "init":
        r2 = subprocess.run([cmd[0], "run", arg], cwd=P(c["cwd"]), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, preexec_fn=limits)
        o["hello"] = r2.stdout.decode("latin1")
    o["calls"] = []
    if os.path.exists(log):
        for part in open(log).read().split("\x01\n")[:-1]: o["calls"].append(part.split("\n")[:-1])
    o["root"] = root
    o["base"] = P(base)
    shutil.rmtree(top, ignore_errors=True)
    return o

def differs(c, fin, o):
    """why an observation is not this final state of the specification"""
    said = o["said"]
    success = "BUILD SUCCESSFUL" in said
    if "goroutine " in said: return "the command crashes: %s" % said[-400:]
    if fin["verdict"] == "error":
        if success: return "success is reported"
        if not said.strip(): return "nothing is reported"
    elif c["mode"] == "init":
        if fin["hello"] not in o["hello"]: return "the new project does not run: %s %s" % (said[-300:], o["hello"][-300:])
    elif c["mode"] != "run" and not success: return "an error is reported: %s" % said[-400:]
    if fin["exe"] != o["exe"]: return "the output is %s instead of %s: %s" % (o["exe"], fin["exe"], said[-400:])
    if fin["exe"] == "new":
        if c["conf"]["binary"] == "obj":
            if not o["reloc"]: return "the output is no object file"
        elif (fin["text"], fin["code"]) != (o["text"], o["code"]): return "the program prints %r and ends with %d instead of %r and %d" % (o["text"], o["code"], fin["text"], fin["code"])
    if fin["ran"] and fin["text"] not in said: return "running prints %r instead of %r" % (said[-400:], fin["text"])
    extra = [f for f in o["changed"] if not (fin["inter"] and f == o["ll"])]
    extra = [f for f in extra if f not in ["/".join(p) for p in fin["made"]]]
    if extra: return "other files changed: %s" % extra
    if len(fin["calls"]) != len(o["calls"]): return "the linker is called %d times instead of %d" % (len(o["calls"]), len(fin["calls"]))
    for want, got in zip(fin["calls"], o["calls"]):
        got = list(got)
        if "-o" not in got: return "the linker is told no output"
        i = got.index("-o")
        if os.path.normpath(os.path.join(o["base"], got[i + 1])) != os.path.normpath(os.path.join(o["root"], *want["out"])) and c["conf"]["output"]: return "the linker writes %s" % got[i + 1]
        del got[i:i + 2]
        got = [g for g in got if g and not g.endswith(".ll")]
        need = want["flags"] + ["-DF%d" % j for j in want["added"]] * (c["mode"] != "compile") + ["-c"] * want["obj"]
        left = collections.Counter(got); left.subtract(need)
        if any(v < 0 for v in left.values()): return "the linker misses %s" % [g for g, v in left.items() if v < 0]
        left = [g for g, v in left.items() if v > 0]
        if want["opt"] != any(g in ("-O3", "-O2") for g in left): return "optimised: %s" % (not want["opt"])
        if left and not want["opt"]: return "the linker is told %s" % left
        order = [g for g in got if g in want["flags"]]
        if order != want["flags"]: return "the linker's arguments are in another order"
    return None

def spec(work, cs):
    d = work.sub(); f = os.path.join(d, "cases.json")
    json.dump(cs, open(f, "w"))
    rc, msgs, st, out = H.tlc(work, "CdBuild.tla", "CdBuild.cfg", {"CD_CASES": f})
    if rc: raise H.Broken("TLC failed (%d):\n%s" % (rc, "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-5000:]))
    fins = collections.defaultdict(list)
    for m in msgs:
        if m not in fins[m["id"]]: fins[m["id"]].append(m)
    if len(fins) != len(cs): raise H.Broken("TLC reported on %d of %d cases" % (len(fins), len(cs)))
    return [fins[i + 1] for i in range(len(cs))], st

def compare(c, fins, o):
    ds = [differs(c, f, o) for f in fins]
    return None if any(d is None for d in ds) else ds[0] if len(ds) == 1 else sorted(set(ds))[0]
def run(work, tools, cs):
    with ThreadPoolExecutor(H.JOBS + 1) as ex:
        real = [ex.submit(observe, tools, c) for c in cs]
        fins, st = spec(work, cs)
        return fins, [r.result() for r in real], st
