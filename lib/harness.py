"""Runs the specification (TLC) and the real pipeline (driver, clang) on the same programs."""
import json, os, re, shutil, subprocess, sys, tempfile, time, resource, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
GOENV = {"HOME": "/root", "GOENV": "off", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOWORK": "off",
         "GOFLAGS": "-mod=readonly -buildvcs=false", "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
         "GOCACHE": "/root/.cache/go-build",
         "PATH": "/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"}
JOBS = 8

class Broken(Exception):
    """the machinery failed: no verdict"""

class Work:
    """a scratch directory with the driver built from /repo's working tree"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cdv-")
        self.n = 0
        self.driver = os.path.join(self.dir, "driver")
        env = dict(os.environ); env.update(GOENV)
        mod = os.path.join(self.dir, "drv")
        shutil.copytree(os.path.join(VERIF, "driver"), mod)
        # the driver needs exactly what candice needs
        gm = open(os.path.join(REPO, "go.mod")).read()
        gm = re.sub(r"^module .*$", "module candiceverif", gm, flags=re.M)
        gm += "\nrequire github.com/gabivlj/candice v0.0.0\nreplace github.com/gabivlj/candice => %s\n" % REPO
        open(os.path.join(mod, "go.mod"), "w").write(gm)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(mod, "go.sum"))
        env["GOFLAGS"] = "-mod=mod -buildvcs=false"
        r = subprocess.run(["go", "build", "-o", self.driver, "."], cwd=mod, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0: raise Broken("driver does not build: " + r.stdout.decode(errors="replace"))
    def sub(self, name=None):
        self.n += 1
        d = os.path.join(self.dir, name or "w%d" % self.n)
        os.makedirs(d, exist_ok=True)
        return d
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

# ---- TLC ---------------------------------------------------------------------
MSG = re.compile(r'^"@@(.*)"$')
def unquote(s):
    # TLC prints a string value with \" and \\ for quotes and backslashes
    return re.sub(r'\\(.)', lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), s)

def tlc(work, module, cfg, env, workers=8, timeout=800, heap="6g"):
    d = work.sub()
    e = dict(os.environ); e.update(env)
    e["JAVA_TOOL_OPTIONS"] = ""
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp",
           "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC",
           "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-deadlock", "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg), os.path.join(SPEC, module)]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken("TLC did not finish in %d s on %s" % (timeout, module))
    out = r.stdout.decode("utf8", errors="replace")
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    msgs = []
    for line in out.splitlines():
        m = MSG.match(line)
        if m: msgs.append(json.loads(unquote(m.group(1))))
    st = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = {"transitions": int(st.group(1)) if st else 0, "states": int(st.group(2)) if st else 0}
    return r.returncode, msgs, stats, out

def spec_read(work, texts, timeout=800):
    """what the specification makes of texts: [{"src": ...}] or, for tokens only, [{"lex": [bytes]}]"""
    d = work.sub()
    f = os.path.join(d, "texts.json")
    json.dump(texts, open(f, "w"))
    rc, msgs, stats, out = tlc(work, "CdParse.tla", "CdParse.cfg", {"CD_TEXTS": f, "CD_TREES": os.path.join(d, "t")}, timeout=timeout)
    if rc != 0: raise Broken("TLC failed (%d):\n%s" % (rc, out[-6000:]))
    try: res = [json.load(open(os.path.join(d, "t%d" % (i + 1))))[0] for i in range(len(texts))]
    except (OSError, ValueError) as e: raise Broken("TLC did not write what it read: %s\n%s" % (e, out[-3000:]))
    shutil.rmtree(d, ignore_errors=True)
    return res, stats

def spec_run(work, progs, timeout=800, tolerant=False):
    """verdict of the specification on every program"""
    d = work.sub()
    f = os.path.join(d, "progs.json")
    flat = [p.flat() for p in progs]
    texts = [i for i, x in enumerate(flat) if "src" in x]
    if texts:
        read, _ = spec_read(work, [flat[i] for i in texts], timeout)
        for i, r in zip(texts, read): flat[i] = r
    json.dump(flat, open(f, "w"))
    rc, msgs, stats, out = tlc(work, "CdRun.tla", "CdRunTolerant.cfg" if tolerant else "CdRun.cfg", {"CD_PROGS": f}, timeout=timeout)
    if rc != 0:
        raise Broken("TLC failed (%d):\n%s" % (rc, "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))[-6000:]))
    res = {}
    for m in msgs: res[m["id"]] = m
    if len(res) != len(progs): raise Broken("TLC reported on %d of %d programs\n%s" % (len(res), len(progs), out[-3000:]))
    return [res[i + 1] for i in range(len(progs))], stats

def spec_lex(work, texts, chunk=100):
    """the tokens of every text (bytes) as (type, value, line), up to the end or the first illegal one"""
    parts = [texts[i:i + chunk] for i in range(0, len(texts), chunk)]
    res, stats = spec_read(work, [{"lex": [list(t) for t in p]} for p in parts])
    return [[(k["t"], bytes(k["v"]), k["l"]) for k in ts] for r in res for ts in r["ts"]], stats

# ---- the real pipeline ---------------------------------------------------------
def _limits(cpu=None):
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (16 << 20, 16 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
def sh(cmd, cwd, timeout, inp=None, env=None, cpu=None, limit=4 << 20):
    """(exit status, -signal, 'cpu' when it used up its processor time or 'timeout'; output bytes).
    Running out of processor time does not depend on how busy the sandbox is; running out of time does."""
    with tempfile.TemporaryFile(dir=cwd) as f:
        try:
            r = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL if inp is None else None, input=inp, stdout=f,
                               stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lambda: _limits(cpu), env=env)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            return "timeout", b""
        f.seek(0)
        out = f.read(limit)
        if rc == -24 or (rc == -9 and cpu): rc = "cpu"
        return rc, out

REAL_KIND = {0: "ok", 1: "compile-error", 2: "driver", 3: "parse-error", 4: "semantic-error", 5: "backend"}
RUN_CPU, COMPILE_CPU = 2, 15          # seconds; what is compared takes milliseconds
def real_one(work, files, opts=("-O0",), link=(), extra=None, inp=None):
    d = tempfile.mkdtemp(dir=work.dir)
    try:
        for f, src in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "wb").write(src.encode("latin1") if isinstance(src, str) else src)
        main = next(iter(files))
        rc, out = sh([work.driver, "compile", main, "out.ll"], d, 200, cpu=COMPILE_CPU)
        if rc == "timeout": raise Broken("the compiler neither finishes nor uses the processor")
        if rc == "cpu": return {"kind": "compiler-hangs", "msg": "", "runs": {}}
        if rc != 0:
            kind = REAL_KIND.get(rc, "compiler-crash")
            if b"goroutine " in out or b"panic:" in out: kind = "compiler-crash"
            if kind == "driver": raise Broken("driver: " + out.decode(errors="replace"))
            return {"kind": kind, "msg": out.decode("latin1")[:2000], "runs": {}}
        runs = {}
        rc, out = sh(["opt", "-passes=verify", "-disable-output", "out.ll"], d, 200)
        if rc == "timeout": raise Broken("opt timed out")
        if rc != 0: return {"kind": "invalid-ir", "msg": out.decode("latin1")[:2000], "runs": {}}
        for f in files:
            if f.endswith(".c"):
                rc, out = sh(["clang", "-w", "-O2", "-c", f, "-o", f + ".o"], d, 200)
                if rc != 0: raise Broken("the C side does not compile: " + out[-2000:].decode("latin1"))
                link = list(link) + [f + ".o"]
        for o in opts:
            rc, out = sh(["clang", "-w", o, "-x", "ir", "out.ll", "-x", "none"] + list(link) + ["-o", "prog", "-lm"], d, 200)
            if rc == "timeout": raise Broken("clang timed out")
            if rc != 0: return {"kind": "link-error", "msg": out.decode("latin1")[:2000], "runs": {}}
            rc, out = sh(["./prog"], d, 200, cpu=RUN_CPU, inp=inp)
            if rc == "timeout": raise Broken("a compiled program neither finishes nor uses the processor")
            runs[o] = (rc, out)
        return {"kind": "ok", "msg": "", "runs": runs}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def real_lex(work, texts, chunk=500):
    """the real tokens of every text, or a string that tells what went wrong"""
    def part(ts):
        d = tempfile.mkdtemp(dir=work.dir)
        try:
            open(os.path.join(d, "texts"), "w").write("".join(t.hex() + "\n" for t in ts))
            rc, out = sh([work.driver, "lex", "texts"], d, 200, cpu=30, limit=64 << 20)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if rc == "timeout": raise Broken("the lexer neither finishes nor uses the processor")
        res = []
        for line in out.decode("latin1").splitlines():
            try: r = json.loads(line)
            except ValueError: break
            res.append(r["trouble"] or [(k["t"], bytes.fromhex(k["v"]), k["l"]) for k in r["ts"]])
        if len(res) < len(ts):
            if rc == 2: raise Broken("driver: " + out[-1000:].decode("latin1"))
            res += ["the lexer %s" % ("does not end" if rc == "cpu" else "crashes (%s)" % rc)] + [None] * (len(ts) - len(res) - 1)
        return res
    with ThreadPoolExecutor(JOBS) as ex:
        return [r for p in ex.map(part, [texts[i:i + chunk] for i in range(0, len(texts), chunk)]) for r in p]

SKIPPED = {"kind": "skipped", "msg": "", "runs": {}}
def real_run(work, progs, opts=("-O0",), slow=12):
    """the real behaviour of every program; after `slow` that use up their processor time the rest are skipped"""
    optf = opts if callable(opts) else (lambda i, p: opts)
    state = {"slow": 0}
    def one(ip):
        if state["slow"] >= slow: return SKIPPED
        r = real_one(work, ip[1].files(), optf(*ip))
        if r["kind"] == "compiler-hangs" or any(rc == "cpu" for rc, _ in r["runs"].values()): state["slow"] += 1
        return r
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, enumerate(progs)))
