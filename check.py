#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decides one property on /repo's working tree
   check.py replay DIR                shows again what a VIOLATION line pointed to"""
import hashlib, json, os, random, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import harness as H

VERIF = H.VERIF

def known():
    """the listed findings: {property, key, what}; what was fixed is listed apart and suppresses nothing"""
    try: return json.load(open(os.path.join(VERIF, "known_findings.json")))["known"]
    except FileNotFoundError: return []

class Check:
    """one run of one check"""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.time()
        self.work = H.Work()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "families": {},
                    "accepted_compared": 0, "rejected_compared": 0, "undefined": 0, "open": 0, "unreproduced": 0}
        self.violations = []
        self.known_hit = []
        self.known = [k for k in known() if k["property"] == pid]
        self.seen = set()
        self.strict = False
    @property
    def thorough(self): return self.tier == "thorough"
    def elapsed(self): return time.time() - self.t0
    def count(self, key, n=1): self.cov[key] = self.cov.get(key, 0) + n
    def sample(self, x):
        if len(self.cov["samples"]) < 6: self.cov["samples"].append(x)
    def violation(self, key, what, files, detail):
        """key identifies the input: it is what known findings are listed by"""
        for k in self.known:
            if k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        d = os.path.join(VERIF, "replay", self.pid, hashlib.sha1((key + what).encode("utf8", "replace")).hexdigest()[:12])
        os.makedirs(d, exist_ok=True)
        for f, s in files.items():
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            open(os.path.join(d, f), "wb").write(s.encode("latin1") if isinstance(s, str) else s)
        json.dump({"property": self.pid, "key": key, "what": what, "detail": detail}, open(os.path.join(d, "violation.json"), "w"), indent=1)
        self.violations.append({"key": key, "what": what, "replay": d})
        print("VIOLATION property=%s replay=%s" % (self.pid, d))
        print("  " + what[:600].replace("\n", "\n  "))
        sys.stdout.flush()

    # ---- programs: the machine of CdRun against the real pipeline
    def programs(self, progs, opts=("-O0",), batch=300, maxviol=5, nature=None):
        """compares the specification's verdict and behaviour with the real one"""
        buf = []
        for p in progs:
            j = hashlib.sha1(json.dumps(p.flat(), sort_keys=True).encode()).digest()
            if j in self.seen: continue
            self.seen.add(j)
            buf.append(p)
            if len(buf) >= batch:
                self._batch(buf, opts); buf = []
                if len(self.violations) >= maxviol: return
        if buf: self._batch(buf, opts)
    def _batch(self, ps, opts):
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(H.spec_run, self.work, ps)
            f2 = ex.submit(H.real_run, self.work, ps, opts)
            (sp, st), re = f1.result(), f2.result()
        self.count("states", st["states"]); self.count("transitions", st["transitions"])
        for p, a, b in zip(ps, sp, re):
            fam = self.cov["families"].setdefault(p.tag or "random", {"programs": 0, "done": 0, "rejected": 0, "ub": 0, "open": 0, "steps": 0})
            fam["programs"] += 1; fam["steps"] += a["steps"]
            fam[{"done": "done", "rejected": "rejected", "ub": "ub", "open": "open"}[a["status"]]] += 1
            w = disagree(a, b, self.strict)
            self.count({"done": "accepted_compared", "rejected": "rejected_compared", "ub": "undefined", "open": "open"}[a["status"]])
            if a["status"] in ("done", "rejected") and b["kind"] != "skipped": self.count("traces_validated_against_impl")
            if len(self.cov["samples"]) < 4 and a["status"] == "done" and self.rng.random() < 0.05:
                self.sample({"family": p.tag, "program": text(next(iter(p.files().values())))[:1500], "output": bytes(a["out"]).decode("latin1")[:300], "exit": a["code"]})
            if w:
                again = disagree(a, H.real_one(self.work, p.files(), opts if not callable(opts) else opts(0, p)), self.strict)
                if not again:
                    self.count("unreproduced"); continue
                if len(self.violations) < 5:
                    files = p.files()
                    self.violation(key=p.key if getattr(p, "key", None) else hashlib.sha1(repr(sorted(files.items())).encode()).hexdigest(),
                                   what="%s: %s" % (p.tag, w), files=files,
                                   detail={"spec": {k: a[k] for k in ("status", "why", "code")}, "expected_output": bytes(a["out"]).decode("latin1"),
                                           "real": b["kind"], "message": b["msg"], "runs": {o: [r[0], r[1].decode("latin1")] for o, r in b["runs"].items()}})

    # ---- tokens: the lexer of the specification against the real one
    def tokens(self, texts, tag, batch=20000, maxviol=5):
        texts = [t for t in dict.fromkeys(texts)]
        for i in range(0, len(texts), batch):
            part = texts[i:i + batch]
            sp, st = H.spec_lex(self.work, part)
            re = H.real_lex(self.work, part)
            self.count("states", st["states"]); self.count("transitions", st["transitions"])
            fam = self.cov["families"].setdefault(tag, {"texts": 0, "tokens": 0, "illegal": 0})
            for t, a, b in zip(part, sp, re):
                if b is None: continue
                fam["texts"] += 1; fam["tokens"] += len(a); fam["illegal"] += a[-1][0] == "ILLEGAL"
                self.count("traces_validated_against_impl")
                if len(self.cov["samples"]) < 4 and self.rng.random() < 0.001: self.sample({"text": t.decode("latin1"), "tokens": [k[0] for k in a]})
                w = tokens_differ(a, b)
                if w and len(self.violations) < maxviol:
                    self.violation(key="lex:" + t.hex(), what="%s: the text %r: %s" % (tag, t[:200].decode("latin1"), w), files={"text": t},
                                   detail={"spec": [[k[0], k[1].decode("latin1"), k[2]] for k in a][:200], "real": b if isinstance(b, str) else [[k[0], k[1].decode("latin1"), k[2]] for k in b][:200]})
            if self.violations: return

    # ---- projects: the command line against CdBuild
    def projects(self, tools, PJ, cases, maxviol=5):
        fins, obs, st = PJ.run(self.work, tools, cases)
        self.count("states", st["states"]); self.count("transitions", st["transitions"])
        for c, f, o in zip(cases, fins, obs):
            fam = self.cov["families"].setdefault(c["mode"], {"cases": 0, "done": 0, "errors": 0})
            if o is None: self.count("unreproduced"); continue
            fam["cases"] += 1; fam["done" if f[0]["verdict"] == "ok" else "errors"] += 1
            self.count("traces_validated_against_impl")
            if self.rng.random() < 0.02: self.sample({"command": o["cmd"], "configuration": c["conf"], "specified": f[0]})
            if PJ.compare(c, f, o):
                o = PJ.observe(tools, c)
                w = o and PJ.compare(c, f, o)
                if not w: self.count("unreproduced"); continue
                if len(self.violations) < maxviol:
                    files = {"/".join(x["p"]): PJ.text(c, i + 1) for i, x in enumerate(c["files"]) if x["what"] != "obj"}
                    self.violation(key="project:" + hashlib.sha1(json.dumps(c, sort_keys=True).encode()).hexdigest(), what="%s: %s" % (" ".join(o["cmd"]), w), files=files,
                                   detail={"case": c, "specified": f, "seen": {a: b for a, b in o.items() if a not in ("root", "base")}})

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ASSUME, "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        if self.known_hit: ev["coverage"]["known_findings_seen"] = self.known_hit
        if not self.cov["samples"]: self.cov["samples"] = ["see families"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        self.work.close()
        n = self.cov["traces_validated_against_impl"]
        print("%s %s: %d behaviours compared, %d states, %d violations, %.0f s" % (self.pid, self.tier, n, self.cov["states"], len(self.violations), self.elapsed()))
        if n == 0: raise H.Broken("nothing was compared")
        return 1 if self.violations else 0

ASSUME = ["programs that the specification leaves undefined or open are not compared", "clang and the C library implement LLVM IR and the C functions that candice calls",
          "the linux back end of candice (compiler_rest.go) and clang stand for the platform's code generator"]

def text(s): return s.decode("latin1") if isinstance(s, bytes) else s

def disagree(a, b, strict=False):
    """a: the specification's result, b: the real one; what differs, or None
    strict: no program at all may crash the compiler or make it write what is no LLVM IR"""
    k = b["kind"]
    if strict and a["status"] == "open" and k in ("compiler-crash", "compiler-hangs", "invalid-ir", "backend"):
        return "a program (open in the specification: %s) ends in: %s %s" % (a["why"], k, b["msg"][-300:])
    if k in ("compiler-crash", "compiler-hangs"):
        if a["status"] == "open": return None
        return "the compiler %s on a program that is %s%s" % ("crashes" if k == "compiler-crash" else "hangs", a["status"], ": " + a["why"] if a["why"] else "")
    if a["status"] == "open" or k == "skipped": return None
    if a["status"] == "rejected":
        return None if k in ("compile-error", "parse-error", "semantic-error") else "a program that has to be refused (%s) is accepted" % a["why"]
    if k != "ok": return "a valid program is refused or miscompiled: %s %s" % (k, b["msg"][-300:])
    if a["status"] == "ub": return None
    for o, (rc, out) in b["runs"].items():
        if (rc, list(out)) != (a["code"], a["out"]):
            return "with %s: expected exit %s and output %r, got exit %s and output %r" % (o, a["code"], bytes(a["out"])[-200:], rc, out[-200:])
    return None

def tokens_differ(a, b):
    if isinstance(b, str): return b
    for i, x in enumerate(a):
        if i >= len(b): return "token %d is missing: %s" % (i, x)
        y = b[i]
        if x[0] == "ILLEGAL" and y[0] == "ILLEGAL": continue
        if x != y: return "token %d is (type, text, line) %s, expected %s" % (i, y, x)
    return None if len(a) == len(b) else "there are more tokens than expected"

def main():
    if sys.argv[1] == "replay":
        d = sys.argv[2]
        v = json.load(open(os.path.join(d, "violation.json")))
        print(json.dumps(v, indent=1)); return 0
    if sys.argv[1] == "setup":
        H.Work().close()
        return 0
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import props
    c = None
    try:
        c = Check(pid, tier, seed)
        getattr(props, pid)(c)
        return c.finish()
    except H.Broken as e:
        print("check %s is broken: %s" % (pid, e))
        if c: c.work.close()
        return 2
    except Exception:
        traceback.print_exc()
        if c: c.work.close()
        return 2
if __name__ == "__main__": sys.exit(main())
