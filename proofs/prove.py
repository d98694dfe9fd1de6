"""Contracts -> Verus: extracts the functions under contract from /repo/src (vxt), verifies them, attributes failures to functions and properties.

failed obligation  = Verus rejects a pre/postcondition, invariant, assertion or overflow check of an extracted function this property depends on
undecided (NOTE)   = the function is not there any more, uses syntax outside the extractor's rules, has a loop structure other than the one
                     its invariants were written for, does not type-check against the contract's vocabulary, or the solver gave up
"""
import os, re, json, subprocess, shutil, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
VERUS = shutil.which("verus") or "/usr/local/bin/verus"
VER_MSGS = ("precondition not satisfied", "postcondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic",
            "possible division by zero", "decreases not satisfied", "requires not satisfied", "ensures not satisfied", "possible bit shift",
            "could not prove termination", "loop invariant", "precondition not", "unable to prove", "may not", "index in bounds", "cannot show invariant", "bitvector", "by(")
SOFT_MSGS = ("Resource limit", "rlimit", "timed out", "solver", "unknown")


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/opt/veriftools/verus:" + e.get("PATH", "")
    return e


def build_vxt(cache):
    target = os.path.join(cache, "vxt-target")
    e = env()
    e.update(RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=target)
    h = hashlib.sha256()
    for root, _, files in sorted(os.walk(os.path.join(VERIF, "vxt"))):
        if "/target" in root: continue
        for f in sorted(files): h.update(open(os.path.join(root, f), "rb").read())
    stamp = os.path.join(cache, "vxt-stamp")
    out = os.path.join(cache, "vxt")
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest(): return out
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(VERIF, "vxt"), env=e, capture_output=True, text=True)
    if r.returncode != 0: raise RuntimeError("extractor does not build:\n" + r.stderr[-3000:])
    shutil.copy2(os.path.join(target, "debug", "vxt"), out)
    open(stamp, "w").write(h.hexdigest())
    return out


def order(): return open(os.path.join(HERE, "order.txt")).read().split()


def extract(vxt, d, stub=(), vacuity=False, name="all"):
    specs = [os.path.join(HERE, "specs", m + ".vs") for m in order()]
    cmd = [vxt, REPO, f"{d}/{name}.rs", f"{d}/{name}.json"]
    if stub: cmd += ["--stub", ",".join(sorted(stub))]
    if vacuity: cmd += ["--vacuity"]
    r = subprocess.run(cmd + specs, capture_output=True, text=True)
    if r.returncode != 0: raise RuntimeError("extraction failed: " + r.stderr[-2000:])
    return json.load(open(f"{d}/{name}.json"))["functions"]


def uses(mods):
    """the modules and those whose lemmas and contracts they import"""
    seen, todo = set(), list(mods)
    while todo:
        m = todo.pop()
        if m in seen: continue
        seen.add(m)
        for l in open(os.path.join(HERE, "specs", m + ".vs")):
            if l.startswith("//@use"): todo += l.split()[1:]
    return sorted(seen)


def baseline():
    p = os.path.join(HERE, "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def roots():
    import roots as r
    return r.ROOTS


def closure(funcs, text_lines, want):
    """functions reachable from the roots through the calls in the extracted bodies"""
    by_name = {}
    for f in funcs: by_name.setdefault(f["emitted"], []).append(f["id"])
    calls = {}
    for f in funcs:
        body = "\n".join(text_lines[f["out_start"] - 1:f["out_end"]])
        ids = set(re.findall(r"[A-Za-z_][A-Za-z_0-9]*", body))
        calls[f["id"]] = {i for n in ids if n in by_name for i in by_name[n]} - {f["id"]}
    seen, todo = set(), []
    for w in want:
        if w.endswith("::*"): todo += [f["id"] for f in funcs if f["module"] == w[:-3]]
        else:
            m = [f["id"] for f in funcs if f["id"] == w or f["id"].startswith(w + "@")]
            if not m: raise RuntimeError(f"roots.py names {w}, which no contract defines")
            todo += m
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        todo += calls[x]
    return seen


def verus(d, modules, name="all", rlimit=40, extra=(), timeout=780):
    cmd = [VERUS, f"{name}.rs", "--triggers-mode", "silent", "-A", "warnings", "--output-json", "--time", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "6", "--no-lifetime-check" if False else "--num-threads", "8", *extra]
    for m in modules: cmd += ["--verify-module", m]
    t = time.time()
    try: r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, env=env(), timeout=timeout)
    except subprocess.TimeoutExpired: return cmd, None, [], time.time() - t, "timeout"
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: res = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError: res = None
    return cmd, res, diags, time.time() - t, r.stderr


class Proof:
    def __init__(self, prop, tier, cache):
        self.prop, self.tier, self.cache = prop, tier, cache
        self._failed, self._notes, self._cov, self._tail, self._ok = [], [], None, "", False
        self._assume = []

    def run(self):
        try: self._run()
        except Exception as e:  # never an alarm: the proof side could not be run
            self._notes.append(f"proof not run: {type(e).__name__}: {e}"[:1500])

    def _run(self):
        R = roots().get(self.prop)
        if not R: return
        d = os.path.join(self.cache, f"proof-{self.prop}")
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        vxt = build_vxt(self.cache)
        base = baseline()
        stub = set()
        why = {}
        funcs = extract(vxt, d)
        for f in funcs:
            b = base.get(f["id"])
            if f["status"] == "extracted" and b is not None and b["loops"] != f["loops"]:
                stub.add(f["id"]); why[f["id"]] = f"{f['loops']} loop(s), its invariants were written for {b['loops']}"
        if stub: funcs = extract(vxt, d, stub)
        solver = 0.0
        for attempt in range(8):
            lines = open(f"{d}/all.rs").read().split("\n")
            cl = closure(funcs, lines, R)
            mods = uses(sorted({f["module"] for f in funcs if f["id"] in cl}))
            cmd, res, diags, secs, err = verus(d, mods)
            solver += secs
            if err == "timeout":
                self._notes.append("the verifier did not finish in time"); return
            hard = [x for x in diags if x["level"] == "error" and not self.is_verification(x) and not x["message"].startswith("aborting")]
            if not hard: break
            new = set()
            for x in hard:
                ids = self.attribute(x, funcs, any_span=True)
                for i in ids:
                    if i not in stub: new.add(i); why[i] = "does not type-check against the contracts' vocabulary: " + x["message"][:200]
            self._tail = "\n".join(x.get("rendered") or x["message"] for x in hard)[-6000:]
            if not new:
                self._notes.append("the extracted file does not type-check: " + hard[0]["message"][:300]); return
            stub |= new
            funcs = extract(vxt, d, stub)
        else:
            self._notes.append("the extracted file does not type-check"); return
        errs = [x for x in diags if x["level"] == "error" and self.is_verification(x)]
        total = None
        if errs:
            # second opinions before anything is reported: more resources, then other solver seeds. Any accepting run is a proof,
            # so an obligation counts as failed only when every run rejects the function or lemma it belongs to
            vr0 = (res or {}).get("verification-results", {})
            total = vr0.get("verified", 0) + vr0.get("errors", 0)
            starts = [(n, l.split()[2].rstrip("{")) for n, l in enumerate(lines, 1) if l.startswith("pub mod ")]
            fstarts = [n for n, l in enumerate(lines, 1) if re.match(r"\s*(pub )?((open|closed|broadcast|uninterp) )*(proof |spec )?(const )?fn ", l)]
            def line(x): return next((s["line_start"] for s in x["spans"] if s["is_primary"]), 0)
            def unit(x):
                a = self.attribute(x, funcs)
                if a: return a[0]
                own = [s["line_start"] for s in x["spans"] if s.get("file_name", "").endswith("all.rs")] or [line(x)]
                return "line %d" % max([n for n in fstarts if n <= max(own)] or [0])
            def module(x):
                own = [s["line_start"] for s in x["spans"] if s.get("file_name", "").endswith("all.rs")]
                return {m for l in own for m in [[m for n, m in starts if n <= l][-1:]] for m in m}
            for rl, seed in ((160, None), (80, 1), (80, 2), (80, 3)):
                bad_mods = sorted({m for x in errs for m in module(x)} & set(mods)) or mods
                extra = () if seed is None else ("--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}")
                cmd2, res2, diags2, secs, e2 = verus(d, bad_mods, rlimit=rl, extra=extra, timeout=200)
                solver += secs
                if res2 is None: break
                errs2 = [x for x in diags2 if x["level"] == "error" and self.is_verification(x)]
                errs = [x for x in errs2 if unit(x) in {unit(y) for y in errs}]
                if not errs or solver > 500: break
        soft = [x for x in errs if any(s in x["message"] for s in SOFT_MSGS)]
        bad_fns = {}
        for x in errs:
            for i in self.attribute(x, funcs):
                if x in soft: why.setdefault(i, "the solver gave up: " + x["message"][:120])
                else: bad_fns.setdefault(i, []).append(x)
            if not self.attribute(x, funcs): why.setdefault("(lemma)", (x.get("rendered") or x["message"])[:400])
        self._tail = "\n".join(x.get("rendered") or x["message"] for x in errs)[-12000:] or self._tail
        byid = {f["id"]: f for f in funcs}
        for i, xs in sorted(bad_fns.items()):
            if i not in cl: continue
            for x in xs[:4]:
                f = byid[i]
                sp = next((s for s in x["spans"] if s["is_primary"]), None)
                clause = " ".join(t["text"].strip() for t in sp["text"])[:160] if sp else ""
                self._failed.append(f"{f['source']}:{f['line']} {f['name']} ({i}): {x['message']}: {clause}")
        und = [f"{byid[i]['source']} {byid[i]['name']}: {why.get(i) or byid[i]['reason']}" for i in sorted(cl) if byid[i]["status"] != "extracted" or i in why]
        for u in und: self._notes.append("undecided by proof (bounded check only): " + u[:400])
        vr = (res or {}).get("verification-results", {})
        ver, er = vr.get("verified", 0), vr.get("errors", 0)
        if total is not None:
            er = len({unit(x) for x in errs}); ver = total - er
        exts = [i for i in sorted(cl) if byid[i]["status"] == "extracted" and i not in stub]
        text = open(f"{d}/all.rs").read()
        self._cov = dict(obligations=ver + er, discharged=ver, checker_cmd=" ".join(cmd), trusted_base=self.trusted(text, mods, stub, funcs),
                         functions_under_contract=[f"{byid[i]['source']}:{byid[i]['line']} {byid[i]['name']}" for i in exts],
                         functions_undecided=und, modules=mods, back_end="Verus " + str((res or {}).get("verus", {}).get("version", "")) + " / Z3",
                         solver_seconds=round(solver, 2), obligations_unit="function-level verification conditions (functions under contract and lemmas) in the modules this property depends on",
                         extraction_drops=sorted({x for i in exts for x in byid[i]["dropped"]}),
                         smt_ms=((res or {}).get("times-ms") or {}).get("smt", {}))
        if self.tier == "thorough" and not self._failed: self.vacuity(vxt, d, mods, stub, funcs)
        self._ok = not self._failed and bool(exts)

    def vacuity(self, vxt, d, mods, stub, funcs):
        """every precondition must be satisfiable: the assert(false) twin of each function has to fail"""
        fs = extract(vxt, d, stub, True, "vac")
        cmd, res, diags, secs, err = verus(d, mods, "vac", extra=())
        lines = open(f"{d}/vac.rs").read().split("\n")
        twins = {m.group(1): i + 1 for i, l in enumerate(lines) for m in [re.search(r"fn (vxv_\w+)", l)] if m}
        failing = set()
        for x in diags:
            if x["level"] == "error" and x["message"].startswith("assertion failed"):
                for s in x["spans"]:
                    n = [k for k, v in twins.items() if v <= s["line_start"]]
                    if n: failing.add(max(n, key=lambda k: twins[k]))
        inmods = {f"vxv_{f['emitted']}" for f in funcs if f["module"] in mods and f["vacuity"]}
        miss = sorted(inmods - failing)
        self._cov["vacuity_checked"] = len(inmods & failing)
        if miss: self._notes.append("preconditions not shown satisfiable: " + ", ".join(miss))

    @staticmethod
    def is_verification(x):
        return x.get("code") is None and (any(m in x["message"] for m in VER_MSGS) or any(m in x["message"] for m in SOFT_MSGS))

    @staticmethod
    def attribute(x, funcs, any_span=False):
        def owner(line): return [f["id"] for f in funcs if f["out_start"] <= line <= f["out_end"] and f["status"] == "extracted"]
        sp = x["spans"]
        if not any_span and "postcondition" in x["message"]:
            ex = [s for s in sp if s.get("label") and ("at the end" in s["label"] or "at this exit" in s["label"] or "return" in s["label"])]
            for s in ex:
                o = owner(s["line_start"]) or owner(s["line_end"])
                if o: return o
        prim = [s for s in sp if s["is_primary"]] or sp
        for s in prim + sp:
            o = owner(s["line_start"])
            if o: return o
        return []

    def trusted(self, text, mods, stub, funcs):
        out = ["Verus (weakest-precondition generation, erasure), Z3, rustc", "vxt: the translation rules of the extractor (Rust syntax -> Verus subset)"]
        cur, pend = "", False
        for l in text.split("\n"):
            m = re.match(r"pub mod (\w+) \{", l)
            if m: cur = m.group(1)
            if "#[verifier::external_body]" in l or "external_fn_specification" in l or "assume_specification" in l: pend = True
            if pend:
                m = re.search(r"\b(?:fn|struct) (\w+)", l)
                if m: out.append(f"assumed contract: {cur}::{m.group(1)}"); pend = False
            if re.search(r"\b(admit|assume)\(", l) and "//" not in l.split("a")[0]: out.append(f"assumed: {cur}: {l.strip()[:120]}")
        return out

    def failed_obligations(self): return self._failed
    def notes(self): return self._notes
    def ok(self): return self._ok
    def coverage(self): return self._cov
    def output_tail(self): return self._tail
    def assumptions(self):
        import roots as r
        return r.ASSUMPTIONS + r.EXTRA.get(self.prop, [])


def setup(cache):
    print("vxt:", build_vxt(cache))


if __name__ == "__main__":
    import sys
    cache = os.environ.get("VERIF_CACHE", "/tmp/redstone-verif-cache")
    os.makedirs(cache, exist_ok=True)
    if sys.argv[1] == "--baseline":
        # loop counts of the functions on the unchanged tree, which the invariants were written for
        d = os.path.join(cache, "base"); os.makedirs(d, exist_ok=True)
        fs = extract(build_vxt(cache), d)
        json.dump({f["id"]: dict(loops=f["loops"]) for f in fs}, open(os.path.join(HERE, "baseline.json"), "w"), indent=0, sort_keys=True)
        for f in fs:
            if f["status"] != "extracted": print("!!", f["id"], f["status"], f["reason"])
    else:
        p = Proof(sys.argv[1], "thorough" if "-t" in sys.argv else "quick", cache)
        p.run()
        for n in p.notes(): print("NOTE", n)
        for n in p.failed_obligations(): print("FAILED", n)
        c = p.coverage()
        if c: print(c["obligations"], c["discharged"], len(c["functions_under_contract"]), "functions", c["solver_seconds"], "s", c.get("vacuity_checked"))
        if "-v" in sys.argv: print(p.output_tail())
