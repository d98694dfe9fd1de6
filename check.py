#!/usr/bin/env python3
"""Driver: check.py <property> -- decides one property on /repo's current working tree.

1. proof:   functions are extracted mechanically from /repo/src, joined with the contracts in proofs/ and given to Verus.
2. bounded: the oracle crate (path dependency on /repo) replays/searches concrete inputs of the real code: the witness finder
            for failed obligations and the labelled stand-in for functions outside the verifier's reach.
exit 0 / exit 1 + "VIOLATION property=<id> replay=<path> [no-failing-input-found]".
"""
import sys, os, json, time, subprocess, hashlib, shutil, threading, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(VERIF, "proofs"))
CACHE = os.environ.get("VERIF_CACHE", "/tmp/redstone-verif-cache")


def env():
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:" + e.get("PATH", ""), RUSTUP_TOOLCHAIN="1.88.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTFLAGS="-Ctarget-cpu=x86-64-v3")
    return e


def src_hash():
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(os.path.join(REPO, "src"))):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, "rb").read())
    for f in ("Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): h.update(open(p, "rb").read())
    return h.hexdigest()


class Oracle:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.error = None
        self.log = ""
        self.result = None
        self.fail = None

    def build(self):
        target = os.path.join(CACHE, "oracle-target")
        os.makedirs(target, exist_ok=True)
        stamp = os.path.join(target, "src-hash")
        h = src_hash()
        e = env(); e["CARGO_TARGET_DIR"] = target
        d = os.path.join(VERIF, "oracle")
        if not os.path.exists(stamp) or open(stamp).read() != h:
            # cargo judges freshness by file times, we judge it by content
            subprocess.run(["cargo", "clean", "--offline", "-p", "redstone-ml", "-p", "oracle"], cwd=d, env=e, capture_output=True)
        r = subprocess.run(["cargo", "build", "--offline", "--locked", "--features", self.prop.lower()], cwd=d, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            self.error = "oracle does not build against /repo:\n" + r.stderr[-6000:]
            return False
        open(stamp, "w").write(h)
        self.bin = os.path.join(CACHE, f"oracle-{self.prop}")
        shutil.copy2(os.path.join(target, "debug", "oracle"), self.bin)
        return True

    def cmd(self, extra=()):
        return [self.bin, self.prop, "--tier", self.tier, "--seed", str(self.seed), *extra]

    def run(self, tier=None, budget=None, seed=None):
        """returns the failing case or None"""
        if tier: self.tier = tier
        if seed is not None: self.seed = seed
        budget = budget or (60 if self.tier == "quick" else 420)
        try:
            r = subprocess.run(self.cmd(["--budget", str(budget)]), capture_output=True, text=True, errors="replace", timeout=budget + 120, env=env())
        except subprocess.TimeoutExpired:
            self.fail = dict(case=None, input="(whole run)", what="oracle run did not end")
            return self.fail
        res = [l for l in r.stdout.splitlines() if l.startswith("RESULT ")]
        if res:
            j = json.loads(res[-1][7:])
            if self.result is None: self.result = dict(evals=0, distinct=0, samples=[])
            self.result["evals"] += j["evals"]; self.result["distinct"] += j["distinct"]
            self.result["samples"] = (self.result["samples"] + j["samples"])[:12]
            if j["fails"]:
                self.fail = dict(j["fails"][0], seed=self.seed, tier=self.tier, more=j["fails"][1:])
                return self.fail
            if r.returncode == 0: return None
        # the process died: find the case it was in
        t = subprocess.run(self.cmd(["--budget", str(budget), "--trace"]), capture_output=True, text=True, errors="replace", env=env())
        cases = [l for l in t.stderr.splitlines() if l.startswith("CASE ")]
        last = cases[-1] if cases else "CASE ? (before the first case)"
        rc = r.returncode
        why = f"process ended with signal {signal.Signals(-rc).name}" if rc < 0 else f"process exit code {rc}"
        parts = last.split(" ", 2)
        self.fail = dict(case=parts[1], input=parts[2] if len(parts) > 2 else "", what=why + ": " + (r.stderr or t.stderr)[-600:], seed=self.seed, tier=self.tier)
        return self.fail


def main():
    t0 = time.time()
    prop = sys.argv[1]
    if prop == "--setup":
        # builds everything once; every check also builds what it needs from scratch
        os.makedirs(CACHE, exist_ok=True)
        o = Oracle("C01", "quick", 1)
        print("oracle:", "ok" if o.build() else o.error)
        import prove
        prove.setup(CACHE)
        sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    os.makedirs(CACHE, exist_ok=True)

    import prove
    proof = prove.Proof(prop, tier, CACHE)
    th = threading.Thread(target=proof.run)
    th.start()
    orc = Oracle(prop, tier, seed)
    has_oracle = orc.build()
    fail = orc.run() if has_oracle else None
    th.join()

    failed = proof.failed_obligations()
    searched = None
    if failed and not fail and has_oracle:
        # a proof obligation fails: search harder for a concrete failing input
        searched = "quick"
        for s in (seed + 1, seed + 2):
            fail = orc.run(tier="quick", seed=s)
            if fail: break
        if not fail:
            fail = orc.run(tier="thorough", budget=150, seed=seed + 3)
            searched = "thorough"

    known = json.load(open(os.path.join(VERIF, "known-findings.json")))["known"]
    code, lines = 0, []
    if fail:
        k = next((k for k in known if k["property"] == prop and k["input"] in str(fail.get("input"))), None)
        if k: lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            path = os.path.join(VERIF, "replay", f"{prop}.json")
            json.dump(dict(property=prop, kind="concrete input of the real code", failing_case=fail,
                           rerun=f"VERIF_CACHE={CACHE} {' '.join(orc.cmd())}" + (f" --only-case {fail['case']} --trace" if fail.get("case") is not None else ""),
                           failed_obligations=failed, verifier_output=proof.output_tail() if failed else None), open(path, "w"), indent=1)
            lines.append(f"FAILING INPUT: {fail.get('input')} :: {fail.get('what')}"[:1500])
            for o in failed: lines.append(f"FAILED OBLIGATION: {o}"[:600])
            lines.append(f"VIOLATION property={prop} replay={path}")
            code = 1
    elif failed:
        path = os.path.join(VERIF, "replay", f"{prop}.json")
        json.dump(dict(property=prop, kind="failed proof obligation, no failing input found", failed_obligations=failed, verifier_output=proof.output_tail(),
                       search=f"oracle tiers up to {searched}, {orc.result['evals'] if orc.result else 0} cases", rerun=f"python3 {VERIF}/check.py {prop}"), open(path, "w"), indent=1)
        for o in failed: lines.append(f"FAILED OBLIGATION: {o}"[:600])
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1
    elif not has_oracle and not proof.ok():
        print(orc.error); print("neither the proof nor the bounded check could be run")
        code = 2
    if not has_oracle: lines.insert(0, "NOTE: " + (orc.error or "")[:2000])
    for n in proof.notes(): lines.insert(0, "NOTE: " + n)

    cov = proof.coverage()
    level = "proof" if cov else "other"
    if orc.result:
        b = dict(evaluations=orc.result["evals"], distinct_nontrivial=orc.result["distinct"], samples=orc.result["samples"],
                 rule="bounded stand-in: concrete inputs of the real code against an independent reference; distinct by textual description of the input; every case compares results and neighbouring memory")
        if cov: cov.update(bounded=b, **b)
        else: cov = dict(b, explanation="bounded check only: no obligation of this property could be generated on this tree (see NOTE lines)")
    if not cov: cov = dict(explanation="nothing could be run")
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=proof.assumptions(), wall_s=round(time.time() - t0, 2), violations=code if code == 1 else 0)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)
    for l in lines: print(l)
    if code == 0:
        print(f"OK property={prop} obligations={cov.get('discharged', 0)}/{cov.get('obligations', 0)} bounded_cases={cov.get('evaluations', 0)} wall={ev['wall_s']}s")
    sys.exit(code)


if __name__ == "__main__":
    main()
