#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree (see DESIGN.md).

1. extract the functions the property depends on from /repo/src and attach the contracts
2. let Verus discharge every obligation; functions outside its reach are demoted, by name,
   to a trusted contract and count as undecided
3. meanwhile run the bounded companion (the real crate against a model) and, when an
   obligation fails, use it to search for a failing input
Exit 0: every obligation was discharged (or is undecided and the bounded search found nothing).
Exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import extract  # noqa: E402
import rustx  # noqa: E402
from props import PROPS, TRUSTED  # noqa: E402

HERE = extract.HERE
REPO = extract.REPO
T0 = time.time()
VERIFICATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|"
    r"possible arithmetic|possible division|decreases not satisfied|possible bit shift|"
    r"recommendation not met|unreachable|constructed value may fail|cannot show|could not prove|loop invariant|"
    r"assert_by|assertion .*failed|termination|possible .*overflow")
RLIMIT = re.compile(r"[Rr]esource limit|rlimit|timed out|solver", re.I)


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


# ---------------------------------------------------------------- proof

class Proof:
    """One Verus run over the extracted file, repeated with functions demoted until it is accepted."""

    def __init__(self, prop, cfg, work, vacuity=False):
        self.prop, self.cfg, self.work, self.vacuity = prop, cfg, work, vacuity
        self.retried = []
        self.demoted = {}      # key -> why
        self.failures = []     # (key, message, tags, rendered)
        self.lost = None
        self.verified, self.errors, self.smt_ms, self.fns, self.wall = 0, 0, 0, {}, 0.0
        self.out = None
        self.cmd = ""

    def run(self):
        names_file = os.path.join(HERE, "contracts", "names.json")
        names = json.load(open(names_file)) if os.path.exists(names_file) else {}
        files = [os.path.join(HERE, "contracts", f + ".ov") for f in self.cfg["files"]]
        t = time.time()
        for attempt in range(8):
            try:
                out = extract.build(files, names, demote=set(self.demoted), vacuity=self.vacuity)
            except rustx.Lost as e:
                self.lost = str(e)
                break
            self.out = out
            for k, why in out.demoted.items():
                self.demoted.setdefault(k, why)
            path = os.path.join(self.work, ("vac" if self.vacuity else "proof") + ".rs")
            open(path, "w").write("".join(out.text))
            if not self.verus(path, out):
                continue
            break
        else:
            self.lost = "too many functions outside the verifier's reach"
        self.wall = time.time() - t

    def invoke(self, path, modules, extra):
        """One run of the verifier: diagnostics and the result, or None when it ran out of time."""
        cmd = ["verus", path, "--triggers-mode", "silent", "--output-json", "--time-expanded", "--num-threads", "8",
               "--multiple-errors", "0" if self.vacuity else "6", "--no-report-long-running", "--rlimit", "2" if self.vacuity else str(self.cfg.get("rlimit", 30))] + self.cfg.get("flags", []) + extra
        for m in modules:
            cmd += ["--verify-module", m]
        self.cmd = self.cmd or " ".join(["verus", "<extracted file>"] + cmd[2:])
        try:
            p = subprocess.run(cmd + ["--error-format=json"], capture_output=True, text=True, timeout=self.cfg.get("timeout", 400), cwd=self.work)
        except subprocess.TimeoutExpired:
            return None
        diags = []
        for line in p.stderr.split("\n"):
            if line.startswith("{"):
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("level") in ("error", "warning") and d.get("spans") or d.get("level") == "error":
                    diags.append(d)
        try:
            res = json.loads(p.stdout[p.stdout.index("{"):])
        except ValueError:
            res = {}
        return diags, res, p.stderr

    def place(self, d, out):
        """(module, line) of the function whose proof the diagnostic is about."""
        spans = d.get("spans", [])
        body = [s for s in spans if "failed" not in (s.get("label") or "")] or spans
        body = [s for s in body if s.get("is_primary")] or body
        for s in body:
            e = s
            while e.get("expansion"):
                e = e["expansion"]["span"]
            ln, fn = e["line_start"], None
            for i in range(min(ln, len(out.lines)), 0, -1):
                t = out.lines[i - 1]
                if fn is None and re.match(r"\s*(?:#\[.*\]\s*)?(?:pub(?:\([a-z]+\))?\s+)?(?:(?:open|closed|const|unsafe|broadcast|uninterp)\s+)*(?:proof|spec|exec|axiom)?\s*fn\s", t):
                    fn = i
                m = re.match(r"pub mod (\w+) \{", t)
                if m:
                    return m.group(1), fn
        return None, None

    def verus(self, path, out):
        """True: the run counts.  False: some functions were demoted, try again."""
        got = self.invoke(path, self.cfg["modules"], [])
        if got is None:
            self.lost = "the verifier ran out of time"
            return True
        diags, res, stderr = got
        vr = res.get("verification-results", {})
        tool, fails = [], []
        for d in diags:
            if d["level"] != "error" or d["message"].startswith("aborting due to"):
                continue
            sp = d.get("spans", [])
            keys = self.owner(sp, out)
            if RLIMIT.search(d["message"]) and not VERIFICATION.search(d["message"]):
                fails.append((keys, d, "rlimit"))
            elif VERIFICATION.search(d["message"]):
                fails.append((keys, d, "fail"))
            else:
                tool.append((keys, d))
        if tool and "verified" not in vr or vr.get("encountered-vir-error") or tool:
            new = False
            for keys, d in tool:
                for k in keys:
                    if k not in self.demoted:
                        self.demoted[k] = d["message"][:200]
                        new = True
            if new:
                return False
            self.lost = "the verifier rejects the extracted file: " + "; ".join(d["message"][:200] for _, d in tool)[:600]
            if not tool:
                self.lost = "the verifier gave no result: " + stderr[-400:]
            return True
        if "verified" not in vr:
            self.lost = "the verifier gave no result: " + stderr[-400:]
            return True
        self.verified, self.errors = vr["verified"], vr["errors"]
        smt = res.get("times-ms", {}).get("smt", {})
        self.smt_ms = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.fns[f["function"]] = (f["success"], f["time-micros"])
        if fails and not self.vacuity:
            fails = self.again(path, out, fails)
        for keys, d, kind in fails:
            k = keys[0] if keys else "contracts"
            if k in out.hintlost:
                self.demoted.setdefault(k, "proof hints have lost their place: " + out.hintlost[k])
                continue
            if kind == "rlimit":
                self.demoted.setdefault(k, "resource limit: " + d["message"])
                continue
            self.failures.append((k, d["message"], self.tags(d, out), d.get("rendered", "")))
        return True

    def again(self, path, out, fails):
        """An obligation counts as discharged when the solver accepts it under any of these settings of its search."""
        open_ = {self.place(d, out) for _, d, _ in fails}
        for opt in ("smt.random_seed=1", "smt.arith.solver=6", "smt.case_split=1", "smt.random_seed=2"):
            mods = sorted({m for m, _ in open_})
            if not open_ or None in mods:
                break
            got = self.invoke(path, mods, ["--smt-option", opt])
            if got is None or "verified" not in got[1].get("verification-results", {}):
                break
            still = {self.place(d, out) for d in got[0] if d["level"] == "error" and not d["message"].startswith("aborting due to")}
            self.retried = self.retried + [f"{m}:{ln}" for m, ln in sorted(open_ - still, key=str)]
            if (None, None) in still:
                break
            open_ &= still
        left = [f for f in fails if self.place(f[1], out) in open_]
        done = len({self.place(d, out) for _, d, _ in fails}) - len(open_)
        self.verified, self.errors = self.verified + done, self.errors - done
        return left

    def owner(self, spans, out):
        """Extracted functions the diagnostic is about; the body position counts first."""
        keys = []
        for primary in (False, True):
            for s in spans:
                e = s
                while e.get("expansion"):
                    e = e["expansion"]["span"]
                for sp in (s, e):
                    for key, a, b, kind in out.fns:
                        if a <= sp["line_start"] <= b and key not in keys:
                            keys.append(key)
        # the callee's contract is not where the failure is: keep the function with the other span
        if len(keys) > 1:
            body = [k for k in keys if any(a <= s["line_start"] <= b and "failed" not in (s.get("label") or "") for s in spans for key, a, b, _ in out.fns if key == k)]
            keys = body or keys
        return keys

    def tags(self, d, out):
        """Properties named on the contract line that failed; none: every property."""
        t = set()
        for s in d.get("spans", []):
            if "failed" in (s.get("label") or ""):
                for ln in range(s["line_start"], s["line_end"] + 1):
                    m = re.search(r"//#\s*(.*)$", out.lines[ln - 1] if ln <= len(out.lines) else "")
                    if m:
                        t |= set(m.group(1).split())
        return t


# ---------------------------------------------------------------- bounded companion

class Companion(threading.Thread):
    def __init__(self, prop, cfg, work, seed, tier):
        super().__init__(daemon=True)
        self.prop, self.cfg, self.work, self.seed, self.tier = prop, cfg, work, seed, tier
        self.built, self.err, self.bin = False, None, None
        self.found = []       # (scenario, detail)
        self.runs, self.steps, self.by, self.samples, self.searched = 0, 0, {}, [], 0.0
        self.more = threading.Event()
        self.extra = 0.0

    def build(self):
        src = os.path.join(self.work, "harness")
        shutil.copytree(os.path.join(HERE, "harness"), src, ignore=shutil.ignore_patterns("target"))
        ct = os.path.join(src, "Cargo.toml")
        s = open(ct).read().replace('"/repo"', json.dumps(REPO))
        open(ct, "w").write(s)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(self.work, "target"), RUSTUP_TOOLCHAIN="stable")
        env.pop("RUSTFLAGS", None)
        p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=src, env=env, capture_output=True, text=True, timeout=600)
        if p.returncode:
            self.err = "the companion does not build: " + "\n".join(l for l in p.stderr.split("\n") if l.startswith("error"))[:400]
            return
        self.bin = os.path.join(self.work, "target", "debug", "harness")
        self.built = True

    def run(self):
        try:
            self.build()
            if not self.built:
                return
            secs = self.cfg.get("seconds", 8) if self.tier == "quick" else self.cfg.get("thorough_seconds", 240)
            self.explore(secs, 0)
        except Exception as e:  # the companion must never break the check
            self.err = f"{type(e).__name__}: {e}"

    def explore(self, secs, base, procs=6):
        t = time.time()
        ts = [threading.Thread(target=self.lane, args=(secs, base + i), daemon=True) for i in range(procs)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        self.searched += time.time() - t

    def lane(self, secs, n):
        """One process after the other: a crash of one history does not end the search."""
        end = time.time() + secs
        seed = self.seed * 1000 + n
        tries = 0
        while tries < 25 and (tries == 0 or time.time() < end - 0.5) and not self.found:
            rc, hung, last, done = self.one(max(0.5, end - time.time()), seed, f"h{n}_{tries}.txt")
            tries += 1
            if done or not last:
                return
            self.crashed(last, hung, rc)
            seed += 7919

    def one(self, secs, seed, name):
        o = os.path.join(self.work, name)
        hung = False
        with open(o, "w") as f:
            p = subprocess.Popen([self.bin, "run", str(secs), str(seed), self.prop], stdout=f, stderr=subprocess.DEVNULL, cwd=self.work, start_new_session=True)
            try:
                p.wait(secs + 25)
            except subprocess.TimeoutExpired:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        last = None
        done = False
        for line in open(o, errors="replace"):
            if line.startswith("S "):
                last = line[2:].strip()
                if len(self.samples) < 6:
                    self.samples.append(last)
            elif line.startswith("FOUND "):
                _, tags, scen, *d = line.strip().split(" ", 3)
                if self.prop in tags.split(","):
                    self.found.append((scen, d[0] if d else ""))
            elif line.startswith("DONE "):
                done = True
                m = re.match(r"DONE runs=(\d+) steps=(\d+) (.*)", line)
                self.runs += int(m.group(1))
                self.steps += int(m.group(2))
                for k, v in re.findall(r'"(\w+)": (\d+)', m.group(3)):
                    self.by[k] = self.by.get(k, 0) + int(v)
        return p.returncode, hung, last, done

    def crashed(self, scen, hung, rc):
        what = "does not end" if hung else f"ends with signal {-rc}" if rc < 0 else f"ends with status {rc}"
        try:
            p = subprocess.run([self.bin, "replay", scen], capture_output=True, timeout=20, cwd=self.work)
            txt, rc2 = p.stdout.decode(errors="replace"), p.returncode
            again = rc2 not in (0, 1)
        except subprocess.TimeoutExpired as e:
            txt, again = (e.stdout or b"").decode(errors="replace"), True
        ph = [l for l in txt.split("\n") if l.startswith("PHASE ")]
        tags = ph[-1].split(" ")[1].split(",") if ph else []
        tags += [t for l in txt.split("\n") if l.startswith("PANIC ") for t in l.split(" ")[1].split(",")]
        if again and (self.prop in tags):
            self.found.append((scen, f"the process {what} in phase: {ph[-1][6:] if ph else '?'}" + "".join("; " + l[6:] for l in txt.split("\n") if l.startswith("PANIC "))[:400]))

    def replay_text(self, scen):
        try:
            p = subprocess.run([self.bin, "replay", scen], capture_output=True, timeout=30, cwd=self.work)
            return p.stdout.decode(errors="replace")[-20000:]
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode(errors="replace")[-20000:] + "\n(does not end)"


# ---------------------------------------------------------------- main

def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"finding: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def main():
    prop = sys.argv[1]
    cfg = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    try:
        sys.exit(check(prop, cfg, tier, seed, work))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def module_of(out, ln):
    for i in range(min(ln, len(out.lines)), 0, -1):
        m = re.match(r"pub mod (\w+) \{", out.lines[i - 1])
        if m:
            return m.group(1)
    return None


def check(prop, cfg, tier, seed, work):
    if tier == "quick" and cfg.get("quick_skip"):
        cfg = dict(cfg, modules=[m for m in cfg["modules"] if m not in cfg["quick_skip"]])
    comp = Companion(prop, cfg, work, seed, tier)
    comp.start()
    proof = Proof(prop, cfg, work)
    vac = None
    if cfg["files"]:
        vac = Proof(prop, cfg, work, vacuity=True)
        vt = threading.Thread(target=vac.run, daemon=True)
        vt.start()
        proof.run()
        vt.join()
    log(f"verifier {proof.wall:.0f} s" + (f", vacuity run {vac.wall:.0f} s" if vac is not None else ""))
    log(f"{prop}: {proof.verified} obligations discharged, {proof.errors} not, {len(proof.demoted)} functions undecided, solver {proof.smt_ms} ms")
    for x in proof.retried:
        log("discharged under another setting of the search:", x)
    if proof.lost:
        log("undecided:", proof.lost)
    for k, why in proof.demoted.items():
        log(f"undecided: {k}: {why}")
    relevant = [f for f in proof.failures if not f[2] or prop in f[2]]
    for k, m, t, r in proof.failures:
        log(f"FAILED obligation: {k}: {m}" + (f" [{' '.join(sorted(t))}]" if t else ""))
    soft = list(proof.out.soft) if proof.out else []
    for s in soft:
        log("not under contract:", s)
    comp.join()
    if comp.err:
        log(comp.err)
    undecided = bool(proof.lost or proof.demoted or soft)
    if not comp.found and comp.built and (proof.failures or undecided):
        # look longer for a failing input
        comp.explore(40 if tier == "quick" else 300, 500, 8)
    log(f"companion: {comp.runs} histories, {comp.steps} steps, {len(comp.found)} findings, {comp.by}")
    vacuous = []
    if vac is not None and not vac.lost and not proof.lost:
        failing = {k for k, _, _, _ in vac.failures} | set(vac.demoted)
        vacuous = [k for k, a, b, kind in vac.out.fns if kind == "vac" and module_of(vac.out, a) in cfg["modules"] and k not in failing and k not in proof.demoted]
        for k in vacuous:
            log("vacuous precondition (undecided):", k)
    violations = 0
    rdir = os.path.join(HERE, "evidence")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"replay-{prop}.txt")
    if os.path.exists(rpath):
        os.remove(rpath)
    kf = known_findings(prop)
    new = [(s, d) for s, d in comp.found if not any(k in d for k in kf)]
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k}")
    line = None
    if new or relevant:
        violations = len(new) + len(relevant)
        with open(rpath, "w") as f:
            f.write(f"property {prop}\n")
            for k, m, t, r in relevant:
                f.write(f"\nfailed obligation: {k}: {m}\n{r}\n")
            if new:
                s, d = new[0]
                f.write(f"\nfailing input: scenario {s}\n{d}\n")
                f.write(f"repeat: cd {HERE}/harness && cargo run --offline -- replay {s}\n\n" + comp.replay_text(s))
        line = f"VIOLATION property={prop} replay={rpath}" + ("" if new else " no-failing-input-found")
    fnlist = [k for k, a, b, kind in (proof.out.fns if proof.out else []) if k not in proof.demoted and module_of(proof.out, a) in cfg["modules"]]
    total = proof.verified + proof.errors + len(proof.demoted) + (1 if proof.lost else 0)
    level = cfg["level"]
    cov = {
        "obligations": total,
        "discharged": proof.verified,
        "checker_cmd": f"bin/check.py {prop}  ({proof.cmd})",
        "trusted_base": TRUSTED["common"] + [x for g in cfg.get("trusted", []) for x in TRUSTED[g]] + trusted_shims(proof.out),
        "functions_under_contract": fnlist,
        "functions_undecided": proof.demoted,
        "not_under_contract": soft,
        "undecided": proof.lost,
        "vacuity": {"functions_with_false_inserted": len([1 for x in (vac.out.fns if vac and vac.out else []) if x[3] == "vac" and module_of(vac.out, x[1]) in cfg["modules"]]), "vacuous": vacuous},
        "back_end": "Verus 0.2026.09.13 with Z3",
        "solver_ms": proof.smt_ms,
        "discharged_under_another_setting_of_the_search": proof.retried,
        "slowest": sorted(((n, v[1] // 1000) for n, v in proof.fns.items()), key=lambda x: -x[1])[:5],
        "bounded_companion": {"label": "bounded, not counted as proved", "histories": comp.runs, "steps": comp.steps, "by_scenario": comp.by, "seconds": round(comp.searched, 1), "samples": comp.samples[:4], "error": comp.err},
        "explanation": cfg["note"],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": cov["trusted_base"] + cfg.get("assumes", []), "wall_s": round(time.time() - T0, 2), "violations": violations}
    json.dump(ev, open(os.path.join(rdir, f"{prop}.json"), "w"), indent=1)
    if line:
        print(line)
        return 1
    log("held" if not undecided else "held on everything explored; undecided obligations are listed above")
    return 0


def trusted_shims(out):
    """Every external_body, assume_specification, assume and admit of the verified file."""
    r = []
    if not out:
        return r
    lines = out.lines
    for i, l in enumerate(lines):
        if "external_body" in l:
            for j in range(i, min(i + 6, len(lines))):
                m = re.search(r"\bfn\s+(\w+)|\bstruct\s+(\w+)", lines[j])
                if m:
                    r.append("assumed contract: " + (m.group(1) or m.group(2)))
                    break
        m = re.search(r"assume_specification.*\[(.*?)\]\s*\(", l)
        if m:
            r.append("assumed specification: " + m.group(1).strip())
        if re.search(r"\badmit\s*\(|\bassume\s*\(", l):
            r.append("assume: " + l.strip())
    return sorted(set(r))


if __name__ == "__main__":
    main()
