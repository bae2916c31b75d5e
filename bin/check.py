#!/usr/bin/env python3
"""Decides one property of /verif/properties.jsonl on /repo's current working tree.

    bin/check.py C01                 run the check (tier from VERIF_TIER, seed from VERIF_SEED)
    bin/check.py --replay FILE       run one recorded rejected case again

A check (table in checks.py) consists of
  * model-checking runs: TLC on the TLA+ specification of the component, exhaustively within
    the constants of a .cfg file;
  * conformance runs: a driver (harness/*.cpp, compiled against /repo/src) executes many
    histories on the real code and records every public call with its arguments and result;
    TLC accepts each history only if it is a behaviour of the trace specification.
Exit 0: everything accepted.  Exit 1: a VIOLATION line was printed.  Exit 2: the check itself failed.
"""
import sys, os, json, re, subprocess, tempfile, shutil, time, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC, HARN = HERE + "/spec", HERE + "/harness"
sys.path.insert(0, HERE + "/bin")
from checks import CHECKS
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)

class ToolError(Exception): pass

def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd)[:300])
    return p.returncode, p.stdout.decode("utf-8", "replace")

def errs(out):
    i = out.find("Error:")
    return out[i:i + 3000] if i >= 0 else out[-3000:]

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = CHECKS[pid]
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = 0
        self.cases = 0; self.events = {}; self.samples = []; self.mc_notes = []
        self.lock = threading.Lock()

    # ---------------------------------------------------------------- building
    def build_java(self):
        out = self.scratch + "/java"; os.makedirs(out, exist_ok=True)
        src = [SPEC + "/java/" + f for f in sorted(os.listdir(SPEC + "/java")) if f.endswith(".java")]
        rc, o = sh(["javac", "-cp", TLA, "-d", out] + src, 120)
        if rc: raise ToolError("javac failed\n" + o)

    def binary(self, src, flags):
        return self.scratch + "/" + re.sub(r"\W+", "_", src + "".join(flags))

    def build(self, src, flags):
        exe = self.binary(src, flags)
        cmd = ["g++", "-std=c++17", "-w", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"]
        cmd += ["-O1"] if not any(f.startswith("-O") for f in flags) else []
        cmd += list(flags) + ["-o", exe, HARN + "/" + src]
        rc, o = sh(cmd, 600)
        if rc: raise ToolError("driver %s does not compile against /repo/src\n%s" % (src, o[-3000:]))
        return exe

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, mem="2g", extra=()):
        meta = tempfile.mkdtemp(dir=self.scratch)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2" if workers == 1 else "-XX:ParallelGCThreads=%d" % NCPU,
               "-Xss64m", "-Xmx" + mem, "-cp", self.scratch + "/java:" + TLA, "tlc2.TLC", "-metadir", meta,
               "-noGenerateSpecTE", "-lncheck", "final", "-workers", str(workers), "-config", SPEC + "/" + cfg] + list(extra) + [SPEC + "/" + module + ".tla"]
        rc, out = sh(cmd, timeout, env, cwd=meta)
        shutil.rmtree(meta, ignore_errors=True)
        st = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in st[-1]) if st else (0, 0)
        with self.lock:
            self.states += dist; self.transitions += max(0, gen - 1)
        return rc, out, gen, dist

    def mc(self, m):
        rc, out, gen, dist = self.tlc(m["module"], m["cfg"], workers=m.get("workers", NCPU), timeout=m.get("timeout", 600), mem=m.get("mem", "8g"), extra=m.get("extra", ()))
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("model checking %s/%s failed (the specification does not depend on /repo, so this is an error of the check)\n%s" % (m["module"], m["cfg"], out[-3000:]))
        with self.lock:
            self.mc_notes.append({"spec": m["module"], "config": m["cfg"], "distinct_states": dist, "states_generated": gen})

    # ---------------------------------------------------------------- traces
    def drive(self, run, exe, shard, shards, out, only=None):
        cmd = [exe, "--seed", str(self.seed), "--shard", str(shard), "--shards", str(shards), "--cases", str(run["cases"][self.tier]),
               "--out", out, "--mode", run.get("mode", ""), "--tier", self.tier]
        if run.get("script"): cmd += ["--script", self.scratch + "/" + run["script"]]
        if only is not None: cmd += ["--only", str(only)]
        d = out + ".dir"; os.makedirs(d, exist_ok=True)
        cmd += ["--dir", d]
        env = {"MALLOC_PERTURB_": "171", "OMP_NUM_THREADS": "1", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=0"}
        rc, o = sh(cmd, 850 if self.tier == "quick" else 6000, env)
        shutil.rmtree(d, ignore_errors=True)
        if rc: raise ToolError("driver failed (%d): %s\n%s" % (rc, " ".join(cmd), o[-2000:]))

    def validate(self, run, path):
        """-> index of the first rejected line, or None when the whole trace is accepted"""
        n = sum(1 for _ in open(path))
        if n == 0: return None
        rc, out, gen, dist = self.tlc(run["trace"], run.get("cfg", "Trace.cfg"), env={"TRACE": path}, timeout=run.get("timeout", 800 if self.tier == "quick" else 6000), extra=run.get("extra", ()))
        m = re.search(r"The depth of the complete state graph search is (\d+)", out)
        if rc == 0 and m:
            d = int(m.group(1)) - 1
            if d == n: return None
            if d < n: return d
        # an evaluation error at some line: the event lies outside the specification's domain
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        if ls and rc in (11, 12, 13, 75, 76, 77, 255, 1, 150, 151) and "OutOfMemory" not in out and "StackOverflow" not in out and "Parsing or semantic" not in out:
            if os.environ.get("VERIF_DEBUG"): sys.stderr.write(out + "\n")
            return max(int(x) for x in ls) - 1
        raise ToolError("TLC failed on a trace (rc %d)\n%s" % (rc, errs(out)))


    @staticmethod
    def split(lines):
        """-> list of (case, first line index, last+1)"""
        cs = []; start = 0
        for i, s in enumerate(lines):
            if s.startswith('{"e":"Begin"'):
                if cs: cs[-1][2] = i
                cs.append([json.loads(s)["case"], i, len(lines)])
        return cs

    def shard(self, run, exe, shard, shards):
        path = "%s/t-%s-%s-%d.ndjson" % (self.scratch, run["trace"], run.get("mode", ""), shard)
        self.drive(run, exe, shard, shards, path)
        lines = open(path).read().splitlines()
        cases = self.split(lines)
        with self.lock:
            self.cases += len(cases)
            for s in lines:
                k = s[6:s.index('"', 6)]
                self.events[k] = self.events.get(k, 0) + 1
            if cases and len(self.samples) < 3:
                c = min(cases[:40], key=lambda c: abs(c[2] - c[1] - 4))
                self.samples.append({"driver": run["src"] + " " + run.get("mode", ""), "case": c[0],
                                     "events": [s[:600] for s in lines[c[1]:min(c[2], c[1] + 8)]]})
        bad = []
        while lines and len(bad) < 4:
            r = self.validate(run, path)
            if r is None: break
            c = [c for c in cases if c[1] <= r < c[2]][0]
            bad.append((c[0], r - c[1], lines[c[1]:c[2]]))
            lines = lines[:c[1]] + lines[c[2]:]
            # the cases before the rejected one are accepted already
            lines = lines[c[1]:]
            cases = self.split(lines)
            open(path, "w").write("".join(s + "\n" for s in lines))
        os.remove(path)
        return bad

    def confirm(self, run, exe, case):
        path = "%s/confirm-%s-%d.ndjson" % (self.scratch, run.get("mode", ""), case)
        for attempt in range(3):
            self.drive(run, exe, 0, 1, path, only=case)
            r = self.validate(run, path)
            if r is not None:
                return r, open(path).read().splitlines()
        return None, None

    # ---------------------------------------------------------------- whole check
    def runs(self):
        for r in self.cfg["runs"]:
            if self.tier in r["cases"]: yield r

    def go(self):
        t0 = time.time()
        known = load_known(self.pid)
        self.build_java()
        pool = ThreadPoolExecutor(NCPU)
        builds = {}
        for r in self.runs():
            key = (r["src"], tuple(r.get("flags", ())))
            if key not in builds: builds[key] = pool.submit(self.build, *key)
        mcs = [m for m in self.cfg.get("mc", []) if self.tier in m.get("tiers", ("quick", "thorough"))]
        mcf = None
        def all_mc():
            for m in mcs: self.mc(m)
        mcf = pool.submit(all_mc)
        exes = {k: f.result() for k, f in builds.items()}
        mcf.result()
        for g in self.cfg.get("gen", []):
            self.generate(g)
        jobs = []
        for r in self.runs():
            exe = exes[(r["src"], tuple(r.get("flags", ())))]
            shards = r.get("shards", NCPU)
            for s in range(shards): jobs.append((r, exe, pool.submit(self.shard, r, exe, s, shards)))
        violations = []; findings = []; unconfirmed = []
        bads = [(r, exe, f.result()) for r, exe, f in jobs]
        for r, exe, bad in bads:
            for case, off, lines in bad:
                if len(violations) >= 5: break
                o2, l2 = self.confirm(r, exe, case)
                if o2 is None:
                    unconfirmed.append({"mode": r.get("mode"), "case": case}); continue
                ev = json.loads(l2[o2])
                k = match_known(known, ev)
                if k: findings.append(k); continue
                violations.append(self.save_replay(r, case, o2, l2))
        for k in sorted({f["what"] for f in findings}): print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        self.evidence(t0, len(violations), unconfirmed)
        if unconfirmed and not violations: raise ToolError("rejections that did not repeat: %s" % unconfirmed[:5])
        for path, txt in violations:
            print(txt); print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1 if violations else 0

    def generate(self, g):
        """behaviours of the specification, written by TLC as a script for the driver"""
        out = self.scratch + "/" + g["script"]
        rc, o, gen, dist = self.tlc(g["module"], g["cfg"], env={"SCRIPT": out, "SEED": str(self.seed), "TIER": self.tier}, workers=g.get("workers", 1), timeout=g.get("timeout", 600), mem="4g",
                         extra=[x.replace("@SEED", str(self.seed)) for x in g.get("extra", {}).get(self.tier, [])])
        lines = [l[3:] for l in o.splitlines() if l.startswith('>> ') or l.startswith('">>')]
        got = []
        for l in o.splitlines():
            l = l.strip()
            if l.startswith('"@@'): got.append(json.loads(l)[2:])
        if got: open(out, "w").write("\n".join(got) + "\n")
        if not os.path.exists(out) or os.path.getsize(out) == 0:
            raise ToolError("no behaviours generated from %s\n%s" % (g["module"], o[-3000:]))
        self.mc_notes.append({"spec": g["module"], "config": g["cfg"], "behaviours_generated": sum(1 for _ in open(out))})

    def save_replay(self, r, case, off, lines):
        d = HERE + "/evidence/replay"; os.makedirs(d, exist_ok=True)
        path = "%s/%s-%s%d.json" % (d, self.pid, (r.get("mode") or "run") + "-", case)
        rec = {"property": self.pid, "tier": self.tier, "seed": self.seed, "case": case, "driver": r["src"], "mode": r.get("mode", ""),
               "trace_spec": r["trace"], "accepted_events": off, "rejected_event": json.loads(lines[off]), "trace": lines}
        json.dump(rec, open(path, "w"), indent=1)
        txt = "rejected by %s.tla after %d accepted events of case %d (%s %s): %s" % (r["trace"], off, case, r["src"], r.get("mode", ""), lines[off][:700])
        return path, txt

    def evidence(self, t0, nviol, unconfirmed):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.cases,
                           "events_by_kind": self.events, "model_checking_runs": self.mc_notes, "samples": self.samples,
                           "rejections_not_repeated": unconfirmed},
              "assumptions": self.cfg.get("assumptions", []) + ["the driver's projection of arguments and results (harness/) is faithful", "TLC and the wide-integer overrides in spec/java evaluate the specification correctly"],
              "wall_s": round(time.time() - t0, 2), "violations": nviol}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        tmp = HERE + "/evidence/.%s.tmp" % self.pid
        json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, HERE + "/evidence/%s.json" % self.pid)

def load_known(pid):
    p = HERE + "/known_findings.jsonl"
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.strip().startswith("{"):
                k = json.loads(l)
                if k.get("property") == pid and k.get("match"): out.append(k)
    return out

def match_known(known, ev):
    for k in known:
        if all(ev.get(a) == b for a, b in k["match"].items()): return k
    return None

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        rec = json.load(open(sys.argv[2]))
        R = Run(rec["property"], rec["tier"], rec["seed"])
        try:
            R.build_java()
            for g in R.cfg.get("gen", []): R.generate(g)
            for r in R.runs():
                if r["src"] == rec["driver"] and r.get("mode", "") == rec["mode"]:
                    o, l = R.confirm(r, R.build(r["src"], tuple(r.get("flags", ()))), rec["case"])
                    if o is None: print("accepted"); return 0
                    print("\n".join(s[:1500] for s in l[:o + 1])); print("rejected at event %d" % o); return 1
        finally: shutil.rmtree(R.scratch, ignore_errors=True)
        return 2
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Run(pid, tier, seed)
    try:
        return R.go()
    except ToolError as e:
        print("CHECK ERROR (%s): %s" % (pid, e)); return 2
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(R.scratch, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
