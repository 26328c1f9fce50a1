#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE re-run the case of a replay file, verbosely"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
import build as B

HERE = os.path.dirname(os.path.abspath(__file__))
NPROC = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))

# cases per tier, cases per worker process, level, rule, assumptions
PROPS = json.load(open(os.path.join(HERE, "props.json")))


def known():
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                r.append((m.group(1), re.compile(m.group(2) + r"\Z"), m.group(3)))
    return r


def crash_key(err):
    """classify a sanitizer report / abort / spin by kind and innermost library function"""
    kind = None
    m = re.search(r"SPIN-DETECTED: (.*)", err)
    if m:
        return "spin", m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    if not kind:
        m = re.search(r"runtime error: (.*)", err)
        if m:
            kind = "ubsan"
    if "Assertion" in err:
        kind = "assert"
    kind = kind or "died"
    fn = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/src/([\w.]+)(?::(\d+))?", err):
        if m.group(2).endswith(".c"):
            fn = m.group(1)
            break
    return "crash/%s/%s" % (kind, fn), err.strip()[:1500]


class Check:
    def __init__(self, pid, seed, tier):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.conf = PROPS[pid]
        self.exe = B.build()
        self.tmp = tempfile.mkdtemp(prefix="vh_%s_" % pid)
        self.lock = threading.Lock()
        self.viols = []     # (key, msg, case, range)
        self.evals = self.nontriv = 0
        self.sigs = set()
        self.stats = {}
        self.dist = {}
        self.samples = []
        self.cov = None
        self.harness_errors = []
        self.logs = {}

    def vh(self, a, b, prefix, verbose=False, timeout=None):
        cmd = [self.exe, self.pid, str(self.seed), self.tier, str(a), str(b), prefix] + (["v"] if verbose else [])
        return subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)

    def run_one(self, a, b, prefix, verbose=False, wall=400):
        p = self.vh(a, b, prefix, verbose)
        try:
            _, err = p.communicate(timeout=wall)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            rc = "timeout"
        pos = (0, 0)
        try:
            pos = struct.unpack("QQ", open(prefix + ".pos", "rb").read(16))
        except Exception:
            pass
        return rc, err.decode(errors="replace"), pos

    def collect(self, prefix, a, b, done):
        try:
            lines = open(prefix + ".jsonl").read().splitlines()
        except OSError:
            lines = []
        with self.lock:
            for l in lines:
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d["t"] == "viol":
                    self.viols.append((d["key"], d["msg"], d["case"], (a, b)))
                elif d["t"] == "log":
                    self.logs[d["case"]] = d["text"]
                elif d["t"] == "sample":
                    if len(self.samples) < 6:
                        self.samples.append("case %d: %s" % (d["case"], d["text"]))
                elif d["t"] == "stats":
                    self.evals += d["evaluations"]
                    self.nontriv += d["nontrivial"]
                    for k, v in d["stats"].items():
                        self.stats[k] = self.stats.get(k, 0) + v
            try:
                raw = open(prefix + ".sig", "rb").read()
                self.sigs.update(struct.unpack("%dQ" % (len(raw) // 8), raw[:len(raw) // 8 * 8]))
            except OSError:
                pass
            d = os.path.dirname(prefix)
            base = os.path.basename(prefix) + ".d_"
            for f in os.listdir(d):
                if f.startswith(base):
                    raw = open(os.path.join(d, f), "rb").read()
                    self.dist.setdefault(f[len(base):], set()).update(struct.unpack("%dQ" % (len(raw) // 8), raw))
            try:
                cov = open(prefix + ".cov", "rb").read()
                if cov:
                    v = int.from_bytes(cov, "little")
                    self.cov = (v if self.cov is None else self.cov[0] | v, len(cov)) if self.cov is None else (self.cov[0] | v, len(cov))
            except OSError:
                pass
        for f in os.listdir(os.path.dirname(prefix)):
            if f.startswith(os.path.basename(prefix) + "."):
                f = os.path.join(os.path.dirname(prefix), f)
                if os.path.isdir(f):
                    shutil.rmtree(f, ignore_errors=True)
                else:
                    os.unlink(f)

    def chunk(self, a, b):
        n = 0
        start = a
        while start < b and n < 6:
            if time.time() > self.deadline:
                return
            prefix = os.path.join(self.tmp, "w%d_%d" % (start, b))
            rc, err, pos = self.run_one(start, b, prefix)
            self.collect(prefix, start, b, rc == 0)
            if rc == 0:
                return
            n += 1
            if rc == 2 or (pos[1] == 0):
                with self.lock:
                    self.harness_errors.append("worker %d-%d exit %s: %s" % (start, b, rc, err[-1500:]))
                return
            if rc == "timeout":
                key, msg = "hang", "case %d did not finish within 400 s" % pos[0]
                # repeat alone before believing it
                rc2, err2, _ = self.run_one(pos[0], pos[0] + 1, os.path.join(self.tmp, "r%d" % pos[0]), wall=200)
                if rc2 != "timeout":
                    with self.lock:
                        self.harness_errors.append("worker timed out once at case %d, not reproducible" % pos[0])
                    start = pos[0] + 1
                    continue
            elif rc in (-9, -15):
                with self.lock:
                    self.harness_errors.append("worker killed by signal %d" % -rc)
                return
            else:
                key, msg = crash_key(err)
            with self.lock:
                self.viols.append((key, msg, pos[0], (start, b)))
                self.evals += pos[0] - start + 1
                self.logs.setdefault(pos[0], err[-8000:])
            start = pos[0] + 1

    def run(self):
        t0 = time.time()
        n = self.conf["cases"][self.tier]
        n = int(n * float(os.environ.get("VERIF_SCALE", "1")))
        per = max(1, min(self.conf.get("per", 500), (n + NPROC - 1) // NPROC))
        self.deadline = t0 + (330 if self.tier == "quick" else 800 if "VERIF_DEADLINE" not in os.environ else float(os.environ["VERIF_DEADLINE"]))
        chunks = [(a, min(a + per, n)) for a in range(0, n, per)]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda c: self.chunk(*c), chunks))
        wall = time.time() - t0
        return self.report(wall)

    def report(self, wall):
        kf = [k for k in known() if k[0] == self.pid]
        seen_known, real = {}, {}
        for key, msg, case, rng in sorted(self.viols, key=lambda v: (v[0], v[2])):
            for i, (_, rx, what) in enumerate(kf):
                if rx.match(key):
                    seen_known[i] = case
                    break
            else:
                real.setdefault(key, []).append((msg, case, rng))
        for i, (_, _, what) in enumerate(kf):
            if i in seen_known:
                print("KNOWN-FINDING: property=%s %s (case %d)" % (self.pid, what, seen_known[i]))
            elif self.tier == "quick" and not real:
                print("note: listed finding not observed in this run: %s" % what)
        edges = total = 0
        if self.cov:
            edges, total = bin(self.cov[0]).count("1"), self.cov[1]
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.sigs),
            "rule": self.conf["rule"],
            "samples": self.samples[:6] or ["(none)"],
            "observed": dict(sorted(self.stats.items())),
            "distinct_observed": {k: len(v) for k, v in sorted(self.dist.items())},
            "library_edges_covered": edges,
            "library_edges_total": total,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.conf["level"],
              "coverage": cov, "assumptions": self.conf.get("assumptions", []), "wall_s": round(wall, 2),
              "violations": sum(len(v) for v in real.values())}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d/%d library edges, %.1f s" %
              (self.pid, self.tier, self.seed, self.evals, len(self.sigs), edges, total, wall))
        if real:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            for key, l in sorted(real.items(), key=lambda kv: kv[1][0][1]):
                msg, case, rng = l[0]
                name = re.sub(r"[^\w.-]+", "_", "%s_%s_s%d_c%d" % (self.pid, key, self.seed, case))[:120] + ".json"
                path = os.path.join(HERE, "replays", name)
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "case": case, "range": rng, "key": key,
                               "message": msg, "occurrences": len(l), "cases": [x[1] for x in l[:20]],
                               "transcript": self.logs.get(case, "").splitlines(),
                               "how": "python3 check.py --replay %s" % path}, f, indent=1)
                print("  [%s] x%d case %d: %s" % (key, len(l), case, msg[:300].replace("\n", " | ")))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        for e in self.harness_errors:
            print("harness problem: %s" % e)
        if self.harness_errors:
            return 3
        need = self.conf.get("min", {})
        short = ["%s=%d<%d" % (k, self.stats.get(k, 0), v) for k, v in need.items() if self.stats.get(k, 0) < v]
        if not self.evals or not self.sigs or short:
            print("harness problem: too little was observed: evaluations=%d distinct=%d %s" % (self.evals, len(self.sigs), short))
            return 3
        return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        exe = B.build()
        tmp = tempfile.mkdtemp(prefix="vh_replay_")
        rc = subprocess.call([exe, d["property"], str(d["seed"]), d["tier"], str(d["case"]), str(d["case"] + 1), tmp + "/r", "v"])
        shutil.rmtree(tmp)
        print("exit", rc)
        return 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        c = Check(pid, seed, tier)
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    try:
        return c.run()
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
