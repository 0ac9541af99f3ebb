#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [--replay FILE]

Builds the harness against /repo's working tree in a scratch folder, runs its
monitored workload in several processes, merges what the monitors observed into
evidence/ID.json.  Exit 0: no violation.  Exit 1: VIOLATION line.  Exit 2: error
of the check itself.  VERIF_SEED and VERIF_TIER choose seed and tier.
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from plan import PLAN  # noqa: E402

REPO = "/repo"
GOROOT = "/opt/veriftools/go1.27.3"
NPROC = 8


def goenv(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO") and k not in ("GOCACHE",):
            del e[k]
    e.update(HOME="/root", GOROOT=GOROOT, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOWORK="off", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="", PATH=GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    if extra:
        e.update(extra)
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def known_findings(prop):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=<id> key=<key> <what fails>
                parts = line.split(None, 3)
                if parts[1] == "property=" + prop:
                    out[parts[2].split("=", 1)[1]] = parts[3]
    return out


class Check:
    def __init__(self, prop, tier, seed, replay=None):
        self.prop, self.tier, self.seed, self.replay = prop, tier, seed, replay
        self.plan = PLAN[prop]
        self.known = known_findings(prop)
        self.scratch = tempfile.mkdtemp(prefix="vh-%s-" % prop)
        os.chmod(self.scratch, 0o755)
        self.results, self.violations, self.built = [], [], {}
        self.lock = threading.Lock()

    repo = REPO

    def copy(self, mod):
        """A copy of one of /verif's modules in the scratch folder."""
        src = os.path.join(self.scratch, mod)
        if not os.path.exists(src):
            shutil.copytree(os.path.join(ROOT, mod), src)
        return src

    def go(self, cmd, cwd, **env):
        """Runs a go command, or ends the check; returns what it prints."""
        p = subprocess.run(cmd, cwd=cwd, env=goenv(dict(dict(CGO_ENABLED="0"), **env)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            die("%s failed\n%s" % (" ".join(cmd), (p.stdout + p.stderr)[-6000:]))
        return p.stdout

    def build(self, job):
        """Builds the job's binary from /repo's working tree, or returns an earlier one."""
        key = (job["pkg"], tuple(job.get("build", [])))
        if key in self.built:
            return self.built[key]
        mod = job.get("mod", "harness")
        src = self.copy(mod)
        out = os.path.join(self.scratch, "bin%d" % len(self.built))
        cmd = ["go", "build", "-o", out] + job.get("build", []) + ["./" + job["pkg"]]
        self.go(cmd, src, **dict(job.get("buildenv", {}), CGO_ENABLED="1" if job.get("cgo") else "0"))
        self.built[key] = out
        return out

    def run_shard(self, job, binary, shard, shards, only=None):
        tag = "%s-%d%s" % (job["name"], shard, "-only" if only else "")
        out = os.path.join(self.scratch, tag + ".json")
        prog = os.path.join(self.scratch, tag + ".progress")
        errf = os.path.join(self.scratch, tag + ".stderr")
        work = os.path.join(self.scratch, tag + ".work")
        os.makedirs(work, exist_ok=True)
        args = dict(job.get("args", {}), scratch=work, repo=REPO, verif=ROOT,
                    **{k: (v if v.startswith("/") else os.path.join(self.scratch, v)) for k, v in self.extra.items()})
        cmd = [binary, "-prop", self.prop, "-tier", self.tier, "-seed", str(self.seed),
               "-shard", self.replay["shard"] if only else "%d/%d" % (shard, shards), "-out", out, "-progress", prog,
               "-known", ",".join(self.known), "-args", ",".join("%s=%s" % kv for kv in args.items())]
        if only:
            cmd += ["-only", only]
        env = goenv(dict({"GOTRACEBACK": "all", "GOMAXPROCS": str(job.get("procs", 2))}, **job.get("env", {})))
        env["TMPDIR"] = work

        def limits():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if job.get("as_gb"):
                n = job["as_gb"] << 30
                resource.setrlimit(resource.RLIMIT_AS, (n, n))

        with open(errf, "wb") as ef:
            p = subprocess.Popen(cmd, cwd=work, env=env, stdout=ef, stderr=ef, preexec_fn=limits, start_new_session=True)
            try:
                rc = p.wait(timeout=job.get("timeout", 780 if self.tier == "quick" else 6 * 3600))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        err = open(errf, "rb").read().decode("utf8", "replace")
        case = ""
        if os.path.exists(prog):
            case = open(prog, errors="replace").read().strip()
        return rc, res, err, case

    def shard(self, job, binary, shard, shards):
        only = self.replay["case"] if self.replay else None
        for attempt in range(2):
            rc, res, err, case = self.run_shard(job, binary, shard, shards, only)
            if rc == -9 and attempt == 0:  # ended from outside (memory): once more before judging
                continue
            break
        with self.lock:
            if res and res.get("done"):
                self.results.append((job, res))
                for v in res["violations"] or []:
                    self.violations.append(dict(v, job=job["name"], shard="%d/%d" % (shard, shards)))
            bad = None
            if "WARNING: DATA RACE" in err:
                bad = "data race reported by the race detector"
            elif rc == 7:
                bad = "a case does not terminate"
            elif rc == 8:  # the harness itself cannot work
                self.errors.append("job %s shard %d: %s" % (job["name"], shard, err[-3000:]))
            elif rc == "timeout":
                self.errors.append("job %s shard %d ran out of time at case %s" % (job["name"], shard, case))
            elif rc != 0:
                bad = "process died with status %s" % rc
            elif not res or not res.get("done"):
                bad = "process ended without finishing"
            if bad:
                self.violations.append(dict(case=case, msg=bad, detail=excerpt(err), job=job["name"],
                                            shard="%d/%d" % (shard, shards)))

    def run(self):
        t0 = time.time()
        self.errors = []
        self.extra = {}
        try:
            for name, how in self.plan.get("extra", {}).items():
                self.extra[name] = how(self)
            jobs = [j for j in self.plan["jobs"] if self.tier in j.get("tiers", ("quick", "thorough"))]
            if self.replay:
                jobs = [j for j in jobs if j["name"] == self.replay["job"]]
            for job in jobs:
                binary = self.build(job)
                shards = 1 if self.replay else job.get("shards", NPROC)
                sem = threading.Semaphore(job.get("parallel", NPROC))

                def one(i):
                    with sem:
                        self.shard(job, binary, i, shards)
                ths = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
                for t in ths:
                    t.start()
                for t in ths:
                    t.join()
                if self.violations:
                    break
            return self.report(time.time() - t0)
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def report(self, wall):
        ev, distinct, counters, samples, seen_known = 0, set(), {}, [], {}
        for job, res in self.results:
            ev += res["evaluations"]
            distinct.update(res["distinct"] or [])
            for k, n in (res["counters"] or {}).items():
                if k.startswith("max_"):
                    counters[k] = max(counters.get(k, 0), n)
                else:
                    counters[k] = counters.get(k, 0) + n
            samples += res["samples"] or []
            seen_known.update(res["known"] or {})
        if not self.replay:
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            cov = dict(evaluations=ev, distinct_nontrivial=len(distinct), rule=self.plan["rule"],
                       samples=samples[:6], observed=counters,
                       jobs=[dict(name=j["name"], build=j.get("build", []), env=j.get("env", {}),
                                  processes=j.get("shards", NPROC)) for j in self.plan["jobs"]
                             if self.tier in j.get("tiers", ("quick", "thorough"))],
                       known_findings_seen=seen_known)
            evd = dict(property=self.prop, tier=self.tier, seed=self.seed, level="exploration", coverage=cov,
                       assumptions=self.plan.get("assumptions", []), wall_s=round(wall, 2),
                       violations=len(self.violations))
            tmp = os.path.join(ROOT, "evidence", self.prop + ".json.tmp")
            with open(tmp, "w") as f:
                json.dump(evd, f, indent=1)
            os.replace(tmp, os.path.join(ROOT, "evidence", self.prop + ".json"))
        for k, what in self.known.items():
            if k in seen_known:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
            elif not self.replay and not self.violations:
                print("note: known finding %s was not seen" % k)
        if self.violations:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(d, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, case=v["case"], job=v["job"], shard=v["shard"],
                                   message=v["msg"], detail=v.get("detail"),
                                   how="python3 /verif/check.py %s --replay %s" % (self.prop, path)), f, indent=1)
                print("%s: case %s: %s" % (v["job"], v["case"], v["msg"][:1500]))
                if i == 0 and v.get("detail"):
                    print(str(v["detail"])[:3000])
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        if self.errors:
            die("; ".join(self.errors))
        if not self.replay and (ev == 0 or len(distinct) == 0):
            die("nothing was observed")
        print("%s %s seed %d: %d executions, %d distinct, %.1f s, %s" %
              (self.prop, self.tier, self.seed, ev, len(distinct), wall,
               ", ".join("%s=%d" % kv for kv in sorted(counters.items()))))
        return 0


def excerpt(err):
    for mark in ("WARNING: DATA RACE", "fatal error:", "panic:", "unexpected fault", "SIG", "ERROR: AddressSanitizer", "HANG"):
        i = err.find(mark)
        if i >= 0:
            return err[i:i + 6000]
    return err[-6000:]


def main():
    prop = sys.argv[1]
    if prop not in PLAN:
        die("no check for " + prop)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    replay = None
    if "--replay" in sys.argv:
        replay = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        tier, seed = replay["tier"], replay["seed"]
    sys.exit(Check(prop, tier, seed, replay).run())


if __name__ == "__main__":
    main()
