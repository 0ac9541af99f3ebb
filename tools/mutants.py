#!/usr/bin/env python3
"""Small automatic changes to prutal (development tool; no check uses it).

mutants.py tests N SEED DIR [PATTERN]   take N random changes, keep those which build and pass the tests (4 at a time)
mutants.py checks DIR [FROM TO]         run the checks, smallest first, on those which were kept, until one catches it

tools/mutate/main.go lists the changes (build it with a go.mod of its own, to /tmp/mutate).
"""
import json, os, random, re, shutil, subprocess, sys, concurrent.futures, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = os.environ.get("RM", "/tmp/rm")
RUNTIME = "C02 C01 C03 C04 C05 C07 C09 C16 C11 C13 C06 C12 C08 C10 C14 C15".split()
GENERATOR = "G02 G05 G04 G09 G10 G12 G07 G08 G03 G11 G06 G01".split()

FIRST = dict(enum="G07 G05 G09", code="G02 G08 G10 G07 G09", comment="G10 G12", directive="G09", option="G05 G12 G03", proto="G04 G12 G11 G05", type="G04 G12 G02",
             main="G06 G01", go_opts="G06 G11", reserved="G05", service="G12 G04", prutalgen="G05 G06 G12 G11", message="G05 G01 G02 G09", field="G02 G09 G05 G12",
             codewriter="G01 G11 G06", oneof="G02 G01", consts="G02 G03", utils="G05 G04 G12", embed="G11", strings="G02 G01", decode_number="G05 G07", decode_string="G12 G01",
             decoder_map="C02 C16", encoder_map="C01 C03", desc="C11 C01", tag="C11 C01", span="C13 C08", hack="C01 C02 C08", sizer="C04 C03", size="C04", size_map="C04",
             grpccodec="C15", decoder_packed="C02", builder="C14 C01", map="C10 C11 C01", type_="C11")


def order(m):
    all_ = GENERATOR if m["file"].startswith("prutalgen/") else RUNTIME
    name = os.path.basename(m["file"])[:-3]
    first = [c for c in FIRST.get(name, "").split() if c in all_]
    return first + [c for c in all_ if c not in first]


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clone(d):
    if not os.path.isdir(d):
        sh(f"git clone -q /repo {d}")
    r = sh(f"cd {d} && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git clean -fdq")
    assert r.returncode == 0, r.stdout


def mutants(src, pattern):
    fs = sh("git ls-files '*.go' | grep -v _test.go | grep -v 'internal/antlr\\|internal/parser\\|testutils\\|testdata\\|^tests/'", cwd=src).stdout.split()
    fs = [f for f in fs if re.search(pattern, f)]
    out = []
    for l in subprocess.run(["/tmp/mutate"] + fs, cwd=src, stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f, a, b, s, kind, line = l.split("\t")
        out.append(dict(file=f, a=int(a), b=int(b), s=json.loads(s), kind=kind, line=int(line)))
    return out


def apply(d, m):
    p = os.path.join(d, m["file"])
    t = open(p, "rb").read()
    open(p, "wb").write(t[:m["a"]] + m["s"].encode() + t[m["b"]:])


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "tests":
        n, seed, out = int(args[0]), int(args[1]), args[2]
        pattern = args[3] if len(args) > 3 else "."
        os.makedirs(out, exist_ok=True)
        dirs = [f"/tmp/mu{i}" for i in range(4)]
        for d in dirs:
            clone(d)
        all_ = mutants(dirs[0], pattern)
        random.Random(seed).shuffle(all_)
        want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        free, lock, counts = list(dirs), threading.Lock(), {}

        def one(m):
            with lock:
                d = free.pop()
            try:
                apply(d, m)
                r = sh(f"sed 's#/repo#{d}#g' /opt/vp/build.sh > {d}.b.sh; timeout 120 bash {d}.b.sh")
                res = "build"
                if r.returncode == 0:
                    sh(f"sed 's#/repo#{d}#g; s#-timeout 10m#-timeout 60s#' /opt/vp/test.sh > {d}.t.sh; rm -f {d}.json; timeout 200 bash {d}.t.sh {d}.json")
                    try:
                        res = "killed" if want - set(json.load(open(d + ".json"))["passed"]) else "kept"
                    except OSError:
                        res = "killed"
                if res == "kept":
                    m["diff"] = sh("git diff", cwd=d).stdout
                    with lock:
                        open(out + "/kept.jsonl", "a").write(json.dumps(m) + "\n")
                with lock:
                    counts[res] = counts.get(res, 0) + 1
            finally:
                sh("git checkout -q -- . && git clean -fdq", cwd=d)
                with lock:
                    free.append(d)

        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            list(ex.map(one, all_[:n]))
        print(counts, "of", len(all_))
    else:
        out = args[0]
        ms = [json.loads(l) for l in open(out + "/kept.jsonl")]
        lo, hi = (int(args[1]), int(args[2])) if len(args) > 2 else (0, len(ms))
        for i in range(lo, min(hi, len(ms))):
            m = ms[i]
            clone(RM)
            open(RM + ".diff", "w").write(m["diff"])
            if sh(f"git apply {RM}.diff", cwd=RM).returncode:
                print(i, "does not apply", flush=True)
                continue
            res = "MISSED"
            for c in order(m):
                r = sh(f"bash {ROOT}/tools/check_rm.sh {c}", env=dict(os.environ, RM=RM, VDEV_MUL=os.environ.get("VDEV_MUL", "1")))
                if re.search(rf"^VIOLATION property={c}", r.stdout, re.M):
                    res = c
                    break
                if not re.search(r"^C?G?\d+ quick seed", r.stdout, re.M) and "quick seed" not in r.stdout:
                    res = "ERROR " + c + " " + r.stdout[-300:]
                    break
            print(i, m["file"], m["line"], m["kind"], res, flush=True)
            if res[0] in "ME":
                print(m["diff"], flush=True)


main()
