#!/usr/bin/env python3
"""Seeded bugs: make, confirm and run them in a scratch copy of /repo (development tool; no check uses it).

seed.py make SPEC.py     write seeded/<id>/ from SPECs (id, prop, edits, demo, needs, breaks) and confirm them
seed.py confirm [ID..]   patch applies, builds, tests pass, demo 0 without and non-zero with the patch
seed.py check [ID..]     run the property's quick check against the patched scratch copy
"""
import json, os, re, subprocess, sys, shutil, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = "/tmp/rm"
SEED = os.path.join(ROOT, "seeded")

DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$t/o.json"
export DEMO_TMP="$t"
timeout 280 go test -vet=off -count=1 %(flags)s -overlay "$t/o.json" -run '^TestDemo$' ./%(pkg)s
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def refresh():
    if not os.path.isdir(RM):
        sh(f"git clone -q /repo {RM}")
    r = sh(f"cd {RM} && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git clean -fdq")
    assert r.returncode == 0, r.stdout


def tests():
    b = sh(f"sed 's#/repo#{RM}#g' /opt/vp/build.sh > /tmp/b_rm.sh; bash /tmp/b_rm.sh")
    if b.returncode:
        return "build: " + b.stdout[-600:]
    sh(f"sed 's#/repo#{RM}#g' /opt/vp/test.sh > /tmp/t_rm.sh; bash /tmp/t_rm.sh /tmp/o_rm.json")
    o = json.load(open("/tmp/o_rm.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["stable"])
    ok = set(o["passed"])
    miss = sorted(want - ok)
    return None if not miss else f"tests failing: {miss[:5]}"


def demo(d):
    tmp = "/tmp/demo_dir"
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"timeout 300 bash {tmp}/demo.sh", cwd=RM)
    shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode, r.stdout


def confirm(i):
    d = os.path.join(SEED, i)
    refresh()
    c, out = demo(d)
    if c != 0:
        return f"demo fails on clean tree: {out[-800:]}"
    r = sh(f"git apply {d}/patch.diff", cwd=RM)
    if r.returncode:
        return "apply: " + r.stdout
    t = tests()
    if t:
        return t
    c, out = demo(d)
    if c == 0:
        return "demo passes with the patch"
    return None


def make(spec):
    refresh()
    for f, old, new in spec["edits"]:
        p = os.path.join(RM, f)
        s = open(p).read()
        assert s.count(old) == 1, (spec["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=RM).stdout
    d = os.path.join(SEED, spec["id"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    if "demo_sh" in spec:
        open(d + "/demo.sh", "w").write(spec["demo_sh"])
    else:
        open(d + "/demo.sh", "w").write(DEMO % dict(pkg=spec.get("pkg", "."), flags=spec.get("flags", "")))
        open(d + "/demo_test.go", "w").write(spec["demo"])
        sh(f"gofmt -w {d}/demo_test.go")
    for n, c in spec.get("files", {}).items():
        open(os.path.join(d, n), "w").write(c)
    json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]),
              open(d + "/meta.json", "w"), indent=1)
    return confirm(spec["id"])


def check(i, tier="quick"):
    d = os.path.join(SEED, i)
    refresh()
    r = sh(f"git apply {d}/patch.diff", cwd=RM)
    assert r.returncode == 0, r.stdout
    prop = json.load(open(d + "/meta.json"))["property"]
    r = sh(f"bash {ROOT}/tools/check_rm.sh {prop}")
    v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={prop}")]
    m = re.search(r"real\s+(\S+)", r.stdout)
    refresh()
    return prop, bool(v), (v[0][:160] if v else r.stdout[-300:]), m and m.group(1)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        for s in ns["SPECS"]:
            if len(args) > 1 and s["id"] not in args[1:]:
                continue
            print(s["id"], make(s) or "ok", flush=True)
    else:
        ids = args or sorted(os.path.basename(x) for x in glob.glob(SEED + "/*"))
        for i in ids:
            if cmd == "confirm":
                print(i, confirm(i) or "ok", flush=True)
            else:
                print(i, *check(i), flush=True)
