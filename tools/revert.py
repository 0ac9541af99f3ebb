#!/usr/bin/env python3
"""Take back each fix of known_findings.txt in a scratch clone and run its property's check (development tool).

revert.py [COMMIT...]
"""
import os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM = os.environ.get("RM", "/tmp/rv")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    if not os.path.isdir(RM):
        sh(f"git clone -q /repo {RM}")
    for l in open(ROOT + "/known_findings.txt"):
        m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if not m or sys.argv[1:] and m.group(2) not in sys.argv[1:]:
            continue
        prop, commit, what = m.groups()
        r = sh(f"cd {RM} && git fetch -q /repo && git reset -q --hard FETCH_HEAD && git clean -fdq && git revert --no-commit {commit}")
        if r.returncode:
            sh(f"cd {RM} && git revert --abort; git reset -q --hard")
            print(commit, prop, "CONFLICT", what[:80], flush=True)
            continue
        if sh(f"cd {RM} && go build ./... && cd {RM}/prutalgen && go build -o /dev/null .").returncode:
            print(commit, prop, "does not build", what[:80], flush=True)
            continue
        r = sh(f"bash {ROOT}/tools/check_rm.sh {prop}", env=dict(os.environ, RM=RM))
        v = re.search(rf"^VIOLATION property={prop}.*", r.stdout, re.M)
        print(commit, prop, "caught" if v else "MISSED", what[:80], flush=True)


main()
