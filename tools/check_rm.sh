#!/bin/bash
# check_rm.sh PROP [args]: run a check against a scratch copy, $RM or /tmp/rm, instead of /repo (development tool)
V=$(cd "$(dirname "$0")/.." && pwd)
RM=${RM:-/tmp/rm}
T=$V/.check_rm$(basename $RM).py
sed "s#REPO = \"/repo\"#REPO = \"$RM\"#" $V/check.py > $T
sed -i "s#shutil.copytree(os.path.join(ROOT, mod), src)#shutil.copytree(os.path.join(ROOT, mod), src); [open(os.path.join(src,\"go.mod\"),\"w\").write(x) for x in [open(os.path.join(src,\"go.mod\")).read().replace(\"=> /repo\",\"=> $RM\")]]#; s#\"evidence\"#\".evidence_rm\"#g" $T
time timeout 900 python3 $T "$@"
