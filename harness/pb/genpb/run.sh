#!/bin/bash
# Regenerates the committed official code: run in harness/pb with protoc and the cached protoc-gen-go.
set -e
cd "$(dirname "$0")/.."
python3 gen.py
d=$(mktemp -d)
protoc -Iproto -I/usr/include --include_imports -o "$d/all.pb" p2.proto p3.proto
(cd .. && go build -o "$d/genpb" ./pb/genpb && go build -o "$d/protoc-gen-go" google.golang.org/protobuf/cmd/protoc-gen-go)
"$d/genpb" "$d/all.pb" > "$d/req.bin"
"$d/protoc-gen-go" < "$d/req.bin" > "$d/resp.bin"
protoc -I/usr/include --decode=google.protobuf.compiler.CodeGeneratorResponse /usr/include/google/protobuf/compiler/plugin.proto < "$d/resp.bin" > "$d/resp.txt" 
python3 - "$d/resp.txt" <<'PY'
import re,sys
t=open(sys.argv[1]).read()
m=re.match(r'error: "(.*)"',t)
if m: sys.exit(m.group(1))
import ast
for name,content in re.findall(r'name: "([^"]*)"\s+content: ("(?:[^"\\]|\\.)*")',t):
    c=ast.literal_eval('b'+content).decode()
    open(name.replace('pb/','',1),'w').write(c); print(name,len(c))
PY
rm -r "$d"
