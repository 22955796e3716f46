#!/bin/bash
# Nothing is built: checks whether the tools are there and the modules of the specification can be read.
cd "$(dirname "$0")/../spec" || exit 1
command -v tlc >/dev/null || { echo "tlc is missing"; exit 1; }
meta=$(mktemp -d) || exit 1
for m in *.tla; do
  out=$(cd . && JAVA_TOOL_OPTIONS="-Djava.io.tmpdir=$meta" tla-sany "$m" 2>&1) || { echo "$out" | tail -20; rm -rf "$meta"; exit 1; }
done
rm -rf "$meta"
/opt/venv/bin/python -c 'import lark' || exit 1
echo ok
