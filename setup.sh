#!/bin/bash
# Nothing to compile: the specification is interpreted by TLC, the harness by Python.
# Verify that the tools are there and that every module of the specification parses.
set -eu
cd "$(dirname "$0")"
test -x /opt/venv/bin/python
test -f /opt/veriftools/tla/tla2tools.jar
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp spec/*.tla "$tmp"
cd "$tmp"
for m in *.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 1; }
done
echo "specification parses"
