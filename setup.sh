#!/bin/bash
# nothing to build: the checks import /repo/src as it is and run TLC on spec/
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays work
command -v tlc >/dev/null && command -v java >/dev/null && /opt/venv/bin/python -c 'import sys; sys.path.insert(0, "/repo/src"); import aligned_textgrid' || exit 1
for m in MC_ATG TraceATG MC_Lists TraceLists MC_Classes TraceClasses MC_Polar TracePolar; do (cd spec && tla-sany $m.tla >/dev/null) || exit 1; done
