#!/bin/bash
# Nothing to fetch: checks that the tools are there and the specification is well-formed, and builds the driver once.
cd "$(dirname "$0")/.." || exit 1
for f in /opt/veriftools/tla/tla2tools.jar /opt/veriftools/tla/CommunityModules-deps.jar; do
  [ -r "$f" ] || { echo "missing $f"; exit 1; }
done
command -v java g++ python3 >/dev/null || { echo "missing tools"; exit 1; }
python3 -c 'import sys; sys.path.insert(0, "tools"); import po; print(po.build_driver())' || exit 1
bash tools/sany.sh PoProps PoTrace $(cd spec && ls MC_*.tla | sed 's/\.tla//') | grep -iE "error|abort|unknown operator" && exit 1
exit 0
