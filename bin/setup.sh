#!/bin/sh
# Nothing to build: TLC interprets the specification, Python the harness.
set -e
cd "$(dirname "$0")/.."
command -v java >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -B -c 'import sys; sys.path.insert(0, "/repo"); import trlc.trlc'
for m in TrlcRun LexRun Cli Verifier GrammarRun GrammarGen Rst; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla >/tmp/sany.$$ 2>&1) || { cat /tmp/sany.$$; exit 1; }
  rm -f /tmp/sany.$$
done
echo ready
