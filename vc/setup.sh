#!/bin/sh
# nothing to build ahead of time: every check compiles /repo's current sources itself
set -e
for t in goto-cc goto-instrument cbmc gcc python3 z3-new cvc5; do command -v "$t" >/dev/null || { echo "missing tool: $t"; exit 1; }; done
cd /verif && python3 vc/driver.py list >/dev/null
