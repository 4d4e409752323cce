#!/bin/sh
# Nothing to build: the framework is Python and every check imports /repo's working tree afresh.
cd "$(dirname "$0")" || exit 1
/opt/venv/bin/python -c "
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, '.')
import mon.ref.selftest as t
t.main()
"
