#!/bin/bash
# nothing to build: the verifier is Python; check that its parts are importable offline
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
exec /opt/venv/bin/python -c 'import sys; sys.path.insert(0,"."); sys.dont_write_bytecode=True
from vc import runner, explore, numeric, evalp; import z3; runner.load_all(); print("verifier ready: %d contracts, %d bounded stand-ins; z3 %s" % (len(runner.R.CONTRACTS), len(runner.R.BOUNDED), z3.get_version_string()))'
