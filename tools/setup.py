#!/usr/bin/env python3-vt
"""setup_cmd: check that the tools the verifier needs are present; generate nothing that outlives a run."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
for t in ('clang++', 'g++', 'protoc', 'cvc5'):
    if not shutil.which(t): print('missing tool', t); sys.exit(1)
import contracts.registry as R
R.load_all()
print('z3', z3.get_version_string(), '-', len(R.PROPS), 'properties registered')
