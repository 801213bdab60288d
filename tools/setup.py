#!/usr/bin/env python3
"""checks that the installed tools are the ones the verifier needs (nothing to build)"""
import shutil, sys
import z3, cvc5
missing = [t for t in ('clang', 'clang++', '/usr/lib/llvm-18/bin/opt') if not shutil.which(t)]
if missing:
    sys.exit('missing: %s' % missing)
print('z3', z3.get_version_string())
