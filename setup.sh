#!/bin/sh
# Builds the executor and the harness; every check does the same for itself.
cd "$(dirname "$0")" && exec python3 -c "
import os, check
os.makedirs(check.BUILD, exist_ok=True)
check.parallel([('e', check.build_engine)] + [(k + r, lambda f=f, r=r: f(r)) for r in ('tk', 'as') for k, f in (('i', check.build_ir), ('n', check.build_native))])
"
