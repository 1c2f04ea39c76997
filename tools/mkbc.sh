#!/bin/bash
# mkbc.sh <ID> <out.bc>: link one check's IR for debugging the engine
python3 - "$@" <<'P'
import sys,os,tempfile,subprocess
sys.path.insert(0,'/verif')
import check,checks
rts=check.build_engine()
d=tempfile.mkdtemp()
bcs=check.compile_ir(checks.CHECKS[sys.argv[1]],d)
r=check.run(['llvm-link-18','-o',sys.argv[2]]+bcs+rts); print(r.stderr)
import shutil; shutil.rmtree(d)
P
