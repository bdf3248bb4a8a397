#!/bin/bash
# dev.sh C07 [dbg|rel]: build one variant of a harness in /tmp/dev-ID-VARIANT
cd "$(dirname "$0")" && python3 - "$@" <<'PY'
import sys,os
sys.argv=sys.argv
import run
p=sys.argv[1]; v=sys.argv[2] if len(sys.argv)>2 else 'dbg'
o='/tmp/dev-%s-%s'%(p,v); os.makedirs(o,exist_ok=True)
try:
    print(run.build(run.CHECKS[p],[v],o)[v])
except run.BuildError as e:
    print(str(e)[:8000])
PY
