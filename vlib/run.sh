#!/bin/bash
# run.sh VARIANT cmd...  : run a command in the environment of that instrumented build
V=$1; shift
eval "$(python3 - "$V" <<'P'
import sys, shlex
sys.path.insert(0, "/verif/vlib")
import build
print("exec env -i " + " ".join(shlex.quote(k+"="+v) for k, v in build.env_for(sys.argv[1]).items()) + ' "$@"')
P
)"
