#!/bin/bash
# Builds the analyser and the dependencies of /repo's crate with their MIR.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.argv=['check.py']
sys.path.insert(0,'.')
import check,os,tempfile,shutil
os.makedirs(check.BUILD,exist_ok=True)
check.build_driver()
t=tempfile.mkdtemp()
try: check.invocation(t)
finally: shutil.rmtree(t)
print('analyser and dependencies built')
P
