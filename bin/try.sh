#!/bin/bash
# [TOOLS="ENV=tool ..."] [LIMIT=s] try.sh driver [flavour] [options]: build one driver and run it, print a summary
export ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2048
cd "$(dirname "$0")/.."; d=$1; f=${2:-asan}; shift 2
for t in $TOOLS; do export ${t%%=*}=$(python3 -c "import sys;sys.path.insert(0,'bin');import build;print(build.tool('${t##*=}','$f'))"); done
E=$(python3 bin/build.py $d $f) || { echo "$E"; exit 9; }; O=$(mktemp -d /dev/shm/try.XXXX); time timeout $((${LIMIT:-120}+60)) "$E" --deadline ${LIMIT:-120} --out $O "$@"; python3 - $O/result.json <<'P'
import json,sys
r=json.load(open(sys.argv[1])); v=r.pop('violation'); s=r.pop('samples'); print(json.dumps(r))
for x in s[-6:]: print('  ',x[:250])
if v['key']: print('KEY',v['key']); print(v['message'][:3500])
P
cp $O/violation* /tmp/ 2>/dev/null; rm -rf "$O"
