#!/bin/bash
# run.sh PKG TEST PROP SECONDS SEED: runs a replay harness by hand
. /opt/vp/env.sh
w=$(mktemp -d); V=$(cd "$(dirname "$0")" && pwd); p=$1; d=$p; [ "$p" = main ] && d=.
python3 - "$V" "$p" "$d" > $w/o.json <<'P'
import sys,os,json,glob
v,p,d=sys.argv[1:]
r={}
base=os.path.normpath(os.path.join(__import__('os').environ.get('REPO','/repo'),d))
for f in glob.glob(os.path.join(base,'*_test.go')): r[f]=''
for f in glob.glob(os.path.join(v,p,'*.go')): r[os.path.join(base,'zz_'+os.path.basename(f)[:-3]+'_verif_test.go')]=f
print(json.dumps({'Replace':r}))
P
cd ${REPO:-/repo} && go test -c -vet=off -overlay $w/o.json -o $w/t ./$d && cd $w && VERIF_PROP=$3 VERIF_BUDGET=${4:-5} VERIF_SEED=${5:-1} ./t -test.run "^$2\$"
rm -rf "$w"
