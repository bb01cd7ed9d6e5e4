#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
export GOVC_VERIF="$PWD"
mkdir -p evidence
if [ ! -x bin/govc ] || [ -n "$(find govc -name '*.go' -newer bin/govc 2>/dev/null | head -1)" ]; then
  bash build.sh || { echo "cannot build govc"; exit 2; }
fi
exec bin/govc check "$@"
