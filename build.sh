#!/bin/bash
# builds the condition generator into /verif/bin (ignored by git)
. /opt/vp/env.sh
cd "$(dirname "$0")/govc" || exit 2
mkdir -p ../bin
go build -o ../bin/govc.tmp . && mv ../bin/govc.tmp ../bin/govc
