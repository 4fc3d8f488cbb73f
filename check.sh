#!/bin/bash
# check.sh <property>       run the check of one property against /repo
# check.sh replay <file>    re-run a recorded failure
set -u
cd /verif/harness || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p /verif/.build
go build -o /verif/.build/vrun ./cmd/vrun || exit 2
exec /verif/.build/vrun "$@"
