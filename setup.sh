#!/bin/bash
# Checks build everything they need from the committed files and /repo; this only tries it once.
cd "$(dirname "$0")" || exit 1
[ -r /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
s=$(mktemp -d) || exit 1
trap 'rm -rf -- "${s:?}"' EXIT
(cd simgen && go vet . && go build -o "$s/simgen" .) && python3 -c 'import json; json.load(open("MANIFEST.json")); [json.loads(l) for l in open("properties.jsonl")]' && echo ok
