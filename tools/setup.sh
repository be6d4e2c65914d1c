#!/bin/bash
# Builds the harness once so that the checks find a warm build cache.
set -e
source /opt/vp/env.sh
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
cd "$(dirname "$0")/../harness"
go build -tags=fts5 -o "$d/harness" .
rm -r "$d"
