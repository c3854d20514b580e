#!/bin/bash
# Builds the framework from the committed files (warms the Go build cache; every check rebuilds).
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/build" "$here/evidence"
bash "$here/build.sh"
