#!/bin/bash
# ws.sh DIR: a view of /repo in which the ALP library (not available here) is replaced by a stand-in
here="$(cd "$(dirname "$0")" && pwd)"; d="$1"
mkdir -p "$d"
for c in ebi experimenter tools cuda-binding; do ln -sfn /repo/$c "$d/$c"; done
ln -sfn "$here/alp-stub" "$d/alp-binding"
cmp -s "$here/Cargo.toml.ws" "$d/Cargo.toml" || cp "$here/Cargo.toml.ws" "$d/Cargo.toml"
