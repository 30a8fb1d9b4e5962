#!/bin/bash
# check.sh ID: rebuilds the harness and the server from /repo's working tree, then runs one check.
# Exit 0 held, 1 violation (VIOLATION line), anything else: no answer.
V="$(cd "$(dirname "$0")" && pwd)"
log="$(mktemp)"
if ! bash "$V/b.sh" >"$log" 2>&1; then
  echo "BUILD-FAILED"; tail -40 "$log"; rm -f "$log"; exit 3
fi
rm -f "$log"
exec env VERIF_DIR="$V" "$V/target/release/vh" check "$1"
