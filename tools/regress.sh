#!/bin/bash
# regress.sh [IDs]: runs the quick checks one after another against VERIF_REPO
# (default /repo) and prints one line each.
cd "$(dirname "$0")/.."
export VERIF_REPO=${VERIF_REPO:-/repo} VERIF_EVIDENCE_DIR=${VERIF_EVIDENCE_DIR:-$(mktemp -d)}
ids=${*:-$(ls harness | grep -E '^[A-Z][0-9]{2}$')}
for p in $ids; do
  s=$(date +%s)
  o=$(bash check.sh check $p ${TIER:-quick} 2>&1); rc=$?
  echo "$p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep -o 'exhaustive=[a-z]*') $(echo "$o" | grep -E 'NOTE|VIOLATION' | tr '\n' ' ' | cut -c1-160)"
done
