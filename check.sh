#!/bin/bash
# Usage: check.sh check <ID> [tier] | check.sh replay <file>
# Builds the engine from the committed sources if needed and runs it.
set -u
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
bash ./setup.sh >/tmp/verif-setup.$$ 2>&1 || { cat /tmp/verif-setup.$$; rm -f /tmp/verif-setup.$$; echo "engine build failed"; exit 2; }
rm -f /tmp/verif-setup.$$
exec ./bin/engine "$@"
