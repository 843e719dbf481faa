#!/bin/bash
# Type checks the specification; checks build their own executors.
cd "$(dirname "$0")/.." || exit 2
. tools/env.sh
for f in spec/*.qnt; do
  quint typecheck "$f" > /dev/null || { echo "typecheck failed: $f"; exit 1; }
done
[ -x "$(command -v cargo)" ] && [ -x "$CLANG" ] || exit 1
