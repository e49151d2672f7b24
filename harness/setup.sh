#!/bin/bash
# type check every specification module; nothing is built elsewhere
cd "$(dirname "$0")/.." || exit 2
ok=0
ls spec/*.qnt spec/mbt/*.qnt | xargs -P 8 -I{} sh -c 'quint typecheck {} >/dev/null 2>&1 || { echo "typecheck failed: {}"; exit 1; }' || ok=1
exit $ok
