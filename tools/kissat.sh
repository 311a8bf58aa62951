#!/bin/bash
# the SAT solver shipped with kani, in its configuration for unsatisfiable instances
for k in "${KANI_BIN:-}"/kissat /root/.kani/kani-*/bin/kissat "$(command -v kissat)"; do
  [ -x "$k" ] && exec "$k" --unsat "$@"
done
exit 127
