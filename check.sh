#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree.
. /verif/env.sh
T=${2:-${VERIF_TIER:-quick}}
mkdir -p /verif/bin /verif/evidence
B=/verif/bin/gosym
if [ ! -x $B ] || [ -n "$(find /verif/gosym -newer $B \( -name '*.go' -o -name '*.txt' -o -name go.mod \) | head -1)" ]; then
  (cd /verif/gosym && go build -o $B.$$ . && mv $B.$$ $B) || exit 2
fi
exec $B check --property "$1" --tier "$T"
