#!/bin/bash
# run.sh PROPERTY: builds the simulated system from /repo's working tree and runs the
# seeded search for one property. VERIF_SEED and VERIF_TIER choose seed and depth.
here=$(cd "$(dirname "$0")" && pwd)
p=$1
if ! log=$(bash "$here/build.sh" 2>&1); then
	echo "ERROR: the simulated system does not build:"
	echo "$log" | tail -30
	exit 2
fi
exec "$here/.build/dst" -prop "$p" -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" -verif "$here"
