#!/bin/bash
# check.sh <PROPERTY-ID>   (VERIF_TIER, VERIF_SEED from the environment)
bash /verif/build.sh || exit 3
exec /verif/.build/refmon check "$1"
