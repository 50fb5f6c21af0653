#!/bin/bash
# Usage: check.sh PROPERTY [REPLAY FILE]. Reads VERIF_SEED and VERIF_TIER.
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${VERIF_TIER:-quick}
seed=${VERIF_SEED:-1}
case $prop in
  C09) kind=py ;;
  C04 | C05 | C08 | C11) kind=fine ;;
  *) kind=plain ;;
esac
bash "$here/sim/build.sh" "$kind" || exit 3
[ $# -gt 1 ] && exec "$here/sim/target/$kind/simx" replay "$2"
# property: seeds in the quick tier, seeds in the thorough tier
case $prop in
  C01) q=20000;  t=240000 ;;
  C02) q=50000; t=600000 ;;
  C03) q=32000; t=300000 ;;
  C04) q=12000; t=100000 ;;
  C05) q=12000; t=120000 ;;
  C06) q=12000; t=100000 ;;
  C07) q=120000; t=1200000 ;;
  C08) q=12000; t=100000 ;;
  C09) q=24000; t=240000 ;;
  C10) q=12000; t=120000 ;;
  C11) q=8000; t=80000 ;;
  *) echo "unknown property $prop" >&2; exit 2 ;;
esac
if [ "$tier" = thorough ]; then runs=$t; secs=780; else tier=quick; runs=$q; secs=400; fi
exec "$here/sim/target/$kind/simx" check "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --secs "$secs" \
  --workers "$(nproc)" --evidence "$here/evidence/$prop.json" --replays "$here/replays"
