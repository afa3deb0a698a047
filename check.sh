#!/bin/bash
# check.sh ID [thorough]: builds what the check of property ID needs and runs it.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR" || exit 2
id=$1
[ "$2" = thorough ] && export VERIF_TIER=thorough
bin=mc
case $id in
  C12) bin=mcfront ;;
  C21) bin=mcspan ;;
  C22|C23) bin=mcbench ;;
  C14|C15|C24) bin=mccli; more=bins ;;
esac
./build.sh refmodel $bin $more || { echo "$id: the harness does not build"; exit 2; }
exec "$CARGO_TARGET_DIR/release/$bin" "$id"
