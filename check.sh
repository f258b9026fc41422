#!/bin/bash
# check.sh <property> [quick|thorough] [replay <case>]
# Builds the property's harness from /repo's current tree and runs it.
# exit 0: held; 1: VIOLATION line printed; 2: the check itself failed (build, engine).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id}
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
case " $(cat "$here/mc/part.ids") | $(cat "$here/mc/ex.ids") " in
  *" $id "*"|"*) h=hpart; lib=llamapun_part ;;
  *"|"*" $id "*) h=hex; lib="llamapun llamapun_examples" ;;
  *) h=hfull; lib=llamapun ;;
esac
. "$here/mc/build.sh"
build_harness "$h" $lib || { echo "ERROR: the harness of $id does not build" >&2; exit 2; }
export MC_VERIF="$here" MC_MAIN_PID=$$
exec "$here/mc/target/$h/debug/$h" "$id" "$tier" "$@"
