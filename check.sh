#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds from /repo and runs one check.
. "$(dirname "$0")/lib.sh"
ID=$1
TIER=${2:-quick}
SEED=${VERIF_SEED:-1}
export VMON_EVIDENCE=$VERIF/evidence VMON_KNOWN=$VERIF/known_findings.json
mkdir -p "$VMON_EVIDENCE"
cd "$VERIF" || exit 2
case $ID in C17|C22) build_kern || exit 2 ;; *) build_main || exit 2 ;; esac
case $ID in
  C05)
    build_asan || exit 2
    printf '#!/bin/bash\nexec valgrind -q --vex-guest-max-insns=20 --error-exitcode=88 --exit-on-first-error=yes --fair-sched=yes "%s" "$@"\n' "$VMON" > "$VERIF/target/vmon-valgrind"
    chmod +x "$VERIF/target/vmon-valgrind"
    export VMON_VALGRIND=$VERIF/target/vmon-valgrind ;;
  C06) build_tsan || exit 2 ;;
  C15|C21) build_cli || exit 2 ;;
esac
exec "$VMON" run "$ID" --tier "$TIER" --seed "$SEED"
