#!/bin/bash
# check.sh <property> <quick|thorough>: builds the check from /repo's working tree and runs it
set -u
cd "$(dirname "$0")"
id="$1"; tier="${2:-quick}"; more=""
export VP_VERIF="$PWD"
export CARGO_TARGET_DIR="${VP_TARGET:-$PWD/build}"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg vp_mc -Awarnings"
case "$id" in
  C01|C02|C03|C04) bin=lang;;
  C05|C06) bin=truth;;
  C07|C08) bin=rules;;
  C09|C10) bin=mem;;
  C11|C12) bin=decl;;
  C13|C14) bin=goals;;
  C15|C16|C17|C18) bin=procs;;
  C19|C20|C21) bin=iface; more="--bin nar20";;
  C22|C23) bin=conc;;
  C29) bin=misc; more="--bin nar20";;
  *) bin=misc;;
esac
mkdir -p evidence
if ! cargo build --offline --quiet --manifest-path mc/Cargo.toml --bin "$bin" $more 2>evidence/build.$id.log; then
  echo "the check could not be built, see evidence/build.$id.log" >&2
  tail -30 evidence/build.$id.log >&2
  exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$id" "$tier"
