#!/bin/bash
# run.sh PROP : builds the monitors against /repo's working tree and runs those of one property.
# Exit 0 held, 1 violated (VIOLATION line), 2 no verdict.
PROP=$1
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8 TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset PGSERVICE PGPASSFILE PGPASSWORD PGSSLMODE PGOPTIONS PGDATABASE PGTZ
. "$VERIF_ROOT/lib/pg.sh"
SCRATCH=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
chmod 755 "$SCRATCH"
cleanup() { pg_stop "$SCRATCH"; [ -n "$SCRATCH" ] && rm -rf "$SCRATCH"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export VERIF_SCRATCH=$SCRATCH
cd "$VERIF_ROOT/harness" || exit 2
race=
case " C07 " in *" $PROP "*) race=-race ;; esac
(go build $race -o "$SCRATCH/check" ./cmd/check >"$SCRATCH/build.log" 2>&1; echo $? >"$SCRATCH/build.rc") &
case " $NOPG " in
*" $PROP "*) ;;
*) pg_start "$SCRATCH" || { echo "NO-VERDICT: postgres did not start" >&2; exit 2; } ;;
esac
wait
if [ "$(cat "$SCRATCH/build.rc")" != 0 ]; then
	cat "$SCRATCH/build.log" >&2
	echo "NO-VERDICT: the monitors do not build against /repo" >&2
	exit 2
fi
GORACE="halt_on_error=0 exitcode=0 log_path=$SCRATCH/race" "$SCRATCH/check" "$PROP"
rc=$?
[ $rc = 0 ] || [ $rc = 1 ] || rc=2
exit $rc
