#!/bin/bash
# check.sh PROPERTY quick|thorough            decide a property on /repo's working tree
# check.sh PROPERTY replay FILE [RUNS]        re-execute a saved case
. /opt/vp/env.sh
export GOFLAGS=-mod=readonly
cd "$(dirname "$0")" || exit 2
V=$PWD
id=$1; tier=${2:-quick}
low=$(echo "$id" | tr A-Z a-z)
bdir=$(mktemp -d /tmp/verif-build-XXXXXX) || exit 2
trap 'rm -rf "$bdir"' EXIT
if ! (cd harness && go build -o "$bdir/$low" "./cmd/$low") >"$bdir/log" 2>&1; then
	cat "$bdir/log" >&2
	echo "ERROR property=$id: build failed" >&2
	exit 2
fi
if [ "$low" = c24 ]; then # the game server, which the facet game plays against
	if ! (cd harness && go build -o "$bdir/game" github.com/aceld/zinx/zinx_app_demo/mmo_game) >"$bdir/log" 2>&1; then
		cat "$bdir/log" >&2
		echo "ERROR property=$id: build failed" >&2
		exit 2
	fi
	export VERIF_GAME=$bdir/game
fi
seed=${VERIF_SEED:-1}
if [ "$tier" = replay ]; then
	"$bdir/$low" -hx.mode=replay -hx.file="$3" -hx.n="${4:-1}"
	exit $?
fi
"$bdir/$low" -hx.mode=drive -hx.tier="$tier" -hx.seed="$seed" -hx.verif="$V" ${HX_ARGS:-}
exit $?
