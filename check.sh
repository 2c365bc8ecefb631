#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator from /repo's working tree and searches.
. /verif/simsdk/env.sh
cd /verif/simsdk || exit 2
mkdir -p /verif/target
# block sealing and the node's own RPC are compiled for their own properties only
with=
[ "$1" = C23 ] && with="--features sealing"
[ "$1" = C24 ] && with="--features noderpc"
p=$1
build() { cargo build --offline -q -p frqsim $with 2>/verif/target/build-$p.log; }
if ! build && { [ "$p" != C24 ] || { with= ; ! build; }; }; then
	tail -n 40 /verif/target/build-$p.log >&2
	echo "the simulator does not build from this tree" >&2
	exit 2
fi
exec /verif/target/debug/frqsim check "$p" "$2"
