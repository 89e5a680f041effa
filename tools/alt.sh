#!/bin/bash
# Development only: alt.sh REPO ARGS... runs simctl ARGS against another copy
# of the repository, in a scratch directory beside it.
set -e
R=$1; shift
S=$R.sim
mkdir -p $S
rsync -a --delete --exclude .b /verif/sim/ $S/ 2>/dev/null || { mkdir -p $S; cp -a /verif/sim/. $S/; }
sed -i "s|=> /repo|=> $R|" $S/go.mod
cd $S && go build -o $S/.b.ctl ./ctl
mkdir -p $S.out
exec $S/.b.ctl -sim $S -build $S.out "$@"
