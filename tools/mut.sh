#!/bin/bash
# mut.sh PROP FILE SED-EXPR : run the proof of PROP on a scratch copy with one edit
D=$(mktemp -d /tmp/mut.XXXXXX); cp -a /repo/. $D/
sed -i -E "$3" $D/$2; diff -q /repo/$2 $D/$2 >/dev/null && echo "NO CHANGE"
(cd $D && diff /repo/$2 $2 | grep '^[<>]' | head -4; go build ./... || echo NOBUILD)
timeout 600 /verif/govc/govc -repo $D ${4:+-func "$4"} $1 | grep -v '^--'
rm -rf "$D"
