#!/bin/bash
# usage: buildh.sh OUTDIR   builds the driver binary OUTDIR/drive from /repo's working tree
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
O=$1
. /opt/vp/env.sh
export GEV_REPO=${GEV_REPO:-/repo}
W=$O/work
rm -rf "$W"; mkdir -p "$W"
python3 "$V/tools/gendeps.py" "$W/deps"
cp -r "$V/harness" "$W/h"
cd "$W/h"
# gev with yield points; as it is, should that not compile
instr() {
	rm -rf "$W/gev"
	(cd "$W/h/instr" && go run main.go "$GEV_REPO" "$W/gev" "$1")
	printf '\nrequire verifhook v0.0.0\n' >> "$W/gev/go.mod"
}
mode=fine
GO111MODULE=off instr fine || mode=plain
cat > go.mod <<X
module verifharness

go 1.27

require (
	github.com/Allenxuxu/gev v0.0.0
	verifhook v0.0.0
)

replace github.com/Allenxuxu/gev => $W/gev
replace verifhook => ./verifhook
replace golang.org/x/sys => $W/deps/sys
replace github.com/Allenxuxu/toolkit => $W/deps/toolkit
replace github.com/Allenxuxu/ringbuffer => $W/deps/ringbuffer
replace github.com/RussellLuo/timingwheel => $W/deps/timingwheel
X
cp "$GEV_REPO/go.sum" go.sum
if [ $mode = plain ] || ! go test -c -vet=off -o "$O/drive" . ; then
	mode=plain
	GO111MODULE=off instr plain
	go test -c -vet=off -o "$O/drive" .
fi
echo $mode > "$O/mode"
