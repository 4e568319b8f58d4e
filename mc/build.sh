# usage: build.sh OUTDIR [race|server|log] : builds the harness for /repo's working tree into OUTDIR
set -e
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
out=$1; mode=${2:-plain}
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off GOCACHE=${GOCACHE:-/root/.cache/go-build}
repo=${VERIF_REPO:-/repo}
mkdir -p "$out"
(cd "$here/gen" && go build -o "$out/verifgen" .)
"$out/verifgen" -repo "$repo" -src "$here/src" -out "$out/ov" $([ "$mode" = log ] && echo -logmem) >"$out/gen.log"
cd "$repo"
case $mode in
  # from go1.26 on the race detector does not see what strconv writes
  race) PATH=/opt/veriftools/go1.25.14/bin:$PATH go build -race -overlay "$out/ov/overlay.json" -o "$out/harness-race" ./zzverif/harness ||
    go build -race -overlay "$out/ov/overlay.json" -o "$out/harness-race" ./zzverif/harness ;;
  server) go build -o "$out/server" . ;;
  *) go build -overlay "$out/ov/overlay.json" -o "$out/harness" ./zzverif/harness ;;
esac
