#!/bin/bash
# run.sh ID quick|thorough     run one check against /repo's working tree
# run.sh setup               check that the harness builds, fill the build cache
# run.sh replay FILE           run one recorded violation again
set -u
. /opt/vp/env.sh
verif=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
# scratch documents and output directories live in memory where possible
scratch=$tmp
if [ -w /dev/shm ] && [ "$(df -Pm /dev/shm 2>/dev/null | awk 'NR==2{print $4}')" -gt 512 ] 2>/dev/null; then
    scratch=$(mktemp -d /dev/shm/verif.XXXXXX) || scratch=$tmp
fi
chmod 711 "$tmp" "$scratch"
trap 'rm -rf "$tmp" "$scratch"' EXIT
trap 'exit 2' INT TERM
[ -e "$repo/go.mod" ] || cp /opt/vp/gomod/go.mod /opt/vp/gomod/go.sum "$repo/"
cd "$verif/harness" || exit 2
sed "s#=> /repo#=> $repo#" go.mod > "$tmp/go.mod" && cp go.sum "$tmp/go.sum"
go build -modfile="$tmp/go.mod" -o "$tmp/h" ./cmd/h || { echo "harness does not build against $repo"; exit 2; }
id=$1
[ "$1" = replay ] && id=$(basename "$2" | cut -d- -f1)
case "$id" in
setup)
    go build -race -modfile="$tmp/go.mod" -o "$tmp/hrace" ./cmd/h || exit 2
    (cd "$repo" && go build -o "$tmp/pdfparser" .) || exit 2
    exit 0 ;;
C28) go build -race -modfile="$tmp/go.mod" -o "$tmp/hrace" ./cmd/h || exit 2 ;;
C29) (cd "$repo" && go build -o "$tmp/pdfparser" .) || exit 2 ;;
esac
export VERIF_DIR="$verif" VERIF_REPO="$repo" VERIF_BUILD="$tmp" TMPDIR="$scratch"
if [ "$1" = replay ]; then
    export MC_TMP="$scratch/replay"; mkdir -p "$MC_TMP"
    "$tmp/h" replay "$2"; exit $?
fi
"$tmp/h" check "$1" "${2:-quick}" "$verif"
exit $?
