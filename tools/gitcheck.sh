#!/bin/bash
# gitcheck.sh [runs]: exports generated repositories of C05 and C06 and has git read every packed object of them.
# A test of the simulator's own format code; not part of any check.
cd "$(dirname "$0")/../sim" || exit 2
set -o pipefail
t=$(mktemp -d /tmp/gitcheck.XXXXXX)
bad=0 objs=0 packs=0
for p in C05 C06 C07; do
  for i in $(seq 0 "${1:-200}"); do
    mkdir "$t/g"
    ./target/debug/simcheck export $p "$i" "$t/g" >"$t/ids" || { echo "$p $i: export failed"; bad=$((bad+1)); }
    mkdir -p "$t/g/refs" "$t/g/objects/pack"
    rm -f "$t/g/objects/pack/multi-pack-index"
    [ -f "$t/g/HEAD" ] || echo "ref: refs/heads/master" >"$t/g/HEAD"
    for f in "$t"/g/objects/pack/*.pack; do
      [ -f "$f" ] || continue
      [ $(stat -c %s "$f") -lt 3000000 ] || continue
      packs=$((packs+1))
      git --git-dir="$t/g" verify-pack "$f" >"$t/log" 2>&1 || { echo "$p $i: verify-pack: $(head -1 "$t/log")"; bad=$((bad+1)); }
    done
    n=$(sort -u "$t/ids" | git --git-dir="$t/g" cat-file --batch 2>"$t/log" | python3 -c '
import hashlib, sys
f = sys.stdin.buffer
n = 0
while True:
    h = f.readline().split()
    if not h: break
    if len(h) != 3: print("missing", h[0].decode(), file=sys.stderr); continue
    d = f.read(int(h[2])); f.read(1)
    if hashlib.sha1(h[1] + b" " + h[2] + b"\0" + d).hexdigest() == h[0].decode(): n += 1
print(n)' 2>>"$t/log")
    want=$(sort -u "$t/ids" | wc -l)
    objs=$((objs+want))
    [ "$n" = "$want" ] || { echo "$p $i: $n of $want objects read: $(head -1 "$t/log")"; bad=$((bad+1)); }
    rm -rf "$t/g"
  done
done
rm -rf "$t"
echo "$packs packs, $objs objects, $bad differences"
[ $bad = 0 ]
