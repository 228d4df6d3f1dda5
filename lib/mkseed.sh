#!/bin/bash
# developer tool: mkseed.sh ID PROPERTY "needs" "what it breaks"   -- takes /repo's uncommitted diff as the planted bug
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff; git -C /repo checkout -- .
test -s $d/patch.diff
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
cat > $d/demo.sh <<'D'
#!/bin/bash
# exit 0: property holds, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
I=""; for i in core disruptor serialiser majordomo zmq client services; do I="$I -Isrc/$i/include"; done
g++-14 -std=c++23 -O2 -g -w -I"$here" $I -I3rd_party "$here/demo.cpp" -o "$tmp/demo" -pthread || exit 3
timeout 250 "$tmp/demo"
D
