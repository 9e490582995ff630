#!/bin/bash
# mkbug.sh ID PROPERTY NEEDS BREAKS : takes the uncommitted change in /tmp/brepo (a scratch copy of /repo) as planted bug ID
R=${BREPO:-/tmp/brepo}
D=/verif/seeded/$1; mkdir -p $D
git -C $R diff > $D/patch.diff
[ -s $D/patch.diff ] || echo "EMPTY PATCH"
python3 - "$@" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
[ -f $D/demo.sh ] || cat > $D/demo.sh <<'Y'
#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
LUA_CPATH="$PWD/build/?.so" exec lua5.2 "$D/demo.lua" "$D"
Y
git -C $R checkout -q -- .
