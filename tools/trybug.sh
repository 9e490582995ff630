#!/bin/bash
# trybug.sh ID [PROPERTY...] : validates the planted bug /verif/seeded/ID in a scratch copy of /repo and runs the checks on it
D=/verif/seeded/$1; ID=$1; shift
W=/tmp/try/$ID; mkdir -p $W; R=$W/repo
cp -a /repo $R; cd $R || exit 1
git checkout -q -- .
for s in build test; do sed "s@/repo\b@$R@g; s@bash /opt/vp/build.sh@bash $W/build.sh@" /opt/vp/$s.sh > $W/$s.sh; done
build() { bash $W/build.sh >$W/b.log 2>&1 || { tail -5 $W/b.log; return 1; }; }
build; timeout 300 bash $D/demo.sh >$W/demo0.log 2>&1; echo "$ID demo clean: $?"
git apply $D/patch.diff || exit 1
for f in $(git diff --name-only); do git diff -U0 $f | grep -o '^@@ -[0-9,]*' | sed 's/@@ -//' | while IFS=, read -r s n; do n=${n:-1}; [ "$n" = 0 ] && { s=$s; n=1; }; git blame -s -L $s,+$n HEAD -- $f | grep -v '^^da2875d' && echo "NOT ORIGINAL LINE"; done; done
if build; then
bash $W/test.sh $W/o.json >/dev/null 2>&1
python3 - $W <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]+'/o.json'))['passed'])
print("tests missing:",sorted(b-o))
P
timeout 300 bash $D/demo.sh >$W/demo1.log 2>&1; echo "$ID demo with bug: $? $(tail -1 $W/demo1.log | cut -c1-200)"
for p in $(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])") "$@"; do VERIF_REPO=$R VERIF_BUILD=$W/vb timeout 900 /verif/run.sh $p >$W/c.log 2>&1; echo "$ID check $p: $? $(grep VIOLATION $W/c.log) $(tail -1 $W/c.log|cut -c1-100)"; done
fi
rm -rf $W/repo $W/vb
