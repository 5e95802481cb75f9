#!/bin/bash
# usage: seedtest.sh ID... : confirms planted bugs in a scratch copy of /repo:
# patch applies and builds, the stable tests pass, demo passes before and fails after
SB=/tmp/seedbox
if [ ! -d $SB/repo ]; then
	mkdir -p $SB; cp -a /repo $SB/repo
	mkdir -p $SB/vp; cp -a /opt/vp/. $SB/vp/
	sed -i "s#/repo#$SB/repo#g; s#/opt/vp#$SB/vp#g" $SB/vp/*.sh
fi
git -C $SB/repo fetch -q /repo HEAD && git -C $SB/repo checkout -q -f FETCH_HEAD
bash $SB/vp/build.sh > $SB/log 2>&1 || { echo "base build fails"; tail -5 $SB/log; exit 1; }
for id in "$@"; do
	d=/verif/seeded/$id
	rm -rf $SB/demo; cp -a $d $SB/demo; rm -f $SB/demo/patch.diff $SB/demo/meta.json
	(cd $SB/repo && timeout 300 bash $SB/demo/demo.sh) > $SB/demo0.log 2>&1; a=$?
	git -C $SB/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	bash $SB/vp/build.sh > $SB/log 2>&1; b=$?
	bash $SB/vp/test.sh $SB/out.json > $SB/tlog 2>&1
	t=$(python3 - $SB/out.json <<'P'
import json,sys
d=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
st=b.get('stable') or b.get('tests') or b.get('passed') or b
st=set(st if isinstance(st,list) else st.keys())
ps=set(d.get('passed',[]))
print(len(st-ps), 'of', len(st), 'stable tests not passing', sorted(st-ps)[:3])
P
)
	(cd $SB/repo && timeout 300 bash $SB/demo/demo.sh) > $SB/demo1.log 2>&1; c=$?
	git -C $SB/repo checkout -q -- .
	echo "$id: demo before=$a build=$b tests=[$t] demo after=$c  $([ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ] && echo OK || echo BAD)"
done
bash $SB/vp/build.sh > $SB/log 2>&1
