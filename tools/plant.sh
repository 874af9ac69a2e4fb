#!/bin/bash
# development aid.  plant.sh reset          make /tmp/wt, a scratch copy of /repo, pristine
#                   plant.sh save ID        diff /tmp/wt into seeded/ID, then confirm: builds, stable tests pass, demo fails there and passes in /repo
set -eu
W=/tmp/wt
case $1 in
reset)
	if [ ! -d $W ]; then cp -a /repo $W; rm -rf /tmp/wt/_build; for f in build test; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/wt-build.sh#" /opt/vp/$f.sh > /tmp/wt-$f.sh; done; fi
	git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD && git -C $W status --short ;;
save)
	id=$2; D=/verif/seeded/$id; mkdir -p $D
	git -C $W diff > $D/patch.diff; test -s $D/patch.diff
	git -C /repo apply --check $D/patch.diff
	bash /tmp/wt-test.sh /tmp/wt-t.json > /tmp/wt-test.log 2>&1 || true
	python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); g=set(json.load(open('/tmp/wt-t.json'))['passed'])
import sys
print('stable tests failing:', sorted(s-g)); sys.exit(bool(s-g))
P
	[ -e $D/demo.sh ] || cp /verif/tools/demo.sh $D/demo.sh
	(cd /repo && bash $D/demo.sh) || { echo "demo fails on the clean tree"; exit 1; }
	(cd $W && bash $D/demo.sh > /tmp/wt-demo.log 2>&1) && { echo "demo passes with the patch"; exit 1; } || echo "demo with patch: $(tail -2 /tmp/wt-demo.log)"
	(cd /repo && bash $D/demo.sh) && echo "SAVED $id" ;;
esac
