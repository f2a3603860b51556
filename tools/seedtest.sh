#!/bin/bash
# seedtest.sh [-n] ID...: judge planted bugs in a private mount namespace over a copy of /repo.
#   applies, builds, stable tests (skipped with -n), demo with and without the change, the property's check
if [ -z "$SEEDTEST_NS" ]; then
	SEEDTEST_NS=1 exec unshare -m "$0" "$@"
fi
notest=; [ "$1" = -n ] && { notest=1; shift; }
W=$(mktemp -d /tmp/seedtest.XXXXXX)
trap 'cd /; umount -l /repo 2>/dev/null; rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
mount --bind "$W/repo" /repo || exit 2
cd /repo || exit 2
git checkout -q -- .
for id in "$@"; do
	d=/verif/seeded/$id
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	r="$id($prop)"
	git apply $d/patch.diff || { echo "$r does not apply"; continue; }
	# ninja goes by time stamps
	bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$r does not build"; tail -30 $W/build.log; git checkout -q -- .; continue; }
	mkdir -p $W/demo; cp $d/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
	(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo.log 2>&1); r="$r demo-bad=$?"
	tail -2 $W/demo.log
	if [ -z "$notest" ]; then
		bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
		r="$r tests-lost=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/out.json'));print([t for t in b['stable'] if t not in o['passed']])")"
	fi
	(cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 lib/check.py $prop > $W/check.log 2>&1; echo "rc $?" >> $W/check.log)
	r="$r check:$(tail -1 $W/check.log) $(grep -c '^VIOLATION' $W/check.log)"
	grep '^VIOLATION' $W/check.log | head -1
	grep -A1 "violation" $W/check.log | head -4 | cut -c1-250
	git checkout -q -- .; git clean -fdq
	bash /opt/vp/build.sh > $W/build.log 2>&1
	(cd /repo; timeout 300 bash $W/demo/demo.sh > $W/demo.log 2>&1); r="$r demo-good=$?"
	[ "${r##*=}" = 0 ] || tail -5 $W/demo.log
	rm -rf $W/demo
	echo "RESULT $r"
done
