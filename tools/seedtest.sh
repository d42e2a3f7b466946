#!/bin/bash
# seedtest.sh ID...: for each planted change: apply it in a scratch copy of
# /repo, build, run the stable tests and the demo (with and without), and run the property's
# check against the copy.
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	d=$here/seeded/$id
	prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
	w=$(mktemp -d /tmp/seed.XXXXXX)
	cp -a /repo "$w/repo"
	( cd $w/repo && bash $d/demo.sh >$w/clean.log 2>&1 ); clean=$?
	git -C $w/repo apply $d/patch.diff || { echo "$id: does not apply"; rm -rf "$w"; continue; }
	( cd $w/repo && bash $d/demo.sh >$w/bug.log 2>&1 ); bug=$?
	. $here/tools/env.sh
	export GOPATH=$w/gp:$w/repo/lib/go
	mkdir -p $w/gp/src/simple; cp $w/repo/tests/generation/golden/gen-go/simple/*.go $w/gp/src/simple/ 2>/dev/null
	cp $w/repo/tests/generation/simple_test.go $w/gp/src/simple/ 2>/dev/null
	go build thrift/... simple >$w/build.log 2>&1; build=$?
	go test -json -vet=off -count=1 -timeout 5m thrift/... simple >$w/test.json 2>&1
	miss=$(python3 - $w/test.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test'])
print([t for t in b if not any(t.endswith(x) for x in ok)])
P
)
	s=$(date +%s)
	VP_REPO=$w/repo $here/check.sh $prop ${TIER:-quick} >$w/check.log 2>&1; c=$?
	echo "$id prop=$prop demo clean=$clean bug=$bug build=$build missing=$miss check=$c $(($(date +%s)-s))s $(grep -m1 '^VIOLATION' $w/check.log)"
	[ $bug = 0 ] && tail -3 $w/bug.log
	[ $clean != 0 ] && tail -5 $w/clean.log
	[ -n "${VERB:-}" ] && { tail -3 $w/bug.log; tail -12 $w/check.log; }
	rm -rf "$w"
done
