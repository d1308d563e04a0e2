#!/bin/bash
# seed.sh ID: confirms a planted bug in a scratch copy of /repo (builds, passes
# the tests, the demonstration fails with it and passes without), then with
# "check" as second argument runs the property's check with it applied.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seedXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; cd "$w/repo" || exit 1
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOTOOLCHAIN=local TZ=UTC
bash $d/demo.sh >"$w/clean.log" 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -20 "$w/clean.log"; }
git apply $d/patch.diff || { echo "does not apply"; exit 1; }
go build ./... || { echo "does not build"; exit 1; }
go test -json -vet=off -count=1 ./... > "$w/go.json" 2>/dev/null
python3 /opt/vp/results.py "$w/o.json" "gojson:$w/go.json" >/dev/null
python3 - "$w/o.json" <<'P'
import json,sys
p=set(json.load(open(sys.argv[1]))['passed'])
m=[x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p]
print('tests: pass' if not m else 'TESTS FAIL %d %s'%(len(m),m[:3]))
P
bash $d/demo.sh >"$w/bug.log" 2>&1 && echo "demo with bug: PASSES (bad)" || { echo "demo with bug: fails (good)"; grep -m3 -- "---\|demo_test\|panic" "$w/bug.log"; }
if [ "${2:-}" = check ]; then
	p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply $d/patch.diff
	(cd /verif && time timeout 900 bash run.sh $p quick 2>&1 | tail -4; echo "exit ${PIPESTATUS[0]}")
	git -C /repo checkout -- .
fi
