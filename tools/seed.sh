#!/bin/bash
# seed.sh ID...: confirms a planted bug in scratch copies (applies, builds, stable tests pass, demo 0/nonzero) and runs the
# checks named in CHECKS (default: the one of its meta.json) against the patched copy.
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
here="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
	d="$here/seeded/$id"
	sc="$(mktemp -d /tmp/seed.XXXXXX)"
	cp -a /repo "$sc/repo"
	cp -a "$d" "$sc/demo"; rm -f "$sc"/demo/*.diff "$sc"/demo/meta.json
	(cd "$sc/repo" && git checkout -q -- . && bash "$sc/demo/demo.sh" >"$sc/clean.log" 2>&1) && c=ok || { c=BAD; tail -5 "$sc/clean.log"; }
	if ! (cd "$sc/repo" && git apply "$d/patch.diff"); then echo "$id: patch does not apply"; rm -rf -- "$sc"; continue; fi
	b=ok; (cd "$sc/repo" && go build ./... ) || b=BAD
	(cd "$sc/repo" && go test -json -vet=off -count=1 -timeout 10m ./... >"$sc/t.json" 2>/dev/null)
	python3 /opt/vp/results.py "$sc/o.json" "gojson:$sc/t.json" >/dev/null 2>&1
	miss=$(python3 - "$sc/o.json" <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[1]))
p=set(o.get('passed') or o.get('pass') or [])
m=sorted(b-p); print(len(m), *m[:3])
P
)
	(cd "$sc/repo" && timeout 300 bash "$sc/demo/demo.sh" >"$sc/bug.log" 2>&1) && p=NOTSHOWN || p=ok
	[ -n "$VERBOSE" ] && tail -5 "$sc/bug.log"
	prop=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
	res=""
	for k in ${CHECKS:-$prop}; do
		out=$(VERIF_REPO="$sc/repo" VERIF_EVIDENCE="$sc/ev" "$here/run.sh" "$k" 2>&1); rc=$?
		res="$res $k=$rc"
		[ $rc = 1 ] && [ -n "$VERBOSE" ] && echo "$out" | head -3
	done
	echo "$id [$prop]: clean=$c build=$b missing=$miss demo=$p checks:$res"
	rm -rf -- "$sc"
done
