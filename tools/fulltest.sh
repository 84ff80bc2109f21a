#!/bin/bash
# Runs the repository's whole test suite (also the packages the sandbox cannot build as they
# are) in a scratch copy, with the OpenTelemetry stubs and freshly generated mocks.
root="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off
d=$(mktemp -d /tmp/fulltest.XXXX); trap 'rm -rf "$d"' EXIT
cp -a ${REPO:-/repo} "$d/r"; cd "$d/r"
python3 - "$d/r/go.mod" "$root" <<'P'
import json,sys
r=json.load(open(sys.argv[2]+'/stubs/replace.json'))
open(sys.argv[1],'a').write(''.join('\nreplace %s => %s/stubs/%s\n'%(k,sys.argv[2],v) for k,v in r.items()))
P
mkdir "$d/mg"; cat > "$d/mg/go.mod" <<G
module mg
go 1.26.0
require (
	go.uber.org/mock v0.6.0
	golang.org/x/tools v0.52.0
	golang.org/x/mod v0.42.0
	golang.org/x/sync v0.24.0
)
G
cat ${REPO:-/repo}/go.sum "$root"/engine/go.sum > "$d/mg/go.sum"
printf 'package main\nimport _ "go.uber.org/mock/mockgen/model"\nfunc main(){}\n' > "$d/mg/m.go"
(cd "$d/mg" && go build -o "$d/mockgen" go.uber.org/mock/mockgen) || exit 1
grep -rn "//go:generate mockgen" --include=*.go internal | while IFS=: read -r f l x y cmd; do
  a=$(sed -n "${l}p" "$f" | sed 's/.*go:generate mockgen//')
  (cd "$(dirname "$f")" && "$d/mockgen" $a) || echo "mockgen failed for $f"
done
go test -skip 'MongoStorageIntegration|MongoConnection|RedisCache|RedisAndMongo|TLS|CorrectScore|ConnectWithRedis' ${RACE:+-race} -count=1 -timeout 300s ./... 2>&1 | grep -v "no test files"
