#!/bin/bash
# Runs the demonstration test beside this file inside package PKG of the tree in the current
# directory (exit 0: the property held). The tree is only read: the test comes in through an
# overlay, and the OpenTelemetry modules missing from this sandbox as stand-ins.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off GOMODCACHE=/root/go/pkg/mod
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
mkdir "$d/tmp"; export TMPDIR=$d/tmp
tar xzf "$here/stubs.tgz" -C "$d"
python3 - "$repo" "$d" "$here/demo_test.go.txt" <<'P'
import json,sys,glob,os
repo,d,t=sys.argv[1:]
r=json.load(open(d+'/stubs/replace.json'))
open(d+'/go.mod','w').write(open(repo+'/go.mod').read()+''.join('\nreplace %s => %s/stubs/%s\n'%(k,d,v) for k,v in r.items()))
open(d+'/go.sum','w').write(open(repo+'/go.sum').read()+open(d+'/stubs/go.sum').read())
pkg=os.path.join(repo,'PKG')
o={f:'' for f in glob.glob(pkg+'/*_test.go')}
o[pkg+'/zz_demo_test.go']=t
json.dump({'Replace':o},open(d+'/o.json','w'))
P
go test -overlay "$d/o.json" -modfile "$d/go.mod" -count=1 -vet=off -timeout 200s RACE -run '^TestDemo' ./PKG
