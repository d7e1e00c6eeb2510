"""mkseed(id, prop, edits, pkg, demo, needs, breaks): writes /verif/seeded/<id>."""
import json, os, subprocess, shutil, tempfile
def mkseed(id, prop, edits, pkg, demo, needs, breaks, rawdemo=None):
    d='/verif/seeded/'+id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w=tempfile.mkdtemp()
    subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
    for f,old,new in edits:
        p=w+'/r/'+f
        s=open(p).read()
        assert s.count(old)==1, (id,f,s.count(old),old)
        open(p,'w').write(s.replace(old,new))
        if f.endswith('.go'): subprocess.check_call(['gofmt','-w',p])
    diff=subprocess.check_output(['git','-C',w+'/r','diff'])
    open(d+'/patch.diff','wb').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),ensure_ascii=False,indent=1)
    if rawdemo:
        open(d+'/demo.sh','w').write(rawdemo)
    else:
        open(d+'/demo.sh','w').write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
''' % (pkg,pkg))
    if demo: open(d+'/demo_test.go','w').write(demo)
    os.chmod(d+'/demo.sh',0o755)
    shutil.rmtree(w)
