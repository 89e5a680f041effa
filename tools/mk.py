"""mk.py: creates seeded bugs from a python spec"""
import subprocess,os,json,sys
def bug(id,prop,edits,needs,breaks,test,pkg='.',extra=None,race=False):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout
    try:
        for f,a,b in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(a)==1,(id,f,s.count(a),a)
            open(p,'w').write(s.replace(a,b))
        diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        open(d+'/patch.diff','w').write(diff)
    finally:
        subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo_test.go.txt','w').write(test)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# Fails if the property is broken.  Runs a test of the package through an overlay.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
echo "{{\\"Replace\\": {{\\"$repo/{pkg}/zz_demo_test.go\\": \\"$tmp/demo_test.go\\"}}}}" > "$tmp/overlay.json"
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
go test -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run 'TestZZDemo$' ./{pkg}
''')
    os.chmod(d+'/demo.sh',0o755)
    print('made',id)
