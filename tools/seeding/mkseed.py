#!/usr/bin/env python3
# usage: mkseed.py [ids...]   builds /verif/seeded/<id> from seeds.py after confirming each in a scratch copy
import subprocess,os,sys,json,shutil
sys.path.insert(0,'/tmp/seed')
import importlib, seeds
ENV=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=readonly",GOWORK="off")
W="/tmp/seed/repo"
def sh(c,cwd=W,**k): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 when the property holds for the inputs in main.go, nonzero otherwise
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'find "$tmp" -delete' EXIT
echo "{\\"Replace\\": {\\"$repo/cmd/zzdemo/main.go\\": \\"$here/main.go\\"}}" > "$tmp/overlay.json"
%s
go build %s -overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 2
timeout 120 "$tmp/demo" "$tmp"
'''
HEAD='''package main

import (
%s
)

var bad = false

func must(ok bool, what string, args ...interface{}) {
	if !ok {
		bad = true
		fmt.Printf("FAILED: "+what+"\\n", args...)
	}
}

func main() {
	body()
	if bad {
		os.Exit(1)
	}
}
'''
def gosrc(body):
    imps={"fmt","os"}
    M={"parser.":"github.com/sfomuseum/go-edtf/parser","cmp.":"github.com/sfomuseum/go-edtf/cmp","unix.":"github.com/sfomuseum/go-edtf/unix","edtf.":"github.com/sfomuseum/go-edtf","level0.":"github.com/sfomuseum/go-edtf/level0","level1.":"github.com/sfomuseum/go-edtf/level1","level2.":"github.com/sfomuseum/go-edtf/level2","common.":"github.com/sfomuseum/go-edtf/common","calendar.":"github.com/sfomuseum/go-edtf/calendar","json.":"encoding/json","time.":"time","strings.":"strings","sync.":"sync","exec.":"os/exec","strconv.":"strconv","bytes.":"bytes"}
    import re
    for k,v in M.items():
        if re.search(r'(?<![\w.])'+re.escape(k),body): imps.add(v)
    return HEAD%"\n".join('\t"%s"'%i for i in sorted(imps))+"\n"+body
base=json.load(open('/opt/vp/BASELINE.json'))
def reset():
    sh("git checkout -q -- . && git clean -fdq")
ids=sys.argv[1:] or [s["id"] for s in seeds.S]
if os.path.isdir(W): shutil.rmtree(W)
subprocess.run(["cp","-a","/repo",W],check=True); reset()
ok=[];ko=[]
for s in seeds.S:
    if s["id"] not in ids: continue
    d="/tmp/seed/out/"+s["id"]; os.makedirs(d,exist_ok=True)
    for f in os.listdir(d): os.unlink(d+"/"+f)
    open(d+"/main.go","w").write(gosrc(s["demo"]))
    open(d+"/demo.sh","w").write(DEMO%(s.get("pre",":"),s.get("flags","")))
    os.chmod(d+"/demo.sh",0o755)
    sh("gofmt -w main.go",cwd=d)
    json.dump({"property":s["property"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    reset(); bad=None
    r=sh(f"bash {d}/demo.sh")
    if r.returncode!=0: bad="demo fails unchanged: "+r.stdout+r.stderr
    if not bad:
        for f,old,new in s["edits"]:
            t=open(W+"/"+f).read()
            n=t.count(old)
            if n!=1: bad=f"{f}: {n} matches of {old!r}";break
            open(W+"/"+f,"w").write(t.replace(old,new))
    if not bad:
        sh("gofmt -l -w "+" ".join({e[0] for e in s["edits"]}))
        p=sh("git diff").stdout; open(d+"/patch.diff","w").write(p)
        # blame of removed lines
        rem=0;nonorig=0;cur=None;ln=0
        for L in p.splitlines():
            if L.startswith("--- "): cur=L[6:]
            elif L.startswith("@@"): ln=int(L.split()[1][1:].split(",")[0])
            elif L.startswith("-"):
                b=sh(f"git blame -s -L{ln},{ln} HEAD -- {cur}").stdout
                rem+=1
                if not b.startswith("^"): nonorig+=1
                ln+=1
            elif L.startswith("+"): pass
            elif cur: ln+=1
        if rem==0: print("  note",s["id"],"only adds lines")
        if nonorig: print("  note",s["id"],nonorig,"of",rem,"removed lines are from fixes")
        r=sh("go build ./... && go vet ./... >/dev/null 2>&1; go build ./...")
        if r.returncode: bad="build: "+r.stderr
    if not bad:
        r=sh("go test ./... 2>&1")
        if r.returncode: bad="tests: "+r.stdout[-1500:]
    if not bad:
        r=sh(f"bash {d}/demo.sh")
        if r.returncode==0: bad="demo passes with the patch"
        elif r.returncode==2 and "FAILED" not in r.stdout and "panic" not in r.stderr and "RACE" not in r.stderr: bad="demo broken: "+r.stderr
    if bad: print("BAD",s["id"],bad); ko.append(s["id"]); continue
    t="/verif/seeded/"+s["id"]
    if os.path.isdir(t): shutil.rmtree(t)
    shutil.copytree(d,t); ok.append(s["id"])
reset(); shutil.rmtree(W)
print("ok",len(ok),"bad",ko)
