#!/usr/bin/env python3
# Plants the bugs of bugs.py: for each, verifies in a scratch clone of
# /repo that it builds, that the tests pass and that the demonstration
# fails with it and passes without it, and writes /verif/seeded/<id>.
import sys,os,subprocess,json,shutil,tempfile
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
from bugs import BUGS
only=sys.argv[1:]
S=tempfile.mkdtemp(prefix='plant.')
BASE='9ccce64'
def sh(c,cwd=S,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
sh(f'git clone -q /repo {S}/r',cwd='/'); r=S+'/r'
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
OURS=set(sh(f'git log --format=%H {BASE}..HEAD',cwd=r).stdout.split())
ours={}
def original(f):
    if f not in ours:
        ours[f]=[l.split()[0] not in OURS for l in sh(f'git blame -s -l {f}',cwd=r).stdout.splitlines()]
    return ours[f]
for b in BUGS:
    if only and b['id'] not in only: continue
    d='/verif/seeded/'+b['id']; msg=[]
    if not only and os.path.exists(d+'/patch.diff') and open(d+'/patch.diff').read()==b.get('_',None): continue
    sh('git checkout -q -- .',cwd=r)
    okay=True
    for f,old,new in b['edits']:
        t=open(f'{r}/{f}').read()
        if t.count(old)!=1: msg.append(f'{f}: {t.count(old)} matches of {old[:40]!r}'); okay=False; continue
        open(f'{r}/{f}','w').write(t.replace(old,new))
    if not okay: print(b['id'],'BAD EDIT',msg); continue
    fm=sh('gofmt -l packedrtree flatgeobuf/*.go',cwd=r).stdout.split()
    if fm: msg.append('gofmt '+' '.join(fm))
    # Lines removed must be original.
    cur=None; n=0; removed=0
    for l in sh('git diff -U0',cwd=r).stdout.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        elif l.startswith('@@'): n=int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-') and cur and not l.startswith('---'):
            removed+=1
            if not original(cur)[n-1]: msg.append(f'not original: {cur}:{n}')
            n+=1
    if not removed: msg.append('no line removed')
    env=". /verif/env.sh; export GOFLAGS=-mod=mod; "
    if sh(env+'go build ./...',cwd=r).returncode: print(b['id'],'NO BUILD',sh(env+'go build ./...',cwd=r).stderr[:300]); continue
    t=sh(env+f'go test -json -vet=off -count=1 ./... > {S}/t.json; python3 /opt/vp/results.py {S}/o.json gojson:{S}/t.json',cwd=r)
    o=json.load(open(S+'/o.json')); miss=STABLE-set(o.get('passed',o.get('pass',[])))
    if miss: print(b['id'],'TESTS FAIL',sorted(miss)[:4]); continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    demo=open(here+'/demo.sh').read()
    if b['sh']=='386': demo=demo.replace('GOTOOLCHAIN=local go','GOTOOLCHAIN=local GOARCH=386 CGO_ENABLED=0 go')
    if b['sh']=='race': demo=demo.replace('GOTOOLCHAIN=local go build','GOTOOLCHAIN=local CGO_ENABLED=1 go build -race')
    if b['sh']=='be':
        if b['demo'].strip(): open(d+'/main.go','w').write(b['demo'].lstrip())
        else: shutil.copy(here+'/be.go',d+'/main.go')
        demo=demo.replace('cd "$t"\n','''mkdir "$t/be"
for f in "$repo"/packedrtree/*.go; do
	case $f in
	*_test.go | */native_littleendian.go) ;;
	*) sed '/^\\/\\/go:build/d;/^\\/\\/ +build/d' "$f" > "$t/be/$(basename "$f")" ;;
	esac
done
cd "$t"
''')
    else:
        shutil.copy(here+'/h.go',d+'/h.go')
        body=b['demo'].strip('\n')
        if '\n}\n' not in body: body+='\n}'
        elif not body.endswith('}'): body+='\n}'
        body='func main() {\n'+body+'\n'
        std=[p for p in ['bytes','errors','io']+b['imports'].split() if p.split('/')[-1]+'.' in body.replace('"','')]
        oth=[('github.com/gogama/flatgeobuf/flatgeobuf','flatgeobuf.'),('github.com/gogama/flatgeobuf/flatgeobuf/flat',' flat.'),('github.com/gogama/flatgeobuf/packedrtree','packedrtree.'),('flatbuffers github.com/google/flatbuffers/go','flatbuffers.')]
        imp=['\t"%s"'%p for p in sorted(set(std))]+['']
        for p,u in oth:
            import re
            if re.search(r'\b'+u.strip().replace('.',r'\.'),body):
                imp.append('\t'+(p.split()[0]+' ' if ' ' in p else '')+'"'+p.split()[-1]+'"')
        open(d+'/main.go','w').write('package main\n\nimport (\n'+'\n'.join(imp)+'\n)\n\n'+body)
        sh('gofmt -w main.go',cwd=d)
    open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
    open(d+'/patch.diff','w').write(sh('git diff',cwd=r).stdout)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    bad=sh(d+'/demo.sh',cwd=r); good=sh(d+'/demo.sh',cwd='/repo')
    if good.returncode: msg.append('DEMO FAILS ON CLEAN TREE '+(good.stdout+good.stderr)[-300:])
    if not bad.returncode: msg.append('DEMO PASSES WITH THE BUG')
    else: msg.append('demo: '+(bad.stdout+bad.stderr).strip().split('\n')[0][:90])
    print(b['id'],b['prop'],'; '.join(msg),flush=True)
    if good.returncode or not bad.returncode or any('not orig' in m for m in msg): shutil.rmtree(d)
shutil.rmtree(S)
