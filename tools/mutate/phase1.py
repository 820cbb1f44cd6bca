import json,subprocess,os,sys,concurrent.futures as cf
ms=[json.loads(l) for l in open('muts.jsonl')]
env=dict(os.environ)
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
stable=None
def run(k):
    m=ms[k]; src=open(m['File'],'rb').read()
    new=src[:m['Off']]+m['New'].encode()+src[m['End']:]
    d=f'/tmp/mm/w/{k}'; os.makedirs(d,exist_ok=True)
    f=d+'/f.go'; open(f,'wb').write(new)
    json.dump({'Replace':{m['File']:f}},open(d+'/o.json','w'))
    try:
        r=subprocess.run(['go','test','-overlay',d+'/o.json','-vet=off','-timeout','60s','-count=1','-json','./packedrtree','./flatgeobuf'],cwd='/tmp/mm/orig',capture_output=True,text=True,timeout=200)
        out=r.stdout
    except subprocess.TimeoutExpired: out=''
    p=set()
    bf=False
    for l in out.splitlines():
        try: e=json.loads(l)
        except: continue
        if e.get('Action')=='build-fail': bf=True
        if e.get('Action')=='pass' and e.get('Test'): p.add((e['Package'],e['Test']))
    subprocess.run(['rm','-rf',d])
    if k==-1: return p
    return k,('buildfail' if bf else ''),p
if __name__=='__main__':
    os.makedirs('/tmp/mm/w',exist_ok=True)
    r=subprocess.run(['go','test','-vet=off','-count=1','-json','./packedrtree','./flatgeobuf'],cwd='/tmp/mm/orig',capture_output=True,text=True)
    stable=set()
    for l in r.stdout.splitlines():
        e=json.loads(l)
        if e.get('Action')=='pass' and e.get('Test'): stable.add((e['Package'],e['Test']))
    print(len(stable),file=sys.stderr)
    surv=[];bf=0;kill=0
    with cf.ThreadPoolExecutor(6) as ex:
        for k,b,p in ex.map(run,range(len(ms))):
            if b: bf+=1
            elif stable-p: kill+=1
            else: surv.append(k)
    json.dump(surv,open('surv1.json','w'))
    print(len(ms),'buildfail',bf,'killed',kill,'survive',len(surv))
