import json,subprocess,os,sys,time,collections
ms=[json.loads(l) for l in open('muts.jsonl')]
surv=json.load(open(sys.argv[1])) ; out=sys.argv[2]
ALL=[f'P{i:02d}' for i in range(1,23)]
base={
'file_reader.go':['P06','P09','P08','P21','P01'],
'file_writer.go':['P07','P10','P01','P21','P19'],
'flatbuffers.go':['P07','P01','P10'],
'prop_reader.go':['P12','P13','P08'],
'prop_writer.go':['P12','P10','P20'],
'spec.go':['P21','P08','P09'],
'stateful.go':['P06','P07','P08','P10'],
'stringers.go':['P22','P11'],
'errors.go':['P08','P10','P13'],
'box.go':['P16','P02','P04'],
'hilbert.go':['P14'],
'packedrtree.go':['P15','P04','P02','P03','P08','P16'],
'native_bigendian.go':['P20'],
}
cost=['P22','P16','P19','P15','P12','P13','P10','P04','P21','P17','P02','P03','P14','P07','P06','P09','P01','P08','P05','P20','P11']
R='/tmp/mm/repo';V='/tmp/mm/verif'
kills=collections.defaultdict(collections.Counter)
done=set()
if os.path.exists(out):
    for l in open(out): done.add(json.loads(l)['k'])
for k in surv:
    if k in done: continue
    m=ms[k]; f=m['File']; g=f.replace('/tmp/mm/orig/',R+'/',1)
    src=open(f,'rb').read()
    open(g,'wb').write(src[:m['Off']]+m['New'].encode()+src[m['End']:])
    key=(f,m['Func'])
    order=[p for p,_ in kills[key].most_common()]
    for p in base.get(os.path.basename(f),[]):
        if p not in order: order.append(p)
    if 'bigendian' in f: order=['P20']
    t=time.time(); killer=None; msg=''
    tmp='/tmp/mm/t'; subprocess.run(['rm','-rf',tmp]); os.makedirs(tmp)
    b=subprocess.run(['go','build','-o','/tmp/mm/mcbin','.'],cwd=V+'/mc',capture_output=True,text=True)
    if b.returncode: killer='BUILD'; msg=b.stderr[-300:]
    else:
        for p in order:
            try:
                r=subprocess.run(['/tmp/mm/mcbin','-prop',p,'-tier','quick','-verif',V,'-repo',R,'-tmp',tmp],capture_output=True,text=True,timeout=240)
                rc=r.returncode; o=r.stdout+r.stderr
            except subprocess.TimeoutExpired: rc='timeout'; o=''
            if rc!=0:
                killer=p+('' if rc==1 else f'(rc={rc})'); msg=o[-300:]
                if rc==1: kills[key][p]+=1
                break
    open(g,'wb').write(src)
    with open(out,'a') as h: h.write(json.dumps(dict(k=k,file=os.path.basename(f),line=m['Line'],func=m['Func'],desc=m['Desc'],killer=killer,sec=round(time.time()-t),msg='' if killer and '(' not in killer and killer!='BUILD' else msg))+'\n')
