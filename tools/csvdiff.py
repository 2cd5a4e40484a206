import sys,json
sys.path.insert(0,'/verif/pylib')
import build,gen,run,shutil,csv,io
exe=build.ensure()+'/replay'
sd=run.scratch_dir()
cs=[gen.make('C19',sys.argv[1],i,'quick') for i in range(int(sys.argv[2]))]
n=0
for L in run.replay_all(exe,cs,sd):
    d=json.loads(L)
    for k,e in enumerate(d['ev'],1):
        if e['op']=='csvp':
            txt=bytes(e['text']).decode('latin1')
            rows=[r for r in csv.reader(io.StringIO(txt.replace('\r',''),newline=''),delimiter=chr(e['dl']))]
            got=[[bytes(f).decode('latin1') for f in r] for r in ([e['head']] if e['hdr'] else [])+e['rows']]
            if rows!=got:
                n+=1
                for a,b in zip(rows,got):
                    if a!=b:
                        for x,y in zip(a,b):
                            if x!=y: print(d['id'],k,len(a),len(b),repr(x)[:300],'|',repr(y)[:300],len(x),len(y)); break
                        else: print(d['id'],k,'len',len(a),len(b))
                        break
                else: print(d['id'],k,'rows',len(rows),len(got),repr(txt)[-40:])
                if n>25: sys.exit()
shutil.rmtree(sd)
