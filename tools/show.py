import sys,json
sys.path.insert(0,'/verif/pylib')
import build,gen,run,shutil
prop,i,seed=sys.argv[1],int(sys.argv[2]),sys.argv[3]
l=int(sys.argv[4]) if len(sys.argv)>4 else 0
exe=build.ensure()+'/replay'
sd=run.scratch_dir()
c=gen.make(prop,seed,i,'quick')
print(c.text())
L=run.replay_all(exe,[c],sd)
d=json.loads(L[0])
for k,e in enumerate(d['ev'],1):
    if not l or k<=l: print(k,json.dumps(e)[:900])
shutil.rmtree(sd)
