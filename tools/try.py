import sys,time,collections
sys.path.insert(0,'/verif/pylib')
import build,gen,run,shutil
prop=sys.argv[1]; n=int(sys.argv[2]); seed=sys.argv[3] if len(sys.argv)>3 else 'x'
exe=build.ensure()+'/replay'
sd=run.scratch_dir()
t0=time.time()
cs=[gen.make(prop,seed,i,'quick') for i in range(n)]
t1=time.time()
L=run.replay_all(exe,cs,sd)
t2=time.time()
J=run.judge(L,sd)
t3=time.time()
print(prop,'gen %.1f replay %.1f judge %.1f'%(t1-t0,t2-t1,t3-t2),'cases',J.cases,'events',J.events,'skips',J.skips,'bytes',sum(map(len,L)))
print(dict(sorted(J.ops.items())))
cnt=collections.Counter((f[0],f[3],f[4]) for f in J.fails)
ex={}
for f in J.fails: ex.setdefault((f[0],f[3],f[4]),f[1:3])
for k,v in cnt.most_common(): print(v,k,ex[k])
for e in J.errors[:3]: print('ERR',e[0],e[1],e[2])
print(len(J.errors),'errors')
shutil.rmtree(sd)
