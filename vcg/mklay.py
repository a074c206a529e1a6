# records the layouts of the repository's classes (labels of members), from every source set
import sys,os,json
sys.path.insert(0,'/verif'); os.chdir('/verif'); sys.setrecursionlimit(40000)
from vcg import registry, build
build.BASE=None
lib=registry.load(); env=registry.Env('/tmp/laybc')
orig=registry.Env.module
out={}
def module(self,tag,which):
    r=orig(self,tag,which)
    for cls,(size,fields) in r[1].rec.items():
        if cls.startswith(('scl::','tp::')): 
            f=[(t,n) for _,t,n in fields]
            if len(f)>len(out.get(cls,[])): out[cls]=f
    return r
registry.Env.module=module
registry.run_contracts=lambda env,w,cs,*a,**k: [env.module(*c.src) for c in cs if hasattr(c,'src')] or (w() if callable(w) else 0)
import vcg.contracts.lib as L
for m in list(sys.modules.values()):
    if getattr(m,'run_contracts',None): m.run_contracts=registry.run_contracts
for g in lib.GROUPS:
    try: lib.run_group(g)(env,{'obligations':[],'backends':{},'solver_s':0},lambda:None,'x')
    except Exception as e: print(g,repr(e)[:100])
json.dump({k:out[k] for k in sorted(out)},open('/verif/vcg/layouts.json','w'),indent=0)
print(len(out))
