import sys,time; sys.path.insert(0,'/verif')
from sa import schema, gen, model, expect
import importlib
lang=sys.argv[1]; names=sys.argv[2].split(','); only=sys.argv[3] if len(sys.argv)>3 else None
mod=importlib.import_module('sa.lang_'+dict(csharp='cs',typescript='ts',assemblyscript='ts').get(lang,lang))
ALL={v.name:v for v in vars(schema).values() if isinstance(v,schema.Schema)}
for nm in names:
    if nm.startswith('sz_'): _,a,b=nm.split('_'); S=schema.sized(a,b)
    else: S=ALL[nm]
    model.reset_syms()
    j=gen.run([gen.Job(S.toml(),lang)])[0]
    if not j.out: print(j.err); continue
    m=mod.build(j.out,S) if lang not in('assemblyscript',) else mod.build(j.out,S,True)
    rep=model.Report(lang,S)
    for T in S.messages:
        if only and T!=only: continue
        t=time.time()
        for f,a in ((model.check_reader,()),(model.check_writer,(False,)),(model.check_writer,(True,)),(model.check_size,()),(model.check_default,())):
            try: f(m,rep,T,*a)
            except (model.AnalysisError,model.Budget) as e: print('  !!',f.__name__,T,type(e).__name__,e)
        print(nm,T,'%.2f'%(time.time()-t))
    if not only or only=='-':
      for f in (model.check_decls,model.check_stream,model.check_unpack,model.check_pack,model.check_packed_size,model.check_tags):
        t=time.time()
        try: f(m,rep)
        except (model.AnalysisError,model.Budget) as e: print('  !!',f.__name__,type(e).__name__,e)
        print(f.__name__,'%.2f'%(time.time()-t))
    print(rep.stats); 
    for x in rep.f: print('  ',repr(x)[:300])
    for x in rep.broken: print('  BROKEN',x)
