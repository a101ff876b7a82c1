import sys,glob,time,traceback,signal
sys.path.insert(0,'/verif/engine')
from ir import *
from extract import extract
from interp import *
files,specs=extract()
pr=Program(files)
class TO(Exception): pass
def h(*a): raise TO()
signal.signal(signal.SIGALRM,h)
only=sys.argv[1:]
for f in sorted(pr.funcs.values(), key=lambda f:(f['file'],f['l'])):
    if not f.get('body') or f['file'].startswith('bin'): continue
    q=norm(f['q'])
    if only and not any(o in q for o in only): continue
    it=Interp(pr); t=time.time()
    signal.alarm(40)
    try:
        s=it.summarize(f)
        st='ok'
    except TO: st='TIMEOUT'
    except Exception as ex:
        st='ERR '+repr(ex)[:150]
        if only: traceback.print_exc()
    signal.alarm(0)
    print('%-14s %-60s %5.2fs %s %s'%(f['file'][4:18],q[-60:],time.time()-t,st, sorted(it.notes)),flush=True)
