"""Runs obligations whose title matches the arguments, with details."""
import sys, json, os
sys.path[:0]=['/verif','/verif/engine','/verif/rules']
import check, registry
from extract import extract
pat=sys.argv[1:]
obs=[(p,o) for p,l in registry.OBLIGATIONS.items() for o in l if not pat or any(x in p+' '+o.title() for x in pat)]
files,specs=extract({o.file for _,o in obs if o.kind=='eq'})
procs=int(os.environ.get('J','8'))
if len(obs)==1: rs=[check.obligation(obs[0][1],files,specs)]
else: rs=check.each_in_own_process([o for _,o in obs],files,specs,procs)
for (p,o),r in zip(obs,rs):
    print('%s %-70s %s %.1fs  cmp %d find %d unk %d %s'%(p,o.title()[:110],r['status'].upper(),r['seconds'],len(r['compared']),len(r['findings']),len(r['unknown']),r['detail'][:(600 if pat else 150)]))
    if pat:
        for f in r['findings'][:5]:
            print('   FIND',f['where'][:500]); print('      got ',f.get('program','')[:400]); print('      want',f.get('specification','')[:400]); print('      when','\n           '.join(f.get('when',[])))
    for u in r['unknown'][:4]: print('   UNK',u[:300])
    if pat: print('   notes',r['notes'])
