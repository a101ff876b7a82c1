import sys,time
sys.path.insert(0,'/verif/engine')
from ir import *
from extract import extract
from interp import *
import theory
from compare import compare
def setup():
    files,specs=extract()
    pr=Program(files); 
    for n,v in pr.enums.items():
        theory.ENUMS[n]={x['v'] for x in v['vals']}
    return pr,files,specs
def run(pr,files,specs,repo,spec,specfile,stop=(),n=0,verbose=True,**kw):
    p=specs[specfile]
    if not isinstance(p,str): print(p); sys.exit(1)
    prs=Program(files+[p])
    fa=[g for g in pr.byname[repo] if g.get('body')][n]
    fb=[g for g in prs.byname[spec] if g.get('body')][0]
    t=time.time()
    ia=Interp(pr,stop=stop); sa=ia.summarize(fa)
    ib=Interp(prs,stop=stop); sb=ib.summarize(fb)
    t1=time.time()
    r=compare(sa,sb,**kw)
    print('%-50s %s  sum %.2fs cmp %.2fs  compared %d  findings %d unknown %d'%(repo[-50:],'VIOL' if r.findings else ('UNKNOWN' if r.unknown else 'holds'),t1-t,time.time()-t1,len(r.compared),len(r.findings),len(r.unknown)))
    if verbose:
        for f in r.findings[:6]:
            print('   FIND',f.where); print('      got ',f.got[:300]); print('      want',f.want[:300]); print('      when',*[x[:200] for x in f.lits],sep='\n           ')
        for u in r.unknown[:6]: print('   UNK',u[:600])
        print('   notes',sa.notes,'|',sb.notes)
    return r,sa,sb
if __name__=='__main__':
    pr,files,specs=setup()
    P='interpretation::Graph::Properties::'
    for a,b in [('CheckResponseReturned','ResponseReturned'),('CheckResponseValue','ResponseValue'),('ZeroTTL','ZeroTTL'),('AllAliases','AllAliases'),('CheckDelegationConsistency','DelegationConsistency'),('CheckLameDelegation','LameDelegation'),('DNAMESubstitutionExceedesLength','DNAMELength'),('NameServerContact','NameServerContact'),('NumberOfHops','Hops'),('NumberOfRewrites','Rewrites'),('QueryRewrite','QueryRewrite'),('RewriteBlackholing','RewriteBlackholing')]:
        if len(sys.argv)>1 and sys.argv[1] not in a: continue
        try: run(pr,files,specs,P+a,'vp::'+b,'properties')
        except Exception as e:
            import traceback; traceback.print_exc()
