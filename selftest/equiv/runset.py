# Runs the sets of behaviour-preserving rewrites beside it: every check has to
# stay quiet. Usage: python3 runset.py runtime.py|generator.py|more.py [names]
# (CHK: the checker, CHECKS: checks to run, P: at a time, W: width)
import subprocess,sys,os,shutil,concurrent.futures as cf
exec(open(sys.argv[1]).read())
def one(n):
    d='/tmp/equiv-'+n
    shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d])
    for f,o,w in E[n]:
        s=open(d+'/'+f).read()
        if s.count(o)!=1: return n,['EDIT %d: %r'%(s.count(o),o[:60])]
        open(d+'/'+f,'w').write(s.replace(o,w))
    if any(f=='xdr.y' for f,_,_ in E[n]): subprocess.run(['/opt/vp/gobin/goyacc','-o','xdr.go','-p','xdr','xdr.y'],cwd=d,capture_output=True)
    r=subprocess.run(['go','vet','.','./xdr','./rfc1057','./rfc1813'],cwd=d,capture_output=True,text=True)
    if r.returncode: return n,['BUILD '+r.stderr[:600]]
    res=[]
    for c in (os.environ.get('CHECKS') or CHK[E[n][0][0]]).split():
        r=subprocess.run(['timeout','300',os.environ.get('CHK','/tmp/chk'),'-id',c,'-repo',d,'-verif','/verif'],env=dict(os.environ,VERIF_DEBUG='1'),capture_output=True,text=True)
        if r.returncode:
            res.append(c+' rc=%d '%r.returncode+'\n   '.join(l[:int(os.environ.get('W','260'))] for l in r.stdout.split('\n') if 'KNOWN' not in l and 'VIOL' not in l)[:900])
    shutil.rmtree(d)
    return n,res
names=sys.argv[2:] or list(E)
with cf.ThreadPoolExecutor(int(os.environ.get('P','3'))) as ex:
    for n,r in ex.map(one,names):
        print(n,'quiet' if not r else 'ALARM',flush=True)
        for x in r: print('  ',x,flush=True)
