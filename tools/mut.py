# usage: mut.py FILE PROPS < mutants  ; mutants separated by lines '=== name', with '---' between old and new
import sys,subprocess,os,shutil
f,props=sys.argv[1],sys.argv[2].split(',')
n=sys.argv[3] if len(sys.argv)>3 else '24000'
M=os.environ.get("MUTDIR","/tmp/mutrepo")
R=os.environ.get('MUTREPO','/repo')
subprocess.call(['rsync','-a','--delete','--exclude','.git',R+'/',M+'/'])
src=open(R+'/'+f).read()
for blk in sys.stdin.read().split('=== ')[1:]:
    name,body=blk.split('\n',1)
    s=src
    for pr in body.split('\n+++\n'):
        old,new=pr.split('\n---\n')
        new=new.rstrip('\n'); old=old.strip('\n')
        assert s.count(old)>=1,(name,old)
        s=s.replace(old,new,1)
    open(M+'/'+f,'w').write(s)
    b=subprocess.run(['go','vet','./'+os.path.dirname(f)],cwd=M,capture_output=True,text=True)
    if b.returncode: print(name,'BUILD',b.stderr[:500]); continue
    b=subprocess.run(['go','test','-timeout','40s','./...'],cwd=M,capture_output=True,text=True)
    t='tests ok' if b.returncode==0 else 'TESTS FAIL'
    out=[]
    for p in props:
        r=subprocess.run(['timeout','300','/verif/tools/alt.sh',M,'-n',n,'-nomin','check',p],capture_output=True,text=True)
        l=[x for x in r.stdout.split('\n') if x.startswith('run ')]
        out.append(p+': '+(l[0][:110] if l else r.stdout.strip().split('\n')[-1][:80]+r.stderr[-200:]))
    print('##',name,t); [print('   ',o) for o in out]; sys.stdout.flush()
