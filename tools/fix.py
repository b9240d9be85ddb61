"""helper: fix(path, old, new) and commit in /repo"""
import subprocess
C='/repo/src/korin/core/'
def sub(p,a,b,n=1):
    p=C+p; s=open(p).read(); assert s.count(a)==n,(s.count(a),a); open(p,'w').write(s.replace(a,b))
def commit(msg):
    subprocess.check_call(['git','-C','/repo','commit','-qam',msg]); print(subprocess.check_output(['git','-C','/repo','log','--oneline','-1'],text=True).strip())
