# development helper: scripted minimal edits to /repo, one commit each
import subprocess
def sub(p,a,b,n=1):
    p='/repo/code/'+p; s=open(p).read(); assert s.count(a)>=1,(p,a); s=s.replace(a,b) if n==0 else s.replace(a,b,n); open(p,'w').write(s)
def commit(m): subprocess.check_call(['git','-C','/repo','commit','-qam',m])
