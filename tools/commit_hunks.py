"""commit_hunks.py FILE 'regex' MSG : commit, in /repo, only the hunks of FILE whose text matches the regex."""
import subprocess,sys,re
f,rx,msg=sys.argv[1:4]
import os; REPO=os.environ.get('PML_REPO','/repo')
d=subprocess.run(['git','diff','-U2','--',f],cwd=REPO,capture_output=True,text=True).stdout
hdr,*hs=re.split(r'(?m)^(?=@@ )',d)
p=hdr+''.join(h for h in hs if re.search(rx,h))
print(len(hs),sum(1 for h in hs if re.search(rx,h)))
subprocess.run(['git','apply','--cached','--recount','--unidiff-zero'],input=p,text=True,cwd=REPO,check=True)
subprocess.run(['git','commit','-qm',msg],cwd=REPO,check=True)
