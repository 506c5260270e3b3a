"""Helpers for making small fix commits in /repo."""
import subprocess,os
ROOT=os.environ.get('FIXROOT','/repo')
class F:
    def __init__(s,name): s.p=ROOT+'/include/stdex/'+name
    def rd(s): return open(s.p,newline='').read()
    def rep(s,a,b,n=1):
        t=s.rd(); assert t.count(a)==n,(t.count(a),a); open(s.p,'w',newline='').write(t.replace(a,b))
def commit(m,prop=None,what=None):
    if ROOT!='/repo': return
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+m])
    h=subprocess.check_output(['git','-C','/repo','rev-parse','--short=7','HEAD'],text=True).strip()
    print(h,m)
    if prop:
        for q in prop.split(): open('/verif/known_findings.txt','a').write(f'fixed: property={q} {h} {what or m}\n')
