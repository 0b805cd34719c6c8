import sys,threading
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import os
def go():
    import hca.report as R, hca.equiv as E, re
    old=E.Mismatch.describe
    def d(self):
        import hca.terms as T
        out=[]
        for t in (self.a,self.b):
            s=T.show(t)
            out.append(s)
        s="\nA: "+out[0]+"\nB: "+out[1]+"\nWHEN "+"\n  ".join(T.show(l) for l in self.facts.lits.values())
        print(s)
        return old(self)
    E.Mismatch.describe=d
    import importlib
    pid=sys.argv[1]
    m=importlib.import_module('checks.'+pid.lower())
    c=R.Check(pid,'quick'); m.check(c)
threading.stack_size(512*1024*1024)
t=threading.Thread(target=go);t.start();t.join()
