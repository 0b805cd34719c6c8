"""variant.py <group:name substring>: write that self-test variant to /tmp/sc/src."""
import sys, os, shutil, importlib.util
H=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","..","selftest")
shutil.rmtree("/tmp/sc/src",ignore_errors=True); shutil.copytree("/repo/src","/tmp/sc/src")
for fn in sorted(os.listdir(H)):
    if fn.startswith("cases_"):
        sp=importlib.util.spec_from_file_location(fn[:-3],os.path.join(H,fn)); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for c in m.CASES:
            if fn[6:-3]+":"+c[0]==sys.argv[1]:
                for f,o,n in c[3]:
                    p="/tmp/sc/src/"+f; s=open(p).read(); s=s+n if o is None else s.replace(o,n); open(p,"w").write(s)
                print("ok",c[0])
