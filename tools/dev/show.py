import sys,threading
sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
def go():
    import hca.report as R, hca.terms as T, time
    c=R.Check('X','quick')
    mod,q=sys.argv[1:3]
    op=set(sys.argv[3].split(',')) if len(sys.argv)>3 and sys.argv[3] else set()
    t=time.time()
    s=c.summary(mod,q,opaque=op,effectful=set(sys.argv[4].split(',')) if len(sys.argv)>4 else set())
    print('RET',T.show(s.ret)); print('WORLD')
    for x in s.world.args: print('  ',T.show(x))
    print('notes',c.notes, time.time()-t)
threading.stack_size(512*1024*1024)
t=threading.Thread(target=go);t.start();t.join()
