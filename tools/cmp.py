# summarise every function in two program versions and compare
import sys,os,time; sys.path.insert(0,'/verif')
sys.setrecursionlimit(100000)
import threading; threading.stack_size(512*1024*1024)
from hlsa import model, terms as t
from hlsa.summary import summarise
import multiprocessing as mp
cfg=sys.argv[1]; root=sys.argv[2]; names=sys.argv[3:]
A=model.load(cfg,'/verif/ref'); B=model.load(cfg,root)
OPQ={'qisi':['IPF<'],'QISI::solve':['IPF<'],'integerise':['QISI::'],'Integeriser::Integeriser':['QISI::']}
def work(key):
    res=[]
    def go():
        fn=A.fns[key]; g=B.fns.get(key)
        if g is None: res.append('GONE '+fn.q); return
        prims=None
        if fn.clsq and fn.clsq.split('<')[0] in ('NDArray','Index','MappedIndex','FixedIndex','TransposedIndex','Sobol'): prims=set()
        op=[]
        for k,v in OPQ.items():
            if fn.q.endswith(k): op=v
        ss=[]
        for P,f in((A,fn),(B,g)):
            opq={x.q for x in P.fns.values() if any(o in x.q for o in op)}
            ss.append(summarise(P,f,opaque=opq,prims=prims))
        a,b=ss
        tag='%s %s %.1f/%.1fs'%(fn.q,fn.loc(),a.secs,b.secs)
        if a.failed or b.failed: res.append('FAIL %s %s | %s'%(tag,a.failed,b.failed)); return
        d=[]
        if a.ret is not b.ret: d.append('ret: %s\n     vs: %s'%(t.show(a.ret,5)[:300] if a.ret is not None else None,t.show(b.ret,5)[:300] if b.ret is not None else None))
        if a.throwcond() is not b.throwcond(): d.append('throw: %s\n     vs: %s'%(t.show(a.throwcond(),5)[:300],t.show(b.throwcond(),5)[:300]))
        for k in sorted(set(a.out)|set(b.out),key=str):
            if a.out.get(k) is not b.out.get(k): d.append('out %s: %s\n     vs: %s'%(k,t.show(a.out.get(k),5)[:300] if a.out.get(k) is not None else None,t.show(b.out.get(k),5)[:300]if b.out.get(k) is not None else None))
        res.append(('DIFF ' if d else 'SAME ')+tag+' unk %d/%d'%(len(a.unknown),len(b.unknown)))
        res.extend('    '+x for x in d)
    th=threading.Thread(target=go); th.daemon=True; th.start(); th.join(150)
    if th.is_alive(): return 'TIMEOUT '+A.fns[key].q
    return '\n'.join(res)
if __name__=='__main__':
    keys=[k for k,f in A.fns.items() if 'unittest' not in f.q and 'Test' not in f.loc() and (not names or any(n in f.q for n in names))]
    t0=time.time()
    with mp.Pool(8,maxtasksperchild=4) as pool:
        for r in pool.imap_unordered(work,keys): print(r,flush=True)
    print('total',time.time()-t0)
