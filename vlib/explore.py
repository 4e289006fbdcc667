import sys, random, time, collections
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
from vlib import gen, oracle as O
from ground.base import get_context
import orient.planar as P
c=get_context()
def conv(kind,g,num=int):
    pt=lambda p:c.point_cls(num(p[0]),num(p[1]))
    if kind=='point': return pt(g)
    if kind=='segment': return c.segment_cls(pt(g[0]),pt(g[1]))
    if kind=='multisegment': return c.multisegment_cls([conv('segment',s) for s in g])
    if kind in('contour','region'): return c.contour_cls([pt(p) for p in g])
    if kind=='multiregion': return [conv('region',r) for r in g]
    if kind=='polygon': return c.polygon_cls(conv('region',g[0]),[conv('region',r) for r in g[1]])
    return c.multipolygon_cls([conv('polygon',p) for p in g])
PAIRS=[]
for n in dir(P):
    if '_in_' in n:
        t,g=n.split('_in_'); PAIRS.append((t,g))
def call(t,test,g,goal):
    return getattr(P,t+'_in_'+g)(conv(t,test),conv(g,goal)).name
def size(x):
    return len(repr(x))
if __name__=='__main__':
    n=int(sys.argv[1]); seed=sys.argv[2] if len(sys.argv)>2 else '0'
    only=sys.argv[4:] 
    for t,g in PAIRS:
        if only and t+'_in_'+g not in only: continue
        stat=collections.Counter(); bad=collections.defaultdict(list); dist=collections.Counter(); tg=to=tc=0
        for fam in (sys.argv[3].split(",") if len(sys.argv)>3 else gen.FAMILIES):
            for i in range(n):
                rng=random.Random(f'{seed}/{fam}/{t}/{g}/{i}')
                t0=time.time(); r=gen.generate(rng,fam,t,g); t1=time.time(); tg+=t1-t0
                if r is None: stat['none '+fam]+=1; continue
                a,b=r
                exp=O.locate(g,b,a) if t=='point' else O.relate(t,a,g,b)
                t2=time.time(); to+=t2-t1
                dist[exp]+=1
                try: got=call(t,a,g,b)
                except Exception as e: got=type(e).__name__+':'+str(e)[:40]
                tc+=time.time()-t2
                stat['n']+=1
                if got!=exp: bad[exp,got].append((size(r),fam,r))
        print(f'{t}_in_{g}', dict(stat), 'bad', sum(map(len,bad.values())), f'gen {tg:.1f} or {to:.1f} call {tc:.1f}', dict(dist),flush=True)
        for k,v in bad.items():
            v.sort(key=lambda z:z[0])
            print('    exp %s got %s'%k, len(v), v[0][1:])
