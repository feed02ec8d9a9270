import random, math
from geombase import *
def simple(r):
    n=len(r)-1
    if n<3 or len(set(r[:-1]))!=n: return False
    S=segs_line(r)
    for i in range(n):
        a,b=S[i]
        if a==b: return False
        for j in range(i+1,n):
            c,d=S[j]
            ps=params(S[i],S[j])
            if j==i+1 or (i==0 and j==n-1):
                # share only one endpoint
                sh = b if j==i+1 else a
                if len(ps)!=1: return False
            elif ps: return False
    return area2(r)!=0
def convex_ring(rng,N,k):
    pts=list({(rng.randint(0,N),rng.randint(0,N)) for _ in range(k)})
    pts.sort()
    def half(ps):
        h=[]
        for p in ps:
            while len(h)>1 and cross(h[-1][0]-h[-2][0],h[-1][1]-h[-2][1],p[0]-h[-1][0],p[1]-h[-1][1])<=0: h.pop()
            h.append(p)
        return h
    lo=half(pts);up=half(pts[::-1])
    r=lo[:-1]+up[:-1]
    if len(r)<3: return None
    return r+[r[0]]
def star_ring(rng,N,k):
    cx,cy=rng.uniform(1,N-1),rng.uniform(1,N-1)
    pts=list({(rng.randint(0,N),rng.randint(0,N)) for _ in range(k)})
    pts.sort(key=lambda p: math.atan2(p[1]-cy,p[0]-cx))
    if len(pts)<3: return None
    r=pts+[pts[0]]
    return r if simple(r) else None
def opt2(rng,N,k):
    pts=list({(rng.randint(0,N),rng.randint(0,N)) for _ in range(k)})
    if len(pts)<3: return None
    rng.shuffle(pts)
    for _ in range(200):
        n=len(pts); ch=False
        for i in range(n):
            for j in range(i+2,n):
                if i==0 and j==n-1: continue
                if params((pts[i],pts[(i+1)%n]),(pts[j],pts[(j+1)%n])):
                    pts[i+1:j+1]=pts[i+1:j+1][::-1]; ch=True
        if not ch: break
    r=pts+[pts[0]]
    return r if simple(r) else None
def cells_poly(rng,W,H,k,sc,ox,oy):
    # union of unit cells, 4-connected; returns poly w/ holes if valid (no corner-touch)
    c={(rng.randrange(W),rng.randrange(H))}
    while len(c)<k:
        x,y=rng.choice(sorted(c)); dx,dy=rng.choice([(1,0),(-1,0),(0,1),(0,-1)])
        if 0<=x+dx<W and 0<=y+dy<H: c.add((x+dx,y+dy))
    nxt={}
    for x,y in c:
        for (a,b,dx,dy) in (((x,y),(x+1,y),0,-1),((x+1,y),(x+1,y+1),1,0),((x+1,y+1),(x,y+1),0,1),((x,y+1),(x,y),-1,0)):
            if (x+dx,y+dy) not in c:
                if a in nxt: return None
                nxt[a]=b
    rings=[]
    while nxt:
        s=min(nxt); r=[s]; p=nxt.pop(s)
        while p!=s: r.append(p); p=nxt.pop(p)
        r.append(s)
        # merge collinear w/ prob
        if rng.random()<.7:
            q=[]
            n=len(r)-1
            for i in range(n):
                a,b,d=r[i-1 if i else n-1],r[i],r[i+1]
                if cross(b[0]-a[0],b[1]-a[1],d[0]-b[0],d[1]-b[1])!=0: q.append(b)
            r=q+[q[0]]
        rings.append(r)
    rings.sort(key=lambda r:-abs(area2(r)))
    return [[(x*sc+ox,y*sc+oy) for x,y in r] for r in rings]
def rot(rng,r):
    r=r[:-1]; k=rng.randrange(len(r)); r=r[k:]+r[:k]
    if rng.random()<.5: r=r[::-1]
    return r+[r[0]]
def ring_in(rng,N):
    while 1:
        f=rng.choice([convex_ring,star_ring,opt2])
        r=f(rng,N,rng.randint(3,9))
        if r: return r
def valid_hole(ext,h,others):
    # h's witness all inside or at most finite touching on ext boundary; conservative: at most one touch point
    A=dict(points=[],lines=[],polys=[[ext]]);H=dict(points=[],lines=[],polys=[[h]])
    M=relate(A,H)
    if any(b!='E' and a=='E' for a,b in M): return False
    if touching(ext,h)>1: return False
    for o in others:
        O=dict(points=[],lines=[],polys=[[o]])
        M=relate(O,H)
        if ('I','I') in M: return False
        if touching(o,h)>0: return False
    return True
def touching(r1,r2):
    pts=set()
    for s in segs_line(r1):
        for t in segs_line(r2):
            ps=params(s,t)
            if len(ps)>1 and len(set(ps))>1: return 99
            for u in ps: pts.add((s[0][0]+u*(s[1][0]-s[0][0]),s[0][1]+u*(s[1][1]-s[0][1])))
    return len(pts)
def gpoly(rng,N):
    if rng.random()<.35:
        while 1:
            W=rng.randint(2,min(5,N));H=rng.randint(2,min(5,N))
            sc=rng.choice([1,2]) if max(W,H)*2<=N else 1
            p=cells_poly(rng,W,H,rng.randint(1,W*H),sc,rng.randint(0,N-W*sc),rng.randint(0,N-H*sc))
            if p: return [rot(rng,r) for r in p]
    ext=ring_in(rng,N)
    poly=[ext]
    for _ in range(rng.choice([0,0,1,3])):
        h=convex_ring(rng,N,rng.randint(3,4)) if rng.random()<.6 else ring_in(rng,N)
        if h and valid_hole(ext,h,poly[1:]): poly.append(h)
    return [rot(rng,r) for r in poly]
def gline(rng,N):
    n=rng.randint(2,6)
    l=[(rng.randint(0,N),rng.randint(0,N)) for _ in range(n)]
    q=[l[0]]
    for p in l[1:]:
        if p!=q[-1]: q.append(p)
    if len(q)<2: return gline(rng,N)
    if rng.random()<.15 and len(q)>2: q.append(q[0])
    return q
def frag_line(rng,rings,N):
    # a line built from the boundary pieces of a ring
    r=rng.choice(rings); n=len(r)-1
    i=rng.randrange(n); k=rng.randint(1,n)
    l=[r[(i+j)%n] for j in range(k+1)]
    if rng.random()<.3: l.append((rng.randint(0,N),rng.randint(0,N)))
    q=[l[0]]
    for p in l[1:]:
        if p!=q[-1]: q.append(p)
    return q if len(q)>1 else gline(rng,N)
