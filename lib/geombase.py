from fractions import Fraction as F
import math
def cross(ax,ay,bx,by): return ax*by-ay*bx
def on_seg(p,a,b):
    if cross(b[0]-a[0],b[1]-a[1],p[0]-a[0],p[1]-a[1])!=0: return False
    return min(a[0],b[0])<=p[0]<=max(a[0],b[0]) and min(a[1],b[1])<=p[1]<=max(a[1],b[1])
# geometry: dict(points=[...], lines=[[pts]], polys=[[ring,...]]), rings closed
def segs_line(l): return [(l[i],l[i+1]) for i in range(len(l)-1)]
def area2(r): return sum(r[i][0]*r[i+1][1]-r[i+1][0]*r[i][1] for i in range(len(r)-1))
def ring_loc(p,n,r):
    # p point, n None or offset dir
    ins=False
    for a,b in segs_line(r):
        if a!=b and on_seg(p,a,b):
            if n is None: return 'B'
            side=cross(b[0]-a[0],b[1]-a[1],n[0],n[1])  # >0: left
            ccw=area2(r)>0
            return 'I' if (side>0)==ccw else 'E'
        if (a[1]>p[1])!=(b[1]>p[1]):
            # x of crossing > p.x ?
            c=cross(b[0]-a[0],b[1]-a[1],p[0]-a[0],p[1]-a[1])
            if (c>0)==(b[1]>a[1]): ins=not ins
    return 'I' if ins else 'E'
def poly_loc(p,n,poly):
    l=ring_loc(p,n,poly[0])
    if l!='I': return l
    for h in poly[1:]:
        k=ring_loc(p,n,h)
        if k=='I': return 'E'
        if k=='B': return 'B'
    return 'I'
def loc(w,g):
    p,n=w
    best='E'
    for poly in g['polys']:
        k=poly_loc(p,n,poly)
        if k=='I': return 'I'
        if k=='B': best='B'
    if n is None:
        ends=0; on=False
        for l in g['lines']:
            for a,b in segs_line(l):
                if on_seg(p,a,b): on=True
            if len(l)>1 and l[0]!=l[-1]:
                ends+=(p==l[0])+(p==l[-1])
        if on:
            k='B' if ends%2 else 'I'
            if k=='I': return 'I'
            if best=='E': best='B'
        if p in g['points']: return 'I'
    return best
def allsegs(g):
    s=[]
    for l in g['lines']: s+=segs_line(l)
    for po in g['polys']:
        for r in po: s+=segs_line(r)
    return [x for x in s if x[0]!=x[1]]
def params(s,t):
    a,b=s;c,d=t
    d1=(b[0]-a[0],b[1]-a[1]);d2=(d[0]-c[0],d[1]-c[1])
    den=cross(*d1,*d2)
    if den!=0:
        u=F(cross(c[0]-a[0],c[1]-a[1],*d2),den); v=F(cross(c[0]-a[0],c[1]-a[1],*d1),den)
        return [u] if 0<=u<=1 and 0<=v<=1 else []
    if cross(*d1,c[0]-a[0],c[1]-a[1])!=0: return []
    L=d1[0]**2+d1[1]**2
    r=[]
    for q in (c,d):
        u=F((q[0]-a[0])*d1[0]+(q[1]-a[1])*d1[1],L)
        if 0<=u<=1: r.append(u)
    return r
def witnesses(A,B):
    S=allsegs(A)+allsegs(B)
    W=set()
    for g in (A,B):
        for p in g['points']: W.add((p,None))
        for l in g['lines']:
            for p in l: W.add((p,None))
    for s in S:
        us={F(0),F(1)}
        for t in S:
            if t is not s: us.update(params(s,t))
        for g in (A,B):
            for p in g['points']:
                if on_seg(p,*s):
                    i=0 if s[0][0]!=s[1][0] else 1
                    us.add(F(p[i]-s[0][i],s[1][i]-s[0][i]))
        us=sorted(us)
        (ax,ay),(bx,by)=s
        pt=lambda u:(ax+u*(bx-ax),ay+u*(by-ay))
        for u in us: W.add((pt(u),None))
        for u,v in zip(us,us[1:]):
            m=pt((u+v)/2); W.add((m,None)); W.add((m,(-(by-ay),bx-ax))); W.add((m,(by-ay,-(bx-ax))))
    return W
def relate(A,B):
    M=set()
    for w in witnesses(A,B):
        M.add((loc(w,A),loc(w,B)))
    return M
def empty(g): return not(g['points'] or g['lines'] or g['polys'])
def preds(A,B):
    M=relate(A,B)
    inter=any(a!='E' and b!='E' for a,b in M)
    ii=('I','I') in M
    covA=not any(b!='E' and a=='E' for a,b in M) and not empty(B) and not empty(A)
    covB=not any(a!='E' and b=='E' for a,b in M) and not empty(B) and not empty(A)
    return dict(equals=covA and covB,intersects=inter,disjoint=not inter,contains=covA and ii,within=covB and ii,covers=covA,coveredby=covB,touches=inter and not ii)

def xfexp(rng):
    "a power of two to scale by: everyday, or far away but so that no product of differences overflows or vanishes"
    return rng.randint(-6,12) if rng.random()<.6 else rng.randint(-450,450)

def xft(rng):
    """a scale and a translation: everyday, or so far away that whole positions are all that doubles have there"""
    def t():
        k = rng.random()
        if k < .6: return rng.randint(-1000, 1000)
        if k < .7: return 0
        return rng.choice([-1, 1])*(1 << (52 if rng.random() < .6 else rng.randint(10, 51))) + rng.randint(-1000, 1000)
    return xfexp(rng), t(), t()

def linmap(rng, pts, most=94906265, unit=False):
    """an invertible linear map with whole coefficients that keeps differences of coordinates below most (so that
    their products are exact in doubles); half of them are nearly singular, which makes slivers of everything"""
    if not pts: return 1, 0, 0, 1
    big = 900000000//(2*max([1]+[max(abs(p[0]), abs(p[1])) for p in pts]))
    def row():  # a direction in which the positions have some wanted extent
        M = most if unit or rng.random() < .7 else 1 << rng.randint(4, 26)
        t = rng.random()*2*math.pi
        if rng.random() < .1: t = rng.randrange(4)*math.pi/2
        x, y = math.cos(t), math.sin(t)
        v = [p[0]*x+p[1]*y for p in pts]
        f = min(min(M, most)/max(1, max(v)-min(v)), big)
        return round(f*x), round(f*y)
    def fits(a, b):
        v = [p[0]*a+p[1]*b for p in pts]
        return max(v)-min(v) <= most and max(abs(a), abs(b)) <= big
    while True:
        a, b = row()
        if not unit and rng.random() < .5:
            c, d = row()
        else:
            g, c, d = egcd(abs(a), abs(b))
            if g != 1: continue
            # abs(a)*c + abs(b)*d = 1, so that the determinant of (a, b), (-d', c') is one
            c, d = -d*(1 if b >= 0 else -1), c*(1 if a >= 0 else -1)
            if rng.random() < .5: c, d = c-a, d-b
            if rng.random() < .5: c, d = -c, -d
            if not unit and rng.random() < .3: c, d = c+rng.randint(-1, 1), d+rng.randint(-1, 1)
        if not fits(a, b) or not fits(c, d): continue
        if rng.random() < .5: a, b, c, d = c, d, a, b
        if a*d-b*c: return a, b, c, d

def egcd(a, b):
    x, y, u, v = 1, 0, 0, 1
    while b:
        q = a//b
        a, b, x, u, y, v = b, a-q*b, u, x-q*u, v, y-q*v
    return a, x, y

def lapply(m, p): return (m[0]*p[0]+m[1]*p[1], m[2]*p[0]+m[3]*p[1])
