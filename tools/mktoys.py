"""Small binary curves (odd m, a in {0,1}, prime-order subgroup with cofactor 2 or 4) for harness/toys.inc."""
import sympy, random
random.seed(7)
def mul(a,b,p,m):
    r=0
    while b:
        if b&1: r^=a
        b>>=1; a<<=1
        if a>>m&1: a^=p
    return r
def inv(a,p,m):
    # a^(2^m-2)
    r=1; e=(1<<m)-2; x=a
    while e:
        if e&1: r=mul(r,x,p,m)
        x=mul(x,x,p,m); e>>=1
    return r
def tr(z,p,m):
    t=z;s=z
    for _ in range(m-1):
        t=mul(t,t,p,m); s^=t
    assert s in(0,1); return s
def half(z,p,m):
    t=z;s=z
    for _ in range((m-1)//2):
        t=mul(t,t,p,m);t=mul(t,t,p,m); s^=t
    return s
def irreducible(ex):
    x=sympy.symbols('x')
    P=sympy.Poly(sum(x**e for e in ex),x,modulus=2)
    return P.is_irreducible
def add(P,Q,a,p,m):
    if P is None: return Q
    if Q is None: return P
    x1,y1=P;x2,y2=Q
    if x1==x2:
        if y1^y2==x1: return None
        if x1==0: return None
        l=x1^mul(y1,inv(x1,p,m),p,m); x3=mul(l,l,p,m)^l^a; y3=mul(x1,x1,p,m)^mul(l^1,x3,p,m); return x3,y3
    l=mul(y1^y2,inv(x1^x2,p,m),p,m); x3=mul(l,l,p,m)^l^x1^x2^a; y3=mul(l,x1^x3,p,m)^x3^y1; return x3,y3
def smul(k,P,a,p,m):
    R=None
    while k:
        if k&1: R=add(R,P,a,p,m)
        P=add(P,P,a,p,m); k>>=1
    return R
def polys(m):
    for k in range(1,m):
        if irreducible([m,k,0]): yield [m,k]; break
    for l in range(3,m):
        for j in range(2,l):
            for k in range(1,j):
                if irreducible([m,l,j,k,0]): yield [m,l,j,k]; return
out='// generated by tools/mktoys.py: m, exponents, a, b, n, Gx, Gy\n'
for m in (5,7,9,11,13,15):
    for ex in polys(m):
        p=1|sum(1<<e for e in ex)
        for a in (0,1):
            found=0
            bs=list(range(1,1<<m)); random.shuffle(bs)
            for b in bs[:400]:
                # count: x=0 one point; each x!=0 two points if Tr(x + a + b/x^2)==0
                N=2
                if m<=17:
                    for x in range(1,1<<m):
                        xi=inv(x,p,m)
                        c=x^a^mul(b,mul(xi,xi,p,m),p,m)
                        if tr(c,p,m)==0: N+=2
                h=2 if a==1 else 4
                if N%h or not sympy.isprime(N//h): continue
                n=N//h
                if n.bit_length()>m+1 or n==2: continue
                while True:
                    x=random.randrange(1,1<<m); xi=inv(x,p,m); c=x^a^mul(b,mul(xi,xi,p,m),p,m)
                    if tr(c,p,m): continue
                    y=mul(half(c,p,m),x,p,m)
                    G=smul(h,(x,y),a,p,m)
                    if G is None: continue
                    break
                assert smul(n,G,a,p,m) is None
                f=(m+7)//8*2
                out+='{-1, {%s}, %d, "%0*x", "%0*x", "%0*x", "%0*x"},\n'%(', '.join(map(str,ex)),a,f,b,f,n,f,G[0],f,G[1])
                found+=1
                if found>= (2 if m<13 else 1): break
            print(m,ex,a,found,flush=True)
open('/verif/harness/toys.inc','w').write(out)
