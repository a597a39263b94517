"""Irreducible trinomials and pentanomials over GF(2) for odd degrees 5..571 -> harness/fields.inc"""
import random
random.seed(11)
def mulmod(a,b,p,m):
    r=0
    while b:
        if b&1: r^=a
        b>>=1; a<<=1
        if a>>m&1: a^=p
    return r
SQ=[int(''.join(c+'0' for c in format(i,'08b'))[:-1] or '0',2) if i else 0 for i in range(256)]
def sq(a,ex,m):
    b=a.to_bytes((a.bit_length()+7)//8 or 1,'big')
    r=0
    for x in b: r=(r<<16)|SQ[x]
    # reduce
    mask=(1<<m)-1
    while r>>m:
        h=r>>m; r&=mask
        r^=h
        for e in ex[1:]: r^=h<<e
    return r
def gcd(a,b):
    while b:
        while a and a.bit_length()>=b.bit_length(): a^=b<<(a.bit_length()-b.bit_length())
        a,b=b,a
    return a
def primes(n):
    f=[];d=2
    while n>1:
        if n%d==0:
            f.append(d)
            while n%d==0:n//=d
        d+=1
    return f
def irreducible(ex):
    m=ex[0]; p=1|sum(1<<e for e in ex)
    need={m//q for q in primes(m)}
    x=2;
    for i in range(1,m+1):
        x=sq(x,ex,m)
        if i in need and gcd(p,x^2)!=1: return False
    return x==2
assert irreducible([163,7,6,3]) and irreducible([233,74]) and irreducible([571,10,5,2]) and not irreducible([163,7,6,2])
out='// generated by tools/mkfields.py\n'
degs=[m for m in range(5,200,2)]+[m for m in range(201,572,10)]+[233,239,257,283,307,367,409,431,571]
for m in sorted(set(degs)):
    tri=[k for k in range(1,m) if irreducible([m,k])] if m<60 else []
    if m>=60:
        c=list(range(1,m)); 
        for k in c:
            if irreducible([m,k]): tri=[k]; break
    picks=[]
    if tri: picks.append([m,random.choice(tri)])
    n=0
    while n<(2 if m<200 else 1):
        l=random.randrange(3,m); j=random.randrange(2,l); k=random.randrange(1,j)
        if irreducible([m,l,j,k]): picks.append([m,l,j,k]); n+=1
    for e in picks: out+='{%s},\n'%', '.join(map(str,e))
open('/verif/harness/fields.inc','w').write(out)
