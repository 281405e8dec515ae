"""strong pseudoprimes to the first k primes and not to the next one (Arnault's construction)"""
import sys, json, itertools, hashlib
import os; sys.path[:0]=[os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'ref')]
import rprime
from rprime import jacobi, is_prime, sprp
P=rprime.SMALL
def crt(rs):
    r,m=0,1
    for a,b in rs:
        # x = r mod m, x = a mod b
        from math import gcd
        g=gcd(m,b)
        if (a-r)%g: return None
        t=((a-r)//g*pow(m//g,-1,b//g))%(b//g)
        r=r+m*t; m=m//g*b; r%=m
    return r,m
def build(k, bits, seed):
    A=P[:k]
    # n = p1*p2*p3, p_i = k_i (p1-1)+1
    import random
    R=random.Random('%d.%d.%d'%(k,bits,seed))
    for attempt in range(4000):
        k2,k3=R.sample([q for q in P[3:60] if q>A[-1]],2)
        # p1 = 3 mod 4 ; conditions: p_i all have the same symbols; p1 = -k3^-1 mod k2, -k2^-1 mod k3
        rs=[]; ok=True
        for a in A:
            mod=8 if a==2 else 4*a
            good=[]
            for r in range(3,mod,4):
                if r%a==0 and a>2: continue
                qs=[r,(k2*(r-1)+1)%mod,(k3*(r-1)+1)%mod]
                if any(q%4!=3 for q in qs): continue
                if a>2 and any(q%a==0 for q in qs): continue
                s=set(jacobi(a,q if q>1 else q+mod) for q in qs)
                if len(s)==1: good.append(r)
            if not good: ok=False;break
            rs.append((R.choice(good),mod))
        if not ok: continue
        if any((r%4)!=3 for r,_ in rs): continue
        rs+= [((-pow(k3,-1,k2))%k2,k2),((-pow(k2,-1,k3))%k3,k3)]
        c=crt(rs)
        if c is None: continue
        r,m=c
        # n ~ p1^3 k2 k3
        target=bits-(k2*k3).bit_length()
        pb=target//3
        if m.bit_length()>pb-5: continue
        lo=(1<<(pb-1))//m; hi=(1<<pb)//m
        for _ in range(6000):
            p=r+m*R.randint(lo,hi)
            if p%3==0 and p>3 or p%5==0 or p%7==0: continue
            q=k2*(p-1)+1; u=k3*(p-1)+1
            if any(q%z==0 or u%z==0 for z in (3,5,7,11,13)): continue
            if is_prime(p) and is_prime(q) and is_prime(u):
                n=p*q*u
                if all(sprp(n,a) for a in A):
                    w=next(i for i,a in enumerate(P) if not sprp(n,a))
                    return n,w
                break
    return None
if __name__=='__main__':
    out=[]
    T=lambda b: [t for kk,t in [(0,40),(100,27),(150,18),(200,15),(250,12),(300,9),(350,8),(400,7),(450,6),(550,5),(650,4),(850,3),(1300,2)] if b>=kk][-1]
    jobs=[]
    for b in (120,140,160,180,205,225,245,255,275,295,305,325,345,355,375,395,405,425,445,455,480,545,560,600,645,655,700,800,845,855,1000,1290,1310,1500):
        t=T(b)
        for k in sorted({1,2,3,t-1,t-2,t-3,t-4}):
            if 1<=k<t: jobs.append((k,b))
    import multiprocessing as mp
    def go(j):
        r=[]
        for seed in range(3):
            x=build(j[0],j[1],seed)
            if x: r.append(x)
            elif seed==0: break
        return j,r
    with mp.get_context('fork').Pool(8) as pool:
        for j,r in pool.imap_unordered(go,jobs,1):
            print(j,[(w,n.bit_length()) for n,w in r],file=sys.stderr,flush=True)
            out+=r
    json.dump(sorted([[str(n),w] for n,w in out],key=lambda x:(len(x[0]),x)),open('spsp.json','w'),indent=0)
