#!/usr/bin/env python3
"""Generates spec/tables.rs: reference automata for the ABNF productions, with
the certificate (linear-form table, subset states) that Verus checks against
spec/abnf.rs.  The output is a certificate: if it were wrong the proof in
tables.rs / dfa.rs would fail.  Usage: gen_tables.py > spec/tables.rs"""
import functools, sys
sys.setrecursionlimit(10000)
Z=('Z',);E=('E',)
def cls(k): return ('C',k)
def cat(a,b): return ('.',a,b)
def alt(a,b): return ('|',a,b)
def star(a): return ('*',a)
def opt(a): return alt(E,a)
def rep(k,lo,hi):
    if hi==0: return E
    if lo>0: return cls(k) if hi==1 else cat(cls(k),rep(k,lo-1,hi-1))
    return opt(cls(k) if hi==1 else cat(cls(k),rep(k,0,hi-1)))
def lit(c): return cls('L'+c)
def plus(r): return cat(r,star(r))
def dashed(r): return cat(lit('-'),r)
G="en-GB-oed i-ami i-bnn i-default i-enochian i-hak i-klingon i-lux i-mingo i-navajo i-pwn i-tao i-tay i-tsu sgn-BE-FR sgn-BE-NL sgn-CH-DE art-lojban cel-gaulish no-bok no-nyn zh-guoyu zh-hakka zh-min zh-min-nan zh-xiang".split()
def word(w): return lit(w[0]) if len(w)==1 else cat(lit(w[0]),word(w[1:]))
g={}
g['primary']=rep('A',2,8)
g['extlang_tag']=rep('A',3,3)
g['extlang']=cat(g['extlang_tag'],opt(cat(dashed(g['extlang_tag']),opt(dashed(g['extlang_tag'])))))
g['language']=alt(cat(rep('A',2,3),opt(dashed(g['extlang']))),alt(rep('A',4,4),rep('A',5,8)))
g['script']=rep('A',4,4)
g['region']=alt(rep('A',2,2),rep('D',3,3))
g['variant']=alt(rep('N',5,8),cat(cls('D'),rep('N',3,3)))
g['variants']=opt(cat(g['variant'],star(dashed(g['variant']))))
g['extension_subtag']=rep('N',2,8)
g['extension']=cat(cls('S'),plus(dashed(g['extension_subtag'])))
g['extensions']=opt(cat(g['extension'],star(dashed(g['extension']))))
g['privateuse_subtag']=rep('N',1,8)
g['privateuse']=cat(lit('x'),plus(dashed(g['privateuse_subtag'])))
g['langtag']=cat(g['language'],cat(opt(dashed(g['script'])),cat(opt(dashed(g['region'])),cat(star(dashed(g['variant'])),cat(star(dashed(g['extension'])),opt(dashed(g['privateuse'])))))))
gf=Z
for w in reversed(G): gf=alt(word(w),gf)
g['grandfathered']=gf
g['language_tag']=alt(g['langtag'],alt(g['privateuse'],gf))
AUTOMATA=[('LanguageTag','language_tag'),('Privateuse','privateuse'),('PrivateuseSubtag','privateuse_subtag'),('Langtag','langtag'),('Language','language'),('Primary','primary'),('Extlang','extlang'),('ExtlangTag','extlang_tag'),('Script','script'),('Region','region'),('Variant','variant'),('Variants','variants'),('Extension','extension'),('ExtensionSubtag','extension_subtag'),('Extensions','extensions')]
CH='abcdefghijklmnopqrstuvwxyz0-*'   # class representatives, index = class number
def inc(k,c):
    if c=='*': return False
    if k=='A': return c.isalpha()
    if k=='D': return c.isdigit()
    if k=='N': return c.isalnum()
    if k=='S': return c.isalnum() and c!='x'
    return c==k[1].lower()
def null(r):
    t=r[0]
    if t in'ZC': return False
    if t in'E*': return True
    if t=='.': return null(r[1]) and null(r[2])
    return null(r[1]) or null(r[2])
def scat(a,b):
    if a==E: return b
    if a[0]=='.': return ('.',a[1],scat(a[2],b))
    return ('.',a,b)
def lf(r):
    t=r[0]
    if t in 'ZE': return []
    if t=='C': return [(r[1],E)]
    if t=='|': return lf(r[1])+lf(r[2])
    if t=='.':
        l=[(k,scat(x,r[2])) for k,x in lf(r[1])]
        return l+lf(r[2]) if null(r[1]) else l
    return [(k,scat(x,r)) for k,x in lf(r[1])]
# ---- hash-consed nodes, children first
N=[];NI={}
def mk(r):
    if r in NI: return NI[r]
    for c in r[1:]:
        if r[0] in '.|*': mk(c)
    NI[r]=len(N);N.append(r);return NI[r]
roots={}
for a,p in AUTOMATA: roots[a]=mk(g[p])
rows=[];i=0
while i<len(N):
    rows.append([(k,mk(x)) for k,x in lf(N[i])]); i+=1
eps=[null(r) for r in N]
# ---- one subset automaton for all productions (start states first), and its minimal quotient
def subsets():
    order=[];ix={};T=[];i=0
    def sid(u):
        if u not in ix: ix[u]=len(order);order.append(u)
        return ix[u]
    start={}
    for a,p in AUTOMATA: start[a]=sid((roots[a],))
    while i<len(order):
        T.append([(lambda u:sid(u) if u else -1)(tuple(sorted({j for s in order[i] for k,j in rows[s] if inc(k,c)}))) for c in CH]); i+=1
    return order,T,[any(eps[s] for s in S) for S in order],start
def minim(T,acc,starts):
    n=len(T);p=[int(a) for a in acc]
    while True:
        m={};q=[]
        for i in range(n): q.append(m.setdefault((p[i],tuple(-1 if t<0 else p[t] for t in T[i])),len(m)))
        if len(m)==len(set(p)): break
        p=q
    num={};order=[]
    for s in starts:
        if q[s] not in num: num[q[s]]=len(num);order.append(s)
        i=0
        while i<len(order):
            for t in T[order[i]]:
                if t>=0 and q[t] not in num: num[q[t]]=len(num);order.append(t)
            i+=1
    return [num[x] for x in q],len(num)
def build():
    order,T,acc,start=subsets()
    h,n=minim(T,acc,[start[a] for a,p in AUTOMATA])
    mt=[None]*n;ma=[None]*n
    for i in range(len(order)):
        row=[(-1 if t<0 else h[t]) for t in T[i]]
        assert mt[h[i]] in (None,row); mt[h[i]]=row
        assert ma[h[i]] in (None,acc[i]); ma[h[i]]=acc[i]
    return dict(sets=order,T=T,h=h,n=n,mt=mt,ma=ma,start=start,init={a:h[start[a]] for a,p in AUTOMATA})
def kk(k):
    return {'A':'K::Alpha','D':'K::Digit','N':'K::Alnum','S':'K::Sing'}.get(k) or 'K::Lit(0x%02xu8)'%ord(k[1])
def tree(lo,hi,var,leaf):
    if hi-lo==1: return leaf(lo)
    m=(lo+hi)//2
    return 'if %s < %d { %s } else { %s }'%(var,m,tree(lo,m,var,leaf),tree(m,hi,var,leaf))
def rowexpr(row):
    # nested ifs over class ranges
    runs=[];i=0
    while i<len(row):
        j=i
        while j<len(row) and row[j]==row[i]: j+=1
        runs.append((i,j,row[i]));i=j
    def rec(rs):
        if len(rs)==1: return str(rs[0][2])
        m=len(rs)//2
        return 'if k < %d { %s } else { %s }'%(rs[m][0],rec(rs[:m]),rec(rs[m:]))
    return rec(runs)
def fn2(w,name,params,args,ret,n,leaf,chunk=12,vis='closed'):
    """a spec function given by a table, in two levels (the interpreter of by(compute) prints every expression it evaluates)"""
    c=[(a,min(a+chunk,n)) for a in range(0,n,chunk)]
    v=args.split(',')[0].strip()
    for i,(a,b) in enumerate(c):
        w('pub %s spec fn %s_%d(%s) -> %s { %s }'%(vis,name,i,params,ret,tree(a,b,v,leaf)))
    def tr(lo,hi):
        if hi-lo==1: return '%s_%d(%s)'%(name,lo,args)
        m=(lo+hi)//2
        return 'if %s < %d { %s } else { %s }'%(v,c[m][0],tr(lo,m),tr(m,hi))
    w('#[verifier::memoize] pub %s spec fn %s(%s) -> %s { %s }'%(vis,name,params,ret,tr(0,len(c))))
def nd(r):
    t=r[0]
    if t=='Z': return 'Nd::Zero'
    if t=='E': return 'Nd::Eps'
    if t=='C': return 'Nd::Cls(%s)'%kk(r[1])
    if t=='*': return 'Nd::Star(%d)'%NI[r[1]]
    return 'Nd::%s(%d, %d)'%({'.':'Cat','|':'Alt'}[t],NI[r[1]],NI[r[2]])
def main():
    R=build()
    o=[]
    w=o.append
    w('// @generated by tools/gen_tables.py -- certificate tables: checked against abnf.rs by cert.rs, which closes the module.\npub mod tables {\nuse vstd::prelude::*;\nuse crate::re::*;\nuse crate::abnf::*;\nverus! {\n')
    w('pub enum Nd { Zero, Eps, Cls(K), Cat(int, int), Alt(int, int), Star(int) }')
    w('/// hash-consed regexes: children have smaller numbers')
    fn2(w,'node','i: int','i','Nd',len(N),lambda i:nd(N[i]))
    w('/// linear form of each node')
    fn2(w,'rows','i: int','i','Seq<(K, int)>',len(N),lambda i:'seq![%s]'%', '.join('(%s, %dint)'%(kk(k),j) for k,j in rows[i]) if rows[i] else 'Seq::empty()')
    fn2(w,'eps','i: int','i','bool',len(N),lambda i:str(eps[i]).lower(),64)
    w('pub open spec fn n_node() -> int { %d }'%len(N))
    w('/// subset states')
    n=len(R['sets'])
    fn2(w,'sset','d: int','d','Seq<int>',n,lambda d:'seq![%s]'%', '.join('%dint'%x for x in R['sets'][d]))
    fn2(w,'strans','d: int, k: int','d, k','int',n,lambda d:rowexpr(R['T'][d]))
    fn2(w,'smin','d: int','d','int',n,lambda d:str(R['h'][d]),48)
    w('pub open spec fn n_set() -> int { %d }'%n)
    w('/// the minimal deterministic automaton: transition (-1: none) and acceptance')
    fn2(w,'step_def','m: int, k: int','m, k','int',R['n'],lambda i:rowexpr(R['mt'][i]),vis='open')
    w('#[verifier::opaque] pub open spec fn step(m: int, k: int) -> int { step_def(m, k) }')
    fn2(w,'acc_def','m: int','m','bool',R['n'],lambda i:str(R['ma'][i]).lower(),64,vis='open')
    w('#[verifier::opaque] pub open spec fn acc(m: int) -> bool { acc_def(m) }')
    w('pub open spec fn n_state() -> int { %d }'%R['n'])
    for a,p in AUTOMATA:
        w('pub open spec fn root_%s() -> int { %d }'%(p,roots[a]))
        w('pub open spec fn set_%s() -> int { %d }'%(p,R['start'][a]))
        w('pub open spec fn init_%s() -> int { %d }'%(p,R['init'][a]))
    print('\n'.join(o))
if __name__=='__main__':
    main()
