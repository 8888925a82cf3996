import sys,collections
R=int(sys.argv[1]); out=sys.argv[2]
L=[l.strip() for f in ('p1','p2','p3','p4') for l in open(f)]
L=list(dict.fromkeys(L))
feat=[set(l.split('|')[1].split()) for l in L]
size=[int(l.split()[0]) for l in L]; E=[int(l.split()[1]) for l in L]
cnt=collections.Counter(f for F in feat for f in F)
ok={f for f in cnt if cnt[f]>=3}
need={f:R for f in ok}
pick=[];used=set()
while need:
    b=max((i for i in range(len(L)) if i not in used),key=lambda i:sum(1 for f in feat[i] if f in need)/(10+E[i])**0.5)
    s=[f for f in feat[b] if f in need]
    if not s: break
    used.add(b); pick.append(b)
    for f in s:
        need[f]-=1
        if not need[f]: del need[f]
print(len(L),len(ok),len(pick),'left',len(need), 'n',collections.Counter(size[i] for i in pick),'E',sum(E[i] for i in pick)/len(pick))
open(out,'w').write('\n'.join(L[i] for i in pick)+'\n')
