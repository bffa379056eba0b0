#!/usr/bin/env python3
"""One-off generator of harness/models/dict.tsv and selmaho.tsv (the frozen dictionary
specification). It was run once, on the repaired tree; checks never run it."""
import re,sys
src=open('/repo/src/lex/selmaho/classify.rs').read()
cu=re.search(r'const CUHUHU_ETC: &str = "([^"]*)"',src).group(1)
body=src[src.index('match direct_cmavo_check {'):]
body=body[:body.index('_ => Self::classify_generally')]
out=[]
for m in re.finditer(r'((?:(?:"[^"]*"|CUHUHU_ETC)\s*\|?\s*)+)=>\s*\{?\s*(experimental!\(Self::(\w+)\)|Self::(\w+))',body):
    words=[cu if w=='CUHUHU_ETC' else w[1:-1] for w in re.findall(r'"[^"]*"|CUHUHU_ETC',m.group(1))]
    for w in words: out.append((w,m.group(3) or m.group(4),1 if m.group(3) else 0))
d=open('/repo/src/lex/selmaho/display.rs').read()
rep=dict(re.findall(r'Self::(\w+) => "([^"]*)"',d))
e=open('/repo/src/lex/selmaho/mod.rs').read(); e=e[e.index('pub fn is_fundamentally_experimental'):]
fund={}
for arm in re.finditer(r'((?:Self::\w+\s*\|?\s*)+)=>\s*\{?\s*(true|false)',re.sub(r'//.*','',e)):
    for v in re.findall(r'Self::(\w+)',arm.group(1)): fund[v]=arm.group(2)=='true'
assert set(fund)==set(rep),(set(fund)^set(rep))
ws=[o[0] for o in out]; assert len(set(ws))==len(ws)
if len(sys.argv)>1:
    with open(sys.argv[1]+'/dict.tsv','w') as f:
        for w,s,x in sorted(out): f.write(f"{w}\t{rep[s]}\t{1 if x or fund[s] else 0}\n")
    with open(sys.argv[1]+'/selmaho.tsv','w') as f:
        for v in rep: f.write(f"{v}\t{rep[v]}\t{int(fund[v])}\n")
print(len(out),'words',len(rep),'selmaho',sum(fund.values()),'fundamental')
if __name__=='__main__':
    used={s for _,s,_ in out}
    print('unused', [v for v in rep if v not in used])
    print('repr mismatch',[(v,r) for v,r in rep.items() if r[0]!='(' and r.lower()!=v.lower()])
    byw={w:(s,x) for w,s,x in out}
    def wordfor(r):
        return re.sub(r'h',"'",r).lower()
    for v,r in rep.items():
        if v in used:
            w=wordfor(r)
            if w not in byw: print('no namesake',v,w,[a for a,b,c in out if b==v][:4])
            elif byw[w][0]!=v: print('namesake elsewhere',v,w,byw[w])
