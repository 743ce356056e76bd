#!/usr/bin/env python3
# virp.py FILE NAME : show readable requires/ensures/body of a VIR function
import sys,re
s=open(sys.argv[1]).read()
name=sys.argv[2]
def tok(t):
    return re.findall(r'\(|\)|"(?:[^"\\]|\\.)*"|[^\s()]+',t)
def parse(ts,i):
    if ts[i]=='(':
        r=[];i+=1
        while ts[i]!=')':
            x,i=parse(ts,i); r.append(x)
        return r,i+1
    return ts[i],i+1
def get(l,k):
    for i,x in enumerate(l):
        if x==k: return l[i+1]
def strip(e):
    if isinstance(e,list) and e and e[0] in('@','@@'): return strip(e[2])
    return e
def show(e):
    e=strip(e)
    if not isinstance(e,list): return e
    if e and e[0]=='>': e=e[1:]
    if not e: return '()'
    h=e[0]
    if isinstance(h,list): return ' '.join(show(x) for x in e)
    if h in('ReadPlace',): return show(e[1])
    if h=='Place':
        k=e[1]
        if k=='Local': return e[2][1].strip('"')
        if k=='Temporary': return show(e[2])
        if k=='Field':
            f=e[2]; return show(e[3])+'.'+get(f,':field').strip('"')
        return ' '.join(show(x) for x in e[1:])
    if h=='Call':
        t=get(e,':target'); nm=[]
        def find(x):
            if isinstance(x,list):
                if len(x)>2 and x[0]=='Fun': nm.append(x[2])
                for y in x: find(y)
        find(t)
        args=get(e,':args')
        return (nm[0].split('::')[-1] if nm else '?')+'('+', '.join(show(a) for a in args)+')'
    if h=='Const': return ' '.join(show(x) for x in e[2:]) if len(e)>2 else show(e[1])
    if h=='Binary': return '('+show(e[2])+' '+show(e[1])+' '+show(e[3])+')'
    if h=='Unary': return show(e[1])+'['+show(e[2])+']'
    if h=='Typ': return ''
    return '('+' '.join(show(x) for x in e)+')'
for m in re.finditer(r'\(Function\s+:name \(Fun :path [^\n]*?'+re.escape(name)+r'\)',s):
    i=m.start()
    # find balanced
    d=0;j=i;instr=False
    while True:
        c=s[j]
        if c=='"':
            j+=1
            while s[j]!='"': j+=1
        elif c=='(': d+=1
        elif c==')':
            d-=1
            if d==0: break
        j+=1
    e,_=parse(tok(s[i:j+1]),0)
    print('==',e[2][2])
    ps=get(e,':params')
    print(' params',[strip(p)[2][1] for p in ps])
    for k in(':require',':ensure',':returns',':body'):
        v=get(e,k)
        if v and v!='None': print(' ',k,show(v))
