from val import *
def diff(a, b):
    out=[]
    for k in set(a.m)|set(b.m):
        x,y=a.m.get(k),b.m.get(k)
        if x is y: continue
        if x is None or y is None: out.append(('obj',show(k),x is None)); continue
        for o in set(x.c)|set(y.c):
            if x.c.get(o)!=y.c.get(o): out.append((show(k),o,show(x.c.get(o)),show(y.c.get(o))))
        if (x.b or {})!=(y.b or {}): out.append((show(k),'blob',x.b,y.b))
    for n in ('f','g','r'):
        x,y=getattr(a,n),getattr(b,n)
        for k in set(x)|set(y):
            if x.get(k)!=y.get(k): out.append((n,show(k),show(x.get(k)),show(y.get(k))))
    return out
