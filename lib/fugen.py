"""Enumeration of the programs of fuvals.py."""
from fuvals import *

def lvs(name, t):
    """lvalues reachable from a variable."""
    x=("x",name)
    if t=="I": return [x]
    if t=="V": return [x,("[]",x,0)]
    if t=="S": return [x,(".",x,"p"),(".",x,"v"),("[]",(".",x,"v"),0)]
    if t=="W": return [x,("[]",x,0),("[]",("[]",x,0),0)]
    if t=="Q": return [x,("[]",x,0),(".",("[]",x,0),"p"),(".",("[]",x,0),"v"),("[]",(".",("[]",x,0),"v"),0)]

class Gen:
    def __init__(self, base, depth, ops, derived=2, wrap=(), kinds=("let","mut","ref"), cond=False):
        self.base, self.depth, self.ops, self.derived, self.wrap, self.kinds, self.cond = base, depth, ops, derived, wrap, kinds, cond
    def stmts(self, scope, nd, k):
        """scope: tuple of (name, kind, type). yields (stmt, new entry or None)"""
        types={n:t for n,_,t in scope}
        all_=[l for n,_,t in scope for l in lvs(n,t)]
        mut=[l for n,kd,t in scope if kd!="let" for l in lvs(n,t)]
        tt={l:typ(l,types) for l in all_}
        C=100*(k+1)
        if nd<self.derived:
            name="xyz"[nd]
            for kind in self.kinds:
                for l in (mut if kind=="ref" else all_):
                    yield ("decl",kind,name,l),(name,kind,tt[l])
                    if self.cond:
                        for m in (mut if kind=="ref" else all_):
                            if m!=l and tt[m]==tt[l]: yield ("decl",kind,name,("?",l,m,1)),(name,kind,tt[l])
        for l in mut:
            t=tt[l]
            if t=="I" and "add" in self.ops: yield ("add",l,C),None
            if t=="V":
                if "push" in self.ops: yield ("push",l,C),None
                if "pop" in self.ops: yield ("pop",l),None
                if "clear" in self.ops: yield ("clear",l),None
            if "pushv" in self.ops and t in ELEM:
                for m in all_:
                    if tt[m]==ELEM[t]: yield ("pushv",l,m),None
            if "set" in self.ops:
                for m in all_:
                    if m!=l and tt[m]==t: yield ("set",l,m),None
            if "swap" in self.ops:
                for m in mut:
                    if m>l and tt[m]==t: yield ("swap",l,m),None
    def block(self, n, scope, nd, k):
        if n==0:
            yield ()
            return
        for s,new in self.stmts(scope,nd,k):
            for r in self.block(n-1, scope+((new,) if new else ()), nd+(1 if new else 0), k+1):
                yield (s,)+r

def uses(s):
    """variables a statement reads, writes or refers to"""
    if s[0]=="decl": return roots(s[3])
    r=[]
    for e in s[1:]:
        if isinstance(e,tuple): r+=roots(e)
    return r

def programs(g):
    start=tuple((n,"mut",BASE[n][0]) for n in g.base)
    for n in range(2,g.depth+1):
        for b in g.block(n,start,0,0):
            if not any(s[0]=="decl" for s in b) or all(s[0]=="decl" for s in b): continue
            yield from finish(b,g)

def finish(b,g):
    decl=[(i,s[2],s[1]) for i,s in enumerate(b) if s[0]=="decl"]
    used={v:[i for i,s in enumerate(b) if v in uses(s)] for _,v,_ in decl}
    base=sorted({v for s in b for v in uses(s) if v in BASE})
    if base!=sorted(base): return
    ranges=[None]
    for w in g.wrap:
        for p in range(len(b)):
            for q in range(p+1,len(b)+1):
                if p==0 and q==len(b) : pass
                if all(not(p<=i<q) or all(u<q for u in used[v]) for i,v,_ in decl): ranges.append((w,p,q))
    for rg in ranges:
        for mode in ("all","der","base"):
            ob={}
            skip=False
            for i,v,kd in decl:
                o = (kd!="ref" or not used[v]) if mode!="base" else not used[v]
                ob[v]=o
            if mode=="der" and not any(ob.values()): continue
            if mode=="base" and all(not x for x in [ (kd!="ref" or not used[v]) for _,v,kd in decl]): continue   # equals all
            if mode=="base" and ob==dict((v,(kd!="ref" or not used[v])) for _,v,kd in decl): continue
            tail=tuple(("obs",v) for v in base) if mode!="der" else ()
            if rg is None:
                yield b+tuple(("obs",v) for _,v,_ in decl if ob[v])+tail
            else:
                w,p,q=rg
                inner=b[p:q]+tuple(("obs",v) for i,v,_ in decl if ob[v] and p<=i<q)
                st=("if",1,inner) if w=="if" else ("loop",inner)
                yield b[:p]+(st,)+b[q:]+tuple(("obs",v) for i,v,_ in decl if ob[v] and not p<=i<q)+tail

def helper_fns(ptypes, ops, depth, rets, derived=0):
    """helpers over parameters x, y of the given types: every kind, every body of up to depth statements."""
    import itertools
    names="uv"[:len(ptypes)]
    for kinds in itertools.product(("let","mut","ref"),repeat=len(ptypes)):
        params=tuple(zip(names,kinds,ptypes))
        types={n:t for n,_,t in params}
        g=Gen("",depth,ops,derived=derived)
        for n in range(0,depth+1):
            for b in g.block(n,params,0,4):
                decl=[s[2] for s in b if s[0]=="decl"]
                for d in decl:
                    if not any(d in uses(s) for s in b): break
                else: decl=[]
                if decl: continue
                us={v for s in b for v in uses(s)}
                if rets:
                    for p,kd,t in params:
                        for l in lvs(p,t):
                            if typ(l,types)!=rets: continue
                            if kd=="mut" : pass
                            unused=[q for q in names if q not in us and q!=p]
                            yield (params, b+tuple(("obs",q) for q in unused), l)
                else:
                    yield (params, b+tuple(("obs",q) for q in names), None)
                    unused=[q for q in names if q not in us]
                    if unused!=list(names): yield (params, b+tuple(("obs",q) for q in unused), None)

def calls_a(bases_, ptypes, ops, depth):
    import itertools
    al=[l for n in bases_ for l in lvs(n,BASE[n][0])]
    types={n:BASE[n][0] for n in bases_}
    for f in dict.fromkeys(helper_fns(ptypes,ops,depth,None)):
        for args in itertools.product(*[[l for l in al if typ(l,types)==t] for t in ptypes]):
            rs=[root(a) for a in args]
            if len(rs)>1 and len(set(rs))==len(rs): continue
            used=sorted(set(rs))
            # not mutated at all and no kinds: skip
            yield (("call",None,f,args),)+tuple(("obs",v) for v in used)

def calls_r(bases_, ptypes, ops, depth, rets, after):
    """y = helper(args); then statements over the result and the bases"""
    import itertools
    al=[l for n in bases_ for l in lvs(n,BASE[n][0])]
    types={n:BASE[n][0] for n in bases_}
    for f in dict.fromkeys(helper_fns(ptypes,ops,depth,rets)):
        params,body,ret=f
        refable=all(dict((n,k) for n,k,_ in params)[r]=="ref" for r in roots(ret))
        for args in itertools.product(*[[l for l in al if typ(l,types)==t] for t in ptypes]):
            used=sorted({root(a) for a in args})
            for kind in ("let","mut","ref") if refable else ("let","mut"):
                scope=tuple((n,"mut",BASE[n][0]) for n in bases_)+(("x",kind,rets),)
                g=Gen("",after,("add","push","set","swap"),derived=0)
                for n in range(0,after+1):
                    for b in g.block(n,scope,0,0):
                        us={v for s in b for v in uses(s)}
                        bs=sorted(set(used)|{v for v in us if v in BASE})
                        head=(("call",("decl",kind,"x"),f,args),)+b
                        if kind!="ref" or "x" not in us: yield head+(("obs","x"),)+tuple(("obs",v) for v in bs)
                        if "x" in us: yield head+tuple(("obs",v) for v in bs)
            if refable and rets=="I":
                yield (("call",("add",50),f,args),)+tuple(("obs",v) for v in used)
