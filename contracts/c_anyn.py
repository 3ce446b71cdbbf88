"""Graph functions for any number of nodes and factors: the loops over the elements are cut at inferred invariants, the virtual functions of
nodes and factors are replaced by their contracts (decided separately for every class)."""
from lib import *
from symexec import isint, Ptr, NULL
import loops
from loops import SI
from c_graph import FS, FD, GR, A_prof, big, D, book, lscript
AN=('cutn.cpp','graph.cpp')
VIRT='virtual functions of nodes and factors by contract (evaluate_* write only their own results, update / set_state / set_auxiliary_state read only their argument), decided for every class in C07 to C12; elements of a vector are distinct objects'
class Elems:
    """ghost of a graph whose node or factor vector has arbitrary length n"""
    def __init__(self,c,m):
        self.c=c; self.m=m; self.i=None; h=m.contracts; self.done=0; self.cur={}
        h['gh_factors']=self.factors; h['gh_nodes']=self.nodes; h['gh_vec']=self.vec
        h['gh_f_res']=lambda m,a:self.ev(a[0],'r'); h['gh_f_jac']=lambda m,a:self.ev(a[0],'J'); h['gh_f_chi']=self.chi
    def sel(self,name,e):
        w=self.c.w; return w.uf('SEL:'+name,[w.lift(e) if isint(e) else self.m.itof(e)],1,lambda x:[np.full(w.N,np.nan)])[0]
    def ok(self,b,l): self.c.flag(self.c.const(int(bool(b))),1,l)
    def isym(self,name,lo,hi): return self.m.isym(name,lo,hi)
    def proto(self,a,name,fix):
        m=self.m; vec,deq,pr,size=a[:4]; base=dict(pr.o.cells); off=pr.off; self.n=n=self.isym('n',0,2**31-1)
        def mk(m,e):
            p=m.alloc(size,name,'heap'); p.o.cells.update({k-off:v for k,v in base.items() if off<=k<off+size}); fix(p.o,e,lambda q:q.off-off); return p
        st=lambda i,v:m.store(Ptr(vec.o,vec.off+8*i),8,v); self.deq=deq; self.last=None
        if deq:
            # n elements in chunks of 32, the first at the start of chunk 0
            q=m.floordiv(n,32,'ashr'); b=m.alloc((q+1)*512,name+'s','abstract'); self.arr=b.o.lazy=loops.PArr(name+'s',n,(q+1)*32,mk); M=self.isym('mapsize',1,2**32); m.I.facts.append(M-q-1)
            mp=m.alloc(M*8,'map','abstract'); mp.o.lazy=loops.MArr('map',q,M*8,b.o); P=lambda o:Ptr(b.o,o); self.chunk=lambda c:{'chunk':P(c*512),'chunk end':P(c*512+512),'map entry':Ptr(mp.o,c*8)}
            for i,v in enumerate((mp,M,P(0),P(0),P(512),mp,P(n*16),P(q*512),P(q*512+512),Ptr(mp.o,q*8))): st(i,v)
        else:
            cap=self.isym('cap',0,2**32); m.I.facts.append(cap-n); b=m.alloc(cap*16,name+'s','abstract'); self.arr=b.o.lazy=loops.PArr(name+'s',n,cap,mk)
            for i,o in enumerate((0,n*16,cap*16)): st(i,Ptr(b.o,o))
    # factors
    def factors(self,m,a):
        chi2,dim,al,fid,nb=a[4:]
        def fix(o,e,at):
            o.cells[at(chi2)]=(8,self.sel('chi_old',e)); o.cells[at(fid)]=(8,e); self.state(e)
        self.proto(a,'factor',fix)
    def state(self,e):
        for k,s in self.cur.items():
            if self.m.I.true(IC('i==',self.m_sub(k,e))): return s
        s=self.cur[e]={'r':0,'c':0,'J':0}; return s
    def m_sub(self,a,b): return a-b
    def ev(self,p,what):
        s=self.state(self.arr.index(p)); s[what]+=1
    def chi(self,m,a):
        e=self.arr.index(a[0]); s=self.state(e); self.ok(s['r']>0,'error of a factor computed from its re-evaluated residual'); s['c']+=1; m.store(a[1],8,self.sel('chi_new',e))
    # nodes
    DIMS=((1,1,1),(2,2,1),(3,3,1),(6,4,4),(4,4,1))
    def shape(self,e):
        """dimension and state shape of node e: any of the kinds of nodes"""
        for k,s in self.shp:
            if self.m.idecide(IC('i==',k-e)): return s
        n=0
        while n<len(self.DIMS)-1 and not self.c.path.choice(): n+=1
        self.shp.append((e,self.DIMS[n])); return self.DIMS[n]
    def nodes(self,m,a):
        self.shp=[]; dim,nid,mode,x,r,cc,ax,nb=a[4:]
        def fix(o,e,at):
            d,R,C=self.shape(e); o.cells[at(dim)]=(4,d); o.cells[at(nid)]=(8,m.isym('id%d'%len(self.shp),0)); o.cells[at(r)]=(8,R); o.cells[at(cc)]=(8,C)
            for i in range(R*C): o.cells[at(x)+8*i]=(8,self.sel('x%d'%i,e)); o.cells[at(ax)+8*i]=(8,self.sel('aux%d'%i,e))
        self.proto(a,'node',fix)
    def vec(self,m,a):
        self.N=m.isym('dimstate',0,2**31-1); self.dx=m.array('dx',self.N); m.store(a[0],8,self.dx); m.store(Ptr(a[0].o,a[0].off+8),8,self.N)
    # loop protocol: at the head of iteration i the first i elements have been dealt with
    def reals(self): return {}
    def ints(self):
        """the deque iterator at element `done`"""
        if not self.deq: return {}
        if isint(self.done): return self.chunk(self.done//32)
        if self.i is None or self.done==self.i: return self.chunk(self.m.floordiv(self.done,32,'ashr'))
        c=self.m.floordiv(self.i,32,'ashr'); return self.chunk(c+1 if self.m.idecide(IC('i==',c*32+31-self.i)) else c)
    def arrived(self,m): self.ok(self.done==0,'no element dealt with before the loop'); self.cur={}
    def inv(self,m,i,when):
        d=self.n-i; st=self.c.ex.__dict__.setdefault('strict',[1])
        if st[0]:       # candidate of the invariant: i < n at the head of every iteration (loop tested at its end)
            d=d-1
            if not m.I.nonneg(d): st[0]=0; raise loops.CutRestart()
        self.ok(isint(self.done-i) and self.done-i==0,'one element per iteration, in order, %s'%when); self.ok(m.I.nonneg(d),'at most n iterations %s'%when)
    def havoc(self,m,i): self.i=i; self.done=i; m.I.facts.append(self.n-i-self.c.ex.__dict__.setdefault('strict',[1])[0])
    def pending(self): return bool(self.cur)
    def end(self):
        if self.pending(): self.advance(self.m,self.done)
        self.c.ieq(self.m,self.done,self.n,'every element dealt with, once')
def anyn(G,drv,args,nout,post):
    def f(c):
        c.nodiv=True; m=c.amachine(); g=G(c,m); m.cut=loops.Cut(c,g,g.fns)
        try: o=c.acall(m,drv,list(args),nout); done=True
        except loops.CutEnd: done=False
        if not done: raise loops.CutEnd()
        post(c,m,g,o)
    return f
class Total(Elems):
    """sum of the errors: S is the sum over the elements dealt with"""
    fns=['FGraphSolve']
    def __init__(self,c,m,ev): Elems.__init__(self,c,m); self.S=c.const(0); self.evf=ev
    def reals(self): return {'sum of the errors so far':self.S}
    def advance(self,m,i):
        self.ok(isint(i-self.done) and i-self.done==0,'elements in order'); s=self.state(i); self.S=self.S+self.sel('chi_new' if self.evf else 'chi_old',i); self.done=i+1
        self.ok(bool(s['r'])==bool(self.evf) and bool(s['c'])==bool(self.evf),'residual and error evaluated as requested')
        self.ok(all(self.m.I.true(IC('i==',k-i)) for k in self.cur),'one iteration concerns one element'); self.cur={}
    def havoc(self,m,i): Elems.havoc(self,m,i); self.S=self.c.real('S',1.0)
def total(c,m,g,o): g.end(); c.eq(o[0],g.S,'total = sum of the errors of all factors')
for _e in (0,1): contract('C21','chi2(%d), any number of factors'%_e,FS('chi2'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,3000,lambda n:big('C21',n,n+n//2,n)),assumptions=[VIRT])(anyn(lambda c,m,_e=_e:Total(c,m,_e),'drv_any_chi2',[_e],1,total))
contract('C20','calculate_error, any number of factors',FD('calculate_error'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,300,lambda n:big('C20',n,n+n//2,n)),assumptions=[VIRT])(anyn(lambda c,m:Total(c,m,1),'drv_any_error',[],1,total))
class Filled(Elems):
    fns=['FGraphSolve']
    def maps(self): return {'errors':lambda k:self.sel('chi_old',k)}
    def advance(self,m,i):
        s=self.state(i); self.done=i+1; self.ok(not s['r'] and not s['c'],'nothing re-evaluated'); self.cur={}
class Steps(Elems):
    """node i receives the segment of the step at offset off(i) = sum of the dimensions of the nodes before it"""
    fns=['FGraphSolve']
    def __init__(self,c,m,sign): Elems.__init__(self,c,m); self.off=0; self.sign=sign; self.calls=0; m.contracts['gh_n_update']=self.update; m.contracts['gh_n_auxup']=self.bad
    def bad(self,m,a): self.ok(0,'the step is applied to the state, not from the saved one')
    def ints(self): return dict(Elems.ints(self),offset=self.off)
    def update(self,m,a):
        p,data,rows,st=a; e=self.arr.index(p); d=self.shape(e)[0]; self.calls+=1
        self.ok(m.I.true(IC('i==',e-self.done)),'nodes in order'); self.c.ieq(m,rows,d,'size of the step of a node')
        if not isint(rows) or not isint(st) or rows!=d: return
        for k in range(d):
            x=m.num(m.load(Ptr(data.o,data.off+8*k*st),('double',))); y=m.load(Ptr(self.dx.o,(self.off+k)*8),('double',)); self.c.eq(x,y if self.sign>0 else -y,'component of the step of a node')
    def need(self,e):
        """prefix sums: off(i) + dim(i) <= dimension of the state"""
        d=self.shape(e)[0]; self.m.I.facts.append(self.N-self.off-d); return d
    def nodes(self,m,a):
        Elems.nodes(self,m,a); mk=self.arr.mk
        def mk2(m,e):
            self.ok(m.I.true(IC('i==',e-self.done)),'one node per iteration')
            p=mk(m,e); self.need(e); return p
        self.arr.mk=mk2
    def advance(self,m,i): self.ok(self.calls==1,'one update per node'); self.calls=0; self.off=self.off+self.shape(i)[0]; self.done=i+1
    def havoc(self,m,i): Elems.havoc(self,m,i); self.off=m.isym('off',0,2**31-1); m.I.facts.append(self.N-self.off)
    def pending(self): return self.calls>0
def steps(c,m,g,o): g.end(); g.ok(g.calls==0,'no further update')
contract('C17','update_nodes, any number of nodes',FS('update_nodes'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,300,lambda n:big('C17',n,2*n,n)),assumptions=[VIRT])(anyn(lambda c,m:Steps(c,m,-1),'drv_any_update',[],0,steps))
contract('C20','update_state, any number of nodes',FD('update_state'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,300,lambda n:big('C20',n,2*n,n)),assumptions=[VIRT])(anyn(lambda c,m:Steps(c,m,1),'drv_any_update_dense',[],0,steps))
class Sync(Elems):
    """saving copies the state of every node to its auxiliary state, restoring copies it back"""
    fns=['FGraphSolve']
    def __init__(self,c,m,src,dst):
        Elems.__init__(self,c,m); self.calls=0; self.src=src
        for h,n in (('gh_n_set','x'),('gh_n_setaux','aux')): m.contracts[h]=self.set if n==dst else self.bad
        m.contracts['gh_n_update']=m.contracts['gh_n_auxup']=self.bad
    def bad(self,m,a): self.ok(0,'only the destination is written')
    def set(self,m,a):
        p,data,r,cc,st=a; e=self.arr.index(p); d,R,C=self.shape(e); self.calls+=1; self.ok(m.I.true(IC('i==',e-self.done)),'nodes in order'); self.c.ieq(m,r,R,'rows'); self.c.ieq(m,cc,C,'columns')
        if (r,cc)!=(R,C) or not isint(st): return
        for i in range(R):
            for j in range(C): self.c.eq(m.num(m.load(Ptr(data.o,data.off+8*(i*st+j)),('double',))),self.sel('%s%d'%(self.src,i*C+j),e),'entry of the copied state')
    def pending(self): return self.calls>0
    def advance(self,m,i): self.ok(self.calls==1,'one copy per node'); self.calls=0; self.done=i+1
for _p,_d,_F in (('C18',0,FS),('C20',1,FD)):
    contract(_p,'%s, any number of nodes'%('synchronize_nodes_auxiliary_state','bookkeep_state')[_d],_F(('synchronize_nodes_auxiliary_state','bookkeep_state')[_d]),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,300,lambda n,_p=_p:big(_p,n,2*n,n)),assumptions=[VIRT])(anyn(lambda c,m:Sync(c,m,'x','aux'),'drv_any_save',[_d],0,steps))
    contract(_p,'%s, any number of nodes'%('synchronize_nodes_state','update_state_from_bookkeep')[_d],_F(('synchronize_nodes_state','update_state_from_bookkeep')[_d]),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,300,lambda n,_p=_p:big(_p,n,2*n,n)),assumptions=[VIRT])(anyn(lambda c,m:Sync(c,m,'aux','x'),'drv_any_restore',[_d],0,steps))
def results(c,m,g,o):
    g.end(); r=g.out; c.ieq(m,r[1],g.n,'one entry per factor')
    for i in m.any_index('any',g.n): c.eq(m.load(Ptr(r[0].o,r[0].off+i*8),('double',)),g.sel('chi_old',i),'entry i is the error of factor i')
def without(G):
    def f(c,m):
        g=G(c,m); m.contracts['gh_out']=lambda m,a:setattr(g,'out',a); return g
    return f
contract('C21','get_chi2_array, any number of factors',FS('get_chi2_array'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,3000,lambda n:big('C21',n,n+n//2,n)),assumptions=[VIRT])(anyn(without(Filled),'drv_any_chi2_array',[],0,results))
class States(Elems):
    """record i of the result is the state of node i"""
    fns=['FGraphSolve']
    def __init__(self,c,m): Elems.__init__(self,c,m); self.seen=0
    def nodes(self,m,a):
        Elems.nodes(self,m,a); mk=self.arr.mk
        def mk2(m,e): self.seen+=1; self.ok(m.I.true(IC('i==',e-self.done)),'one node per iteration'); return mk(m,e)
        self.arr.mk=mk2
    def pending(self): return self.seen>0
    def owns(self,m,o): return o is getattr(self,'res',None)
    def advance(self,m,i):
        """the iteration has appended the state of node i, and nothing else"""
        new=[(o,[x for x in o.lazy.ov if x not in n]) for o,n in m.cut.arrs if isinstance(o.lazy,loops.AArr) and o.lazy.ov!=n]; self.seen=0; self.done=i+1
        if len(new)!=1: self.ok(0,'one record per node'); return
        o,w=new[0]; self.res=o; d,R,C=self.shape(i); cells={}
        for x in w:
            k=x[1]-i*3; self.ok(x[0]=='w' and isint(k) and 0<=k<3,'writes only its own record'); cells[k]=x[2]
        if set(cells)!={0,1,2} or not isinstance(cells[0],Ptr): self.ok(0,'a whole record'); return
        self.ok((cells[1],cells[2])==(R,C),'shape of the state'); self.ok(cells[0].o.alive,'the matrix outlives the loop')
        for k in range(R*C): self.c.eq(m.num(m.load(Ptr(cells[0].o,cells[0].off+8*k),('double',))),self.sel('x%d'%k,i),'entry of the state of node i')
def states(c,m,g,o):
    g.end(); r=g.out; c.ieq(m,r[1],g.n,'one state per node'); g.ok(getattr(g,'res',None) in(None,r[0].o),'the records are those returned')
contract('C21','get_estimated_state, any number of nodes',FS('get_estimated_state'),GR,AN,assume=[A_prof],nonum=True,sized=('n',1,3000,lambda n:big('C21',n,n+n//2,n)),assumptions=[VIRT])(anyn(without(States),'drv_any_states',[],0,states))
# ---- one more node or factor, whatever is in the graph (the step of an induction over the history)
class Col(Elems):
    """one container of the graph"""
    def __init__(self,c,m,pre,lists): self.c=c; self.m=m; self.pre=pre; self.lists=lists; self.cur={}
    def isym(self,name,lo,hi): return self.m.isym(name+self.pre,lo,hi)
class Book:
    """graph with arbitrary numbers of nodes, active nodes, factors and eigen factors; element i has id i; neighbour lists of 0 to 2 factors"""
    N=('nodes','active','factors','eigen'); fns=[]
    def __init__(self,c,m):
        self.c=c; self.m=m; self.col={}; self.res={}; self.ptr={}; self.lists=[]; self.idx={}; h=m.contracts
        h['gh_col']=self.column; h['gh_dims']=self.dims; h['gh_index']=self.index; h['gh_list']=lambda m,a:self.lists.append(a)
        for t in ('6Factor','4Node'): h['_ZNSt5dequeISt10shared_ptrIN4mrob%sEESaIS3_EE17_M_reallocate_mapEmb'%t]=loops.reallocate_map
        h['gh_elem']=lambda m,a:(m.store(a[2],8,self.col[a[0]].arr.at(m,a[1])),m.store(Ptr(a[2].o,a[2].off+8),8,NULL))[0]
        h['gh_res']=lambda m,a:self.res.__setitem__(a[0],a[1]); h['gh_ptr']=lambda m,a:self.ptr.__setitem__(a[0],a[1])
    def column(self,m,a):
        w,vec,deq,pr,size,idp,nb=a; w=m.iv(w) if hasattr(m,'iv') else w; g=Col(self.c,m,self.N[w],[]); self.col[w]=g; g.before={}; g.frame={}
        def fix(o,e,at):
            o.cells[at(idp)]=(8,e); g.frame[id(o)]=(at(idp),at(nb))
            if w!=0: return
            k=0
            while k<2 and not self.c.path.choice(): k+=1
            s,cap=((0,0),(1,2),(2,2))[k]; old=[m.alloc(64,'factor','heap') for _ in range(s)]
            if cap:
                b=m.alloc(16*cap,'list','heap')
                for i,x in enumerate(old): b.o.cells[16*i]=(8,x); b.o.cells[16*i+8]=(8,NULL)
                for i,x in enumerate((0,16*s,16*cap)): o.cells[at(nb)+8*i]=(8,Ptr(b.o,x))
            g.before[id(o)]=(o,old,at(nb))
        g.proto((vec,deq,pr,size),self.N[w],fix)
    def dims(self,m,a):
        self.sd=m.isym('stateDim',0,2**31-1); self.od=m.isym('obsDim',0,2**31-1); m.store(a[0],4,self.sd); m.store(a[1],4,self.od)
    def index(self,m,a):
        w=a[0]; n=self.col[0 if w>=20 else w].n; n1=n+1 if w==self.grown else n
        i=m.isym('i%d'%w,0,2**31-1)
        m.I.facts.append(n1-1-i); self.idx[w]=i; return i
    def after(self,grown,dn,do,new,ids=True):
        c,m=self.c,self.m; flag=lambda b,l:c.flag(c.const(int(bool(b))),1,l)
        for w in range(4): c.ieq(m,self.res[w],self.col[w].n+(1 if w in grown else 0),'number of '+self.N[w])
        c.ieq(m,self.res[4],self.sd+dn,'dimension of the state'); c.ieq(m,self.res[5],self.od+do,'dimension of the observations')
        w=grown[0]; c.ieq(m,self.res[10],self.col[w].n,'returned id = number of elements before'); c.ieq(m,self.res[11],self.col[w].n,'id of the new element')
        x=self.ptr[10]; same=lambda p,q:isinstance(p,Ptr) and p.o is q.o and p.off==q.off
        flag(same(self.ptr[11],x),'look-up by the new id gives the new element')
        if 12 in self.ptr: flag(same(self.ptr[12],x),'last active node')
        for w in (0,2):
            if w not in self.ptr: continue
            p=self.ptr[w]; i=self.idx[w]
            if w in grown and m.idecide(IC('i==',i-self.col[w].n)): flag(same(p,x),'look-up by id'); continue
            if not isinstance(p,Ptr) or p.o is x.o: flag(0,'look-up by id'); continue
            c.ieq(m,self.col[w].arr.index(p),i,'look-up by id gives the element added with that id')
        changed=[y for y,_,_ in self.lists]
        for w in self.col:
            g=self.col[w]
            for e,p in g.arr.el:
                if any(y.o is p.o for y in changed): continue
                a,b=p.o.elem0,p.o.cells; o0,nb=g.frame[id(p.o)]
                for k in (o0,nb,nb+8,nb+16): flag(self.same(a.get(k),b.get(k)),'id and list of neighbours of the other elements unchanged')
    def same(self,a,b):
        if a is b: return True
        if a is None or b is None: return False
        x,y=a[1],b[1]
        if isinstance(x,Ptr) or isinstance(y,Ptr): return isinstance(x,Ptr) and isinstance(y,Ptr) and x.o is y.o and isint(x.off) and isint(y.off) and x.off==y.off
        return x is y or isint(x-y) and x-y==0
def addnode(mode,dim,q):
    def f(c):
        c.nodiv=True; m=c.amachine(); g=Book(c,m); g.grown=0; c.acall(m,'drv_any_add_node',[mode,dim,q],0)
        g.after((0,1) if mode==0 else (0,),dim if mode==0 else 0,0,None)
    return f
def addfactor(k,dim,eigen,q):
    def f(c):
        c.nodiv=True; m=c.amachine(); g=Book(c,m); g.grown=3 if eigen else 2; c.acall(m,'drv_any_add_factor',[k,dim,eigen,q],0); x=g.ptr[10]
        c.ieq(m,len(g.lists),k,'neighbour nodes'); cnt={}
        for j in range(k):
            p=g.ptr[20+j]; c.ieq(m,g.col[0].arr.index(p),g.idx[20+j],'neighbour nodes in order')
        for p,data,n in g.lists:
            old=g.col[0].before[id(p.o)][1]; occ=sum(q.o is p.o for q,_,_ in g.lists); e=old+[x]*occ; c.ieq(m,n,len(e),'length of the list of factors of the node')
            if isint(n) and n==len(e):
                for i,y in enumerate(e):
                    z=m.load(Ptr(data.o,data.off+16*i),('ptr',)); c.flag(c.const(int(isinstance(z,Ptr) and z.o is y.o)),1,'list of factors: the old ones in order, then the new one')
        g.after((3,) if eigen else (2,),0,dim,None)
    return f
ST='mrob::FGraph::'; DEQ='std::deque::_M_reallocate_map by contract; neighbour lists of nodes have 0 to 2 entries before the call (the number of nodes and factors is arbitrary)'
for _m in (0,1):
    for _q in (1,2): contract('C15','add_node to a graph of any size, %s%s'%(('standard','anchor')[_m],('',', %s looked up'%('','node','factor')[_q])[_q>0]),[ST+'add_node',ST+('','get_node','get_factor')[_q]],GR,AN,assume=[A_prof],nonum=True,sized=('nnodes',1,400,lambda n:book(lscript(7,2*n+4))),assumptions=[VIRT,DEQ])(addnode(_m,3,_q))
for _k in (0,1,2,3):
    for _e in (0,1):
        for _q in ((1,2),(0,))[_k>0]: contract('C15','%s of %d nodes to a graph of any size%s'%(('add_factor','add_eigen_factor')[_e],_k,('',', %s looked up'%('','node','factor')[_q])[_q>0]),[ST+('add_factor','add_eigen_factor')[_e],'mrob::Node::add_factor']+([ST+('','get_node','get_factor')[_q]] if _q else []),GR,AN,assume=[A_prof],nonum=True,sized=('nnodes',1,400,lambda n:book(lscript(7,2*n+4))),assumptions=[VIRT,DEQ])(addfactor(_k,2,_e,_q))
