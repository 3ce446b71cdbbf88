from lib import *
OS=['src/common/optimizer.cpp']+GEOM+['src/FGraph/node.cpp','src/FGraph/factor.cpp','src/common/time_profiling.cpp']
D=('opt.cpp',)
OF=lambda *x:['mrob::Optimizer::'+y for y in x]
def A_cout(c,m): pass
def script(meth,it,K,mode='generic'):
    """K >= number of steps the optimiser may make"""
    def f(c):
        c.nodiv=True; la=c.real('lambda',1.0,lo=F(1,10**6)); tol=c.real('tol',.3,lo=F(1,10**9)); W=c.w
        E=[c.real('E%d'%i,1.0,special=(0,.1,.2,.5,1,2)) for i in range(K+1)]; Fd=[c.real('F%d'%i,1.0) for i in range(K+1)]
        if c.mode=='num' and mode=='nan':
            for i in range(1,K+1): E[i].num[c.ex.rng.rand(W.N)<.3]=np.nan
        o=c.call('drv_opt_script',[meth,it,la,tol,K]+E+Fd,5+4*K)
        if c.mode=='num': return script_num(c,meth,it,K,la,tol,E,Fd,o,mode)
        k=int(W.as_const(o[0])); fin=int(W.as_const(o[1])); n=int(W.as_const(o[2]))
        c.flag(c.const(int(k==n)),1,'the reported iterations are the steps made'); c.flag(c.const(int(n<=it)),1,'at most the requested iterations'); c.flag(c.const(int(n>=1)),1,'at least one iteration'); c.eq(o[3],0,'never restores a state that was not saved')
        cur=0; lams=[]
        for j in range(n):
            l,u,x,s=o[5+4*j:9+4*j]; xi=int(W.as_const(x)); c.flag(u,int(meth>0),'damping used by LM only')
            if meth==0: c.flag(c.const(int(xi==j)),1,'Newton keeps every step'); continue
            c.eq(s,x,'state saved before the step'); lams.append(l)
            if j==0: c.eq(l,la,'first damping is the one supplied'); c.flag(c.const(int(xi==0)),1,'starts at the initial state'); cur=0; continue
            rej=c.decide(E[cur]-E[j],'<'); c.flag(c.const(int(xi==(cur if rej else j))),1,'step %d starts from the %s state'%(j+1,'restored' if rej else 'accepted'))
            if rej: c.holds(l-lams[-2],'>','damping grows after a rejection')
            else:
                c.holds(l,'>','damping stays positive'); c.holds(E[cur]-E[j]-tol,'>=','continues only when not converged'); cur=j
        if meth==0:
            c.flag(c.const(int(fin==n)),1,'final state is the last step')
            if n<it:
                a,b=E[n-1]-E[n]-tol,E[n]-E[n-1]-tol; c.holds(a,'<=','stops early only below the tolerance'); c.holds(b,'<=','stops early only below the tolerance')
            return
        rej=c.decide(E[cur]-E[n],'<'); c.flag(c.const(int(fin==(cur if rej else n))),1,'ends at the best accepted state'); c.holds(E[0]-E[fin],'>=','final error is not larger than the initial one')
        if n<it: c.flag(c.const(int(not rej)),1,'stops early only on an accepted step'); c.holds(E[cur]-E[n]-tol,'<','stops early only below the tolerance')
    return f
def script_num(c,meth,it,K,la,tol,E,Fd,o,mode):
    N=c.w.N; A=lambda l:np.stack([x.num for x in l],1); Ev=A(E); Fv=A(Fd); O=A(o); Ex=np.full((N,5+4*K),-7.0); 
    for i in range(N):
        lam=la.num[i]; x=0; n=0; log=[]; e=Ev[i]; t=tol.num[i]; prev=e[0]
        while True:
            log+=[lam if meth else 0.,float(meth>0),float(x),float(x) if meth else -1.]; y=n+1; n+=1; d=prev-e[y]
            if meth==0:
                x=y; prev=e[y]
                if not(abs(d)>t and n<it): break
                continue
            if not d>=0: lam*=2
            else:
                x=y; prev=e[y]
                if d<t: break
                if Fv[i,n]<.25: lam*=2
                if Fv[i,n]>.8: lam*=.25
            if n>=it: break
        Ex[i,:3]=n,x,n; Ex[i,3]=0; Ex[i,4]=lam if meth else np.nan; Ex[i,5:5+len(log)]=log
    mk=lambda j:c.w._mk('spec',(j,),(),Ex[:,j])
    # damping after an accepted step is not prescribed by the property: compare sequences, saved/restored states, counts
    c.eq(o[0],mk(0),'iterations',tol=0); c.eq(o[1],mk(1),'final state',tol=0); c.eq(o[2],mk(2),'steps made',tol=0); c.eq(o[3],c.const(0),'restores only saved states',tol=0)
    for j in range(K):
        b=5+4*j; c.eq(o[b+1],mk(b+1),'damping flag',tol=0); c.eq(o[b+2],mk(b+2),'state before step',tol=0)
        if meth: c.eq(o[b+3],mk(b+3),'saved state',tol=0)
        if meth and j==0: c.eq(o[b],la,'first damping is the one supplied',tol=0)
        if meth and j:
            rej=~((O[:,b+2]==j)) & (O[:,b]!=-7); c.holds(c.w._mk('g',(j,),(),np.where(rej,O[:,b]-O[:,b-4],1.)),'>','damping grows after a rejection',slack=-1e-300)
for _m,_n in((0,'Newton'),(1,'LM spherical'),(2,'LM elliptical')):
    for _it in(1,2,3):
        contract('C19','%s, up to %d iterations, arbitrary error sequence'%(_n,_it),OF('solve','optimize_newton_raphson','optimize_levenberg_marquardt'),OS,D,bounded='%d iterations, all errors, fidelities, damping and tolerance symbolic'%_it,numN=300)(script(_m,_it,_it+1))
    for _it in(5,20,100): contract('C19','%s, up to %d iterations, arbitrary error sequence'%(_n,_it),OF('solve','optimize_newton_raphson','optimize_levenberg_marquardt'),OS,D,nosym=True,bounded='native',numN=200)(script(_m,_it,_it+1))
    if _m: contract('C19','%s with NaN errors'%_n,OF('solve','optimize_levenberg_marquardt'),OS,D,nosym=True,bounded='native',numN=200)(script(_m,8,9,'nan'))
def step(meth,n):
    def f(c):
        c.generic(); la=c.real('lambda',1.0,lo=F(1,1000)); g=c.vec('g',n); H=c.symm('H',n,1.0) if c.mode=='sym' else None
        if H is None:
            r=c.ex.rng; A=r.randn(c.w.N,n,n); M=A@A.transpose(0,2,1)+.2*np.eye(n); v=c.group('H',n*n,lambda:[M[:,i,j] for i in range(n) for j in range(n)],None,norm=False); H=rows(v,n,n)
        o=c.call('drv_opt_step',[meth,n,la]+g+flat(H),2*n+3); dx=o[:n]
        Hd=[[H[i][j] if i!=j else (H[i][j]+la if meth==1 else H[i][j]*(1+la) if meth==2 else H[i][j]) for j in range(n)] for i in range(n)]
        if c.mode=='sym': c.eq(dx,[-x for x in mv(INVn(c,Hd),g)],'dx = -(H + D)^-1 g, D = %s'%('0','lambda I','lambda diag(H)')[meth])
        else: c.eq(mv(Hd,dx),[-x for x in g],'(H + D) dx = -g, D = %s'%('0','lambda I','lambda diag(H)')[meth],tol=1e-7); c.eq(o[n:2*n],dx,'the state is updated by dx once',tol=0); c.eq(o[2*n:2*n+2],[1,1],'one gradient evaluation, one update',tol=0); c.eq(o[2*n+2],la,'damping kept',tol=0)
    return f
for _m,_n in((0,'Newton'),(1,'LM spherical'),(2,'LM elliptical')):
    for _d in(1,2,3,4): contract('C19','%s dense step, dimension %d'%(_n,_d),['mrob::OptimizerDense::optimize_newton_raphson_one_iteration'],OS,D,assume=[E_invX],assumptions=['Eigen MatX::inverse() assumed to be the matrix inverse'],bounded='dimension %d, gradient, Hessian and damping symbolic'%_d,numN=200)(step(_m,_d))
    contract('C19','%s dense step, dimension 12'%_n,['mrob::OptimizerDense::optimize_newton_raphson_one_iteration'],OS,D,nosym=True,bounded='native',numN=50)(step(_m,12))
