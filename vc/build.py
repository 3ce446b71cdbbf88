"""Mechanical extraction: compile /repo's current sources (plus the call drivers of /verif/drivers)
to LLVM IR for the verifier and to a native shared object for replay."""
import threading, os, re, subprocess, tempfile, shutil, concurrent.futures as cf, atexit
REPO=os.environ.get('VERIF_REPO','/repo'); HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC=['-I%s/drivers/pystub'%HERE,'-I%s'%REPO]+['-I%s/src/%s'%(REPO,d) for d in('common','geometry','FGraph','PCRegistration')]+['-I%s/src'%REPO,'-I%s/drivers'%HERE,'-isystem','/usr/include/eigen3']
CF=['-std=gnu++14','-DNDEBUG','-fno-access-control','-w']
IRF=CF+['-DEIGEN_DONT_VECTORIZE','-ffp-contract=off','-fno-math-errno','-fno-exceptions','-fno-threadsafe-statics',
  '-fno-vectorize','-fno-slp-vectorize','-O2','-Xclang','-disable-llvm-passes','-emit-llvm','-S']
NATF=CF+['-O1','-fPIC','-ffp-contract=off']
class BuildError(Exception): pass
_tmp=None; _tlock=threading.Lock()
def tmpdir():
    global _tmp
    with _tlock:
        if _tmp is None: _tmp=tempfile.mkdtemp(prefix='vc_'); atexit.register(shutil.rmtree,_tmp,True)
    return _tmp
def sh(cmd):
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode!=0: raise BuildError(' '.join(cmd)+'\n'+r.stderr[-4000:])
    return r
NOINL=re.compile(r'^(define [^\n]*@"?(_ZNK?4mrob|drv_|_ZSt4endl|_ZStls|_ZNSo|_ZN5EigenlsI|_ZN5Eigen9JacobiSVDI[^(]*7computeE|_ZN5Eigen22SelfAdjointEigenSolverI[^(]*(?:13computeDirectE|7computeI)|_ZN5Eigen8internal15compute_inverseI|_ZN5Eigen8internal27computeProductBlockingSizes|_ZN5Eigen8internal29general_matrix_matrix_product)[^\n]*?)( #\d+)',re.M)
LOST=set()      # call drivers that no longer compile (a member they name is gone): their contracts give no answer
def compile_(cmd,src):
    """cmd(file) -> command.  A driver line that does not compile is dropped; library sources must compile."""
    f=src
    for _ in range(8):
        try: return sh(cmd(f))
        except BuildError as e:
            if not src.startswith(HERE+'/drivers/'): raise
            L=open(f).read().split('\n'); bad={int(n) for n in re.findall(re.escape(f)+r':(\d+):',str(e))}; bad={n for n in bad if n<=len(L) and L[n-1].startswith('DRV ')}
            if not bad: raise
            for n in bad: LOST.add(re.match(r'DRV (\w+)',L[n-1]).group(1)); L[n-1]=''
            f=os.path.join(tempfile.mkdtemp(dir=tmpdir()),os.path.basename(src)); open(f,'w').write('\n'.join(L))
    raise BuildError('driver '+src)
def one_ir(src,tag):
    o=os.path.join(tmpdir(),tag+'.0.ll'); o2=os.path.join(tmpdir(),tag+'.ll')
    compile_(lambda f:['clang++']+IRF+INC+[f,'-o',o],src)
    s=open(o).read()
    s=NOINL.sub(lambda m:m.group(1)+' noinline'+m.group(3),s)
    open(o,'w').write(s)
    sh(['opt-18' if shutil.which('opt-18') else 'opt','-S','-passes=default<O2>','-vectorize-loops=false','-vectorize-slp=false','-unroll-runtime=false','-unroll-allow-partial=false','-disable-loop-idiom-all',o,'-o',o2])
    os.unlink(o)
    return o2
def one_nat(src,tag):
    o=os.path.join(tmpdir(),tag+'.o')
    compile_(lambda f:['g++']+NATF+INC+['-c',f,'-o',o],src); return o
_memo={}; _lock=threading.Lock(); _pool=cf.ThreadPoolExecutor(10)
def once(kind,src,tag):
    with _lock:
        k=(kind,src)
        if k not in _memo: _memo[k]=_pool.submit(one_ir if kind=='ir' else one_nat,src,tag)
        return _memo[k]
def build(sources,drivers,native=True):
    """-> (path of linked IR, path of .so)"""
    sources=[s for s in sources if os.path.exists(os.path.join(REPO,s))]; more=[]
    while True:
        out,so=_build(sources+more,drivers,native)
        if more or not native or not undefined(so): return out,so
        # a definition moved to a file not listed for this contract: take every library source that compiles
        for s in library():
            if s in sources: continue
            try: once('ir',os.path.join(REPO,s),'s_'+s.replace('/','_')).result(); more.append(s)
            except BuildError: pass
        if not more: return out,so
def library():
    return sorted(os.path.relpath(os.path.join(d,f),REPO) for sub in('common','geometry','FGraph','PCRegistration') for d,_,fs in os.walk(os.path.join(REPO,'src',sub)) for f in fs if f.endswith('.cpp') and 'example' not in f and 'PY' not in f and 'py' not in f.lower())
def undefined(so):
    r=subprocess.run(['nm','-D','-u','-C',so],capture_output=True,text=True).stdout
    return [l for l in r.split('\n') if re.search(r'\bmrob::',l) and ' U ' in l]
def _build(sources,drivers,native=True):
    srcs=[(os.path.join(REPO,s),'s_'+s.replace('/','_')) for s in sources]+[(os.path.join(HERE,'drivers',d),'d_'+d) for d in drivers]
    key=re.sub(r'\W','_','_'.join(drivers))+'_%x'%(hash(tuple(sources))&0xffffff)
    fi=[once('ir',s,t) for s,t in srcs]
    fn=[once('nat',s,t) for s,t in srcs] if native else []
    lls=[f.result() for f in fi]
    out=os.path.join(tmpdir(),key+'.all.ll')
    link=shutil.which('llvm-link-18') or 'llvm-link'
    sh([link,'-S']+lls+['-o',out])
    so=None
    if native:
        objs=[f.result() for f in fn]; so=os.path.join(tmpdir(),key+'.so')
        sh(['g++','-shared','-o',so]+objs)
    return out,so
def demangle(names):
    r=subprocess.run([shutil.which('llvm-cxxfilt-18') or shutil.which('llvm-cxxfilt') or 'c++filt'],input='\n'.join(names),capture_output=True,text=True)
    return dict(zip(names,r.stdout.split('\n')))
