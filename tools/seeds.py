#!/usr/bin/env python3
"""Generator of the planted bugs in /verif/seeded (never read by a check).
usage: seeds.py make [ID..]    write patch.diff/demo/meta for the given bugs
       seeds.py try  [ID..]    apply, build, test, demo, run the check, undo"""
import sys,os,json,subprocess,re,time
SEED='/verif/seeded';REPO='/repo'
S={}
def seed(id,prop,needs,breaks,edits,py=None,cpp=None): S[id]=dict(prop=prop,needs=needs,breaks=breaks,edits=edits,py=py,cpp=cpp)
PYH='''import sys, numpy as np, mrob
from numpy.linalg import norm
def check(ok, msg):
    if not ok:
        print("FAIL:", msg); sys.exit(1)
'''
CPPH='''#include <iostream>
#include <cmath>
#include <memory>
#include <random>
#include <vector>
#include <Eigen/LU>
#include <Eigen/Eigenvalues>
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
#include "mrob/optimizer.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
using namespace mrob;
#define CHECK(c,m) do{ if(!(c)){ std::cerr<<"FAIL: "<<m<<std::endl; return 1;} }while(0)
'''
SHPY='''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD/_build/lib exec /usr/bin/python3 "$D/demo.py"
'''
SHCPP='''#!/bin/bash
# run with cwd /repo after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -w -Isrc/common -Isrc/geometry -Isrc/FGraph -Isrc/PCRegistration -isystem /usr/include/eigen3 \\
  "$D/demo.cpp" -L_build/lib -lPCRegistration -lFGraph -lSE3 -lcommon -Wl,-rpath,$PWD/_build/lib -o "$T/demo" || exit 2
"$T/demo"
'''
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seed_defs.py')).read())

def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): sh('git -C /repo checkout -- .')
def apply_edits(s):
    for f,old,new in s['edits']:
        p=os.path.join(REPO,f);t=open(p).read()
        assert t.count(old)==1,(f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
def make(ids):
    for i in ids:
        s=S[i];d=os.path.join(SEED,i);os.makedirs(d,exist_ok=True)
        assert not sh('git -C /repo status --porcelain').stdout,'repo dirty'
        try:
            apply_edits(s);open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
        finally: clean()
        if s['py']: open(d+'/demo.py','w').write(PYH+s['py']);open(d+'/demo.sh','w').write(SHPY)
        else: open(d+'/demo.cpp','w').write(CPPH+s['cpp']);open(d+'/demo.sh','w').write(SHCPP)
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
def run(ids,check=True):
    assert not sh('git -C /repo status --porcelain').stdout,'repo dirty'
    sh('bash /opt/vp/build.sh')
    base={i:sh('timeout 300 bash %s/%s/demo.sh'%(SEED,i),cwd=REPO) for i in ids}
    for i in ids:
        out=['%-4s'%S[i]['prop'],i,'demo0=%d'%base[i].returncode]
        if base[i].returncode: out.append(base[i].stdout[-300:]+base[i].stderr[-300:])
        try:
            r=sh('git -C /repo apply %s/%s/patch.diff'%(SEED,i));assert r.returncode==0,r.stderr
            b=sh('bash /opt/vp/build.sh')
            if b.returncode: print(*out,'BUILD FAILED',b.stdout[-1500:]);continue
            sh('bash /opt/vp/test.sh /tmp/seedtest.json')
            t=json.load(open('/tmp/seedtest.json'));base_ok=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
            out.append('tests '+str(t)[:0]+summ(t))
            d=sh('timeout 300 bash %s/%s/demo.sh'%(SEED,i),cwd=REPO);out.append('demo1=%d %s'%(d.returncode,(d.stdout+d.stderr).strip().splitlines()[-1:] ))
            if check:
                t0=time.time();c=sh('VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s'%S[i]['prop'],cwd='/verif')
                v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                out.append('check=%d %.0fs %s'%(c.returncode,time.time()-t0,v[:2]))
        finally: clean()
        print(*out,flush=True)
    sh('bash /opt/vp/build.sh')
def summ(t):
    r=t.get('results') or t.get('tests') or t
    if isinstance(r,dict) and 'passed' in r and isinstance(r['passed'],list): return '%dp/%df'%(len(r['passed']),len(r.get('failed',[])))
    return json.dumps(t)[:200]
if __name__=='__main__':
    ids=[a for a in sys.argv[2:] if not a.startswith('-')] or list(S)
    ids=[x for x in S if any(x==a or x.startswith(a) for a in ids)]
    if sys.argv[1]=='make': make(ids)
    else: run(ids,'-n' not in sys.argv)
