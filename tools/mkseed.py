#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)generates /verif/seeded/<id>/ from tools/seeds/<id>.py and validates it in a scratch copy of /repo.
A seed file defines: prop, pkg ('.' for the root package), edits [(file, old, new)], demo (Go test body), needs, breaks."""
import sys,os,json,subprocess,shutil,tempfile,glob
V='/verif'
ids=sys.argv[1:] or sorted(os.path.basename(f)[:-3] for f in glob.glob(V+'/tools/seeds/*.py') if not os.path.basename(f).startswith('_'))
DEMO='''#!/bin/bash
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cd %(repo)s || exit 2
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"%(excl)s}}" > "$W/o.json"
go test -overlay "$W/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' ./%(pkg)s
'''
fail=0
stable=set(json.dumps(x) for x in [])
for i in ids:
    ns={}
    exec(open(V+'/tools/seeds/_common.py').read(),ns)
    exec(open('%s/tools/seeds/%s.py'%(V,i)).read(),ns)
    d='%s/seeded/%s'%(V,i)
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(prefix='seed')
    r=w+'/repo'
    subprocess.check_call(['cp','-a','/repo',r])
    subprocess.check_call(['git','-C',r,'checkout','-q','--','.'])
    try:
        pk=ns['pkg']
        open(d+'/demo_test.go','w').write(ns['demo'])
        open(d+'/demo.sh','w').write(DEMO%dict(repo='.',pkg=pk,excl=''))
        os.chmod(d+'/demo.sh',0o755)
        json.dump({'property':ns['prop'],'needs':ns['needs'],'what_it_breaks':ns['breaks']},open(d+'/meta.json','w'),indent=1)
        def demo():
            p=subprocess.run(['bash',d+'/demo.sh'],cwd=r,capture_output=True,text=True)
            return p.returncode,p.stdout+p.stderr
        a,ao=demo()
        for f,o,n in ns['edits']:
            s=open(r+'/'+f).read()
            if s.count(o)!=1: raise Exception('%s: %d matches of %r'%(f,s.count(o),o))
            open(r+'/'+f,'w').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',r,'diff'],text=True)
        open(d+'/patch.diff','w').write(diff)
        p=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... && go test -vet=off -count=1 ./... 2>&1'%r,shell=True,executable='/bin/bash',capture_output=True,text=True)
        t='ok' if p.returncode==0 else 'TESTS FAIL'
        b,bo=demo()
        good=a==0 and b!=0 and t=='ok'
        print(i,ns['prop'],'GOOD' if good else 'BAD','base',a,'patched',b,t)
        if not good:
            fail=1
            if a!=0: print(ao[-1500:])
            elif t!='ok': print((p.stdout+p.stderr)[-1500:])
            else: print(bo[-1500:])
    except Exception as e:
        print(i,'ERROR',e); fail=1
    finally:
        shutil.rmtree(w)
sys.exit(fail)
