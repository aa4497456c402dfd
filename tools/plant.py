#!/usr/bin/env python3
"""plant.py ID...: validates /verif/seeded/ID: the patch applies to /repo's
HEAD, touches original lines, builds, passes the tests; the demo passes
without it and fails with it. Works in scratch copies under /tmp."""
import sys,os,subprocess,json,shutil,re,tempfile
BASE='598322a'
def sh(cmd,cwd=None,timeout=400):
    p=subprocess.run(['bash','-c','. /opt/vp/env.sh; '+cmd],cwd=cwd,capture_output=True,text=True,timeout=timeout)
    return p.returncode,p.stdout+p.stderr
def original_lines(patch):
    """does the patch remove or follow an original line"""
    touched=0
    f=None
    for l in open(patch):
        if l.startswith('--- '): f=l[4:].strip()[2:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m: ln=int(m[1]); continue
        if l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): continue
        if l.startswith('-'):
            rc,o=sh(f'git blame -s -L {ln},{ln} {f}','/repo')
            if o.lstrip('^').startswith(BASE): touched+=1
            ln+=1
        elif l.startswith(' '): ln+=1
    return touched
ok=True
for i in sys.argv[1:]:
    d='/verif/seeded/'+i
    t=tempfile.mkdtemp(prefix='plant')
    try:
        r=t+'/repo'
        sh(f'cp -a /repo {r}; git -C {r} checkout -q -- .')
        demo=t+'/demo'; shutil.copytree(d,demo,ignore=shutil.ignore_patterns('*.diff','meta.json'))
        def rundemo():
            # the demo names no path: run it in the copy
            return sh(f'bash {demo}/demo.sh',r)
        rc0,o0=rundemo()
        rc,o=sh(f'git apply {d}/patch.diff',r)
        if rc: print(i,'DOES NOT APPLY',o); ok=False; continue
        rb,ob=sh('go build ./...',r)
        rt,ot=sh('go test -count=1 ./...',r)
        rc1,o1=rundemo()
        n=original_lines(d+'/patch.diff')
        meta=json.load(open(d+'/meta.json'))
        good = rc0==0 and rb==0 and rt==0 and rc1!=0 and n>0
        print(i,meta['property'],'OK' if good else 'BAD',dict(clean=rc0,build=rb,test=rt,bug=rc1,orig=n))
        if not good:
            ok=False
            print((o0 if rc0 else '')[-1500:],(ob if rb else '')[-1500:],(ot if rt else '')[-1500:],o1[-500:] if rc1==0 else '')
    finally:
        shutil.rmtree(t,ignore_errors=True)
sys.exit(0 if ok else 1)
