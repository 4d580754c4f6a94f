#!/usr/bin/env python3
# mut.py FILE : mutants = blocks  "## name checks...\n file\n<<<<\nold\n====\nnew\n>>>>\n" ; runs checks on each in parallel worktrees
import sys,re,subprocess,os,concurrent.futures as cf,shutil,tempfile
txt=open(sys.argv[1]).read(); only=sys.argv[2:]
muts=[]
for blk in re.split(r'^## ',txt,flags=re.M)[1:]:
    head,rest=blk.split('\n',1); name,*checks=head.split()
    eds=[]
    for m in re.finditer(r'^@(\S+)( \d+)?\n<<<<\n(.*?)\n====\n(.*?)\n?>>>>$',rest,flags=re.M|re.S): eds.append((m[1],m[3],m[4],int(m[2] or 1)))
    muts.append((name,checks,eds))
def run(m):
    name,checks,eds=m
    d=tempfile.mkdtemp(prefix='wt.',dir='/tmp'); out=[]
    try:
        subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
        for f,o,n,c in eds:
            p=f'{d}/r/{f}'; s=open(p).read()
            if s.count(o)!=c: return f'{name}: PATCH count {s.count(o)} {f}'
            open(p,'w').write(s.replace(o,n))
        for c in checks:
            r=subprocess.run(['python3',f'checks/{c}.py'],cwd='/verif',env=dict(os.environ,VERIF_REPO=d+'/r',VERIF_OUT=d),capture_output=True,text=True,timeout=1500)
            v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]; ex=[l for l in r.stdout.splitlines()+r.stderr.splitlines() if 'VIOLATION' not in l]
            out.append(f'{name} {c}: rc={r.returncode} {len(v)} viol | '+' | '.join(x.strip()[:230] for x in ex if x.strip())[:430])
    finally: shutil.rmtree(d)
    return '\n'.join(out)
sel=[m for m in muts if not only or m[0] in only]
with cf.ThreadPoolExecutor(int(os.environ.get('J','1'))) as ex:
    for r in ex.map(run,sel): print(r,flush=True)
