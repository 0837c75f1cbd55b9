#!/usr/bin/env python3
# mutate.py FILE [N]: development only. Applies each small change listed in FILE to a scratch copy of /repo and says whether the check of its property notices.
#   === C18 path/of/file   [a remark]
#   <<<<
#   old text (must occur exactly once)
#   ====
#   new text
#   >>>>
# or, shorter: "@ C18 path/of/file" and then lines "remark | old ==> new" ("\\n" is a line break; "remark #2" means the second occurrence)
import re,sys,os,subprocess,shutil,threading,queue
src=open(sys.argv[1]).read(); n=int(sys.argv[2]) if len(sys.argv)>2 else 3
items=[m for m in re.finditer(r'^=== (\S+) (\S+)(.*)\n((?:<<<<\n(?:.|\n)*?\n====\n(?:.|\n)*?>>>>\n?)+)',src,re.M)]
items=[(m[1],m[2],m[3].strip(),[(e[1],e[2].rstrip('\n'),0) for e in re.finditer(r'<<<<\n((?:.|\n)*?)\n====\n((?:.|\n)*?)>>>>\n?',m[4])]) for m in items]
cur=None
for l in src.split('\n'):
    if l.startswith('@ '): cur=l.split()[1:3]
    elif l.startswith('=== '): cur=None
    elif cur and ' | ' in l and ' ==> ' in l:
        rem,b=l.split(' | ',1); old,new=b.split(' ==> ',1); k=re.search(r' #(\d+)$',rem)
        items.append((cur[0],cur[1],rem,[(old.replace('\\n','\n'),new.replace('\\n','\n'),int(k[1]) if k else 0)]))
only=os.environ.get('ONLY')
if only: items=[m for m in items if re.search(only,m[2]+' '+m[1])]
base=f'/tmp/mut/{os.getpid()}'; os.makedirs(base)
def copy(i):
    d=f'{base}/w{i}'
    subprocess.run(['rsync','-a','--delete','--exclude','node_modules','--exclude','.git',os.environ.get('FROM','/repo')+'/',d+'/'],check=True)
    os.symlink('/repo/lib/digitraffic-common/node_modules',d+'/lib/digitraffic-common/node_modules')
    return d
q=queue.Queue(); res={}
for k,m in enumerate(items): q.put((k,m))
def work(i):
    d=copy(i)
    while True:
        try: k,m=q.get_nowait()
        except queue.Empty: return
        prop,f,rem,edits=m
        p=os.path.join(d,f); t=o=open(p).read(); bad=None
        for old,new,nth in edits:
            c=t.count(old)
            if (c!=1 and not nth) or c<nth: bad=f'old text occurs {c} times: {old[:60]!r}'; break
            if nth:
                at=-1
                for _ in range(nth): at=t.index(old,at+1)
                t=t[:at]+new+t[at+len(old):]
            else: t=t.replace(old,new)
        if bad: res[k]=('BAD',bad); print(k,'BAD',rem or f,bad,flush=True); continue
        open(p,'w').write(t)
        ev=f'{base}/ev{i}'; os.makedirs(ev,exist_ok=True)
        for pr in prop.split(','):
            r=subprocess.run(['node','/verif/bin/check.mjs',pr],capture_output=True,text=True,env={**os.environ,'VERIF_REPO':d,'VERIF_EVID':ev})
            if r.returncode: break
        open(p,'w').write(o)
        s={0:'MISSED',1:'caught'}.get(r.returncode,'BROKEN')
        res[k]=(s,); print(k,s,prop,rem or f,'' if s=='caught' else (r.stdout+r.stderr)[-300:],flush=True)
ts=[threading.Thread(target=work,args=(i,)) for i in range(n)]
[t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(base,ignore_errors=True)
c={}
for v in res.values(): c[v[0]]=c.get(v[0],0)+1
print(c)
