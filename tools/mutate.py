import os,re,sys,random,subprocess,shutil,json,time,threading,queue
R='/repo'; FILES=['runtime/server.c','runtime/client.c','runtime/arena.c','runtime/hashtable.c','runtime/queue.c','runtime/stack.c','runtime/dispatch_generic.c','runtime/control.c','runtime/shared.c','runtime/server_config.c','runtime/client_config.c','runtime/link/socket/server.c','runtime/link/socket/client.c','runtime/link/socket/shared.c']
def gen():
    out=[]
    for f in FILES:
        L=open(os.path.join(R,f)).read().split('\n'); win=0; depth=0; stack=[]
        for i,l in enumerate(L):
            t=l.strip()
            if t.startswith('#if'): stack.append('WIN32' in t and 'ndef' not in t and '!defined' not in t or 'MOLLENOS' in t and 'ndef' not in t or '__TRACE' in t); continue
            if t.startswith('#else') and stack: stack[-1]=not stack[-1] if 'x' else stack[-1]; continue
            if t.startswith('#endif') and stack: stack.pop(); continue
            if any(stack) or not t or t[0] in '#*/' or 'GRTRACE' in l or 'GRERROR' in l or 'GRWARN' in l or t.startswith('static') or t.startswith('assert'): continue
            def add(n,k):
                if n!=l: out.append((f,i,l,n,k))
            if re.match(r'^\s+[\w\->\.\[\]\*\(\)&]+.*;$',l) and not re.match(r'^\s+(return|break|continue|goto|int|char|struct|void|size_t|uint\w+|unsigned|const|gracht_\w+\s|gr_\w+\s|static|socklen_t|ssize_t|intmax_t|thrd_t|mtx_t)\b.*',l.split('(')[0] if '(' in l.split('=')[0] else l):
                add(re.match(r'^\s*',l).group(0)+';','del')
            elif re.match(r'^\s+(gracht_\w+|gr_\w+|rwlock_\w+|mtx_\w+|cnd_\w+)\(.*;$',l): add(re.match(r'^\s*',l).group(0)+';','del')
            for a,b in ((' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > '),(' == ',' != '),(' != ',' == '),(' && ',' || '),(' || ',' && '),(' + 1',' + 0'),(' - 1',' - 0'),(' + ',' - '),(' - ',' + '),(' & ',' | '),(' % ',' / '),(' << ',' >> '),('++','--'),(' += ',' = '),(' -= ',' = ')):
                for m in re.finditer(re.escape(a),l): add(l[:m.start()]+b+l[m.end():],'op'+a+'>'+b)
            m=re.match(r'^(\s*(?:\} else )?if \()(.*)(\) \{)$',l)
            if m: add(m.group(1)+'0 && ('+m.group(2)+')'+m.group(3),'if0'); add(m.group(1)+'1 || ('+m.group(2)+')'+m.group(3),'if1')
            for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.x])',l):
                v=int(m.group(1)); add(l[:m.start()]+str(v+1)+l[m.end():],'const')
            if re.match(r'^\s+(break|goto \w+|continue);$',l): add(re.match(r'^\s*',l).group(0)+';','del')
            SIMPLE=r'^(\s+)(?!return|break|continue|goto|int |char |struct |void|size_t |uint|unsigned|const|gracht_\w+\s|gr_\w+\s|static|socklen_t|ssize_t|intmax_t|thrd_t|mtx_t|GR)[^{}]*;$'
            a=re.match(SIMPLE,l)
            for dist in (1,2,3):
                b=re.match(SIMPLE,L[i+dist]) if i+dist<len(L) else None
                if not b or not a or a.group(1)!=b.group(1) or L[i+dist]==l: break
                out.append((f,i,l,(dist,L[i+dist]),'swap'))
    return out
M=gen(); M=[m for m in M if not os.environ.get('KIND') or m[4]==os.environ['KIND']]; random.Random(int(os.environ.get('MSEED','1'))).shuffle(M)
if len(sys.argv)<2: print(len(M)); sys.exit()
N=int(sys.argv[1]); SKIP=int(os.environ.get('SKIP','0')); q=queue.Queue(); [q.put((SKIP+k,m)) for k,m in enumerate(M[SKIP:SKIP+N])]
PIDS='C03 C02 C13 C10 C12 C11 C14 C08 C05 C09 C04 C06 C07 C15 C20 C21 C19 C22 C23 C24 C25 C26'.split(); T=os.environ.get('T','6')
log=open('/tmp/mut/results.jsonl','a'); lk=threading.Lock()
def move(src,i,n):
    if isinstance(n,str): src[i]=n
    else: src.insert(i+n[0],src.pop(i))
def worker(w):
    d='/tmp/mut/w%d'%w; shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/tmp'); 
    subprocess.run(['cp','-a','/repo/runtime','/repo/include',d+'/'],check=True); os.makedirs(d+'/repo'); os.rename(d+'/runtime',d+'/repo/runtime'); os.rename(d+'/include',d+'/repo/include')
    os.makedirs(d+'/verif'); subprocess.run(['cp','-a','/verif/vf.py','/verif/harness','/verif/gen',d+'/verif/'],check=True)
    env=dict(os.environ,VF_REPO=d+'/repo',VF_TMP=d+'/tmp')
    while True:
        try: k,(f,i,l,n,kind)=q.get_nowait()
        except queue.Empty: return
        p=os.path.join(d,'repo',f); src=open(os.path.join(R,f)).read().split('\n'); assert src[i]==l; move(src,i,n); open(p,'w').write('\n'.join(src))
        t0=time.time(); res='SURVIVED'; msg=''
        r=subprocess.run(['python3','-c','import vf; vf.CORES=1; vf.build()'],cwd=d+'/verif',env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        if r.returncode: res='NOBUILD'
        else:
            for pid in PIDS:
                rep=d+'/tmp/r.json'
                if os.path.exists(rep): os.unlink(rep)
                try: c=subprocess.run([d+'/verif/.build/harness',pid,'run','--seed','7','--shard','0','--shards','1','--cases',str(1<<40),'--secs',T,'--report',rep,'--fail',d+'/tmp/f'],env=env,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,timeout=120)
                except subprocess.TimeoutExpired: res='KILLED '+pid; msg='timeout'; break
                try: j=json.load(open(rep))
                except Exception: res='NOREPORT '+pid; break
                if j['status']==1: res='KILLED '+pid; msg=j['message'].split('\n')[0][:150]; break
                if j['status']: res='TROUBLE '+pid; msg=j['message'][:200]; break
        shutil.copy(os.path.join(R,f),p)
        with lk: log.write(json.dumps(dict(k=k,file=f,line=i+1,old=l.strip(),new=n.strip() if isinstance(n,str) else 'swap with +%d %s'%(n[0],n[1].strip()),kind=kind,res=res,msg=msg,t=round(time.time()-t0)))+'\n'); log.flush()
ths=[threading.Thread(target=worker,args=(w,)) for w in range(8)]; [t.start() for t in ths]; [t.join() for t in ths]
