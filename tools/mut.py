#!/usr/bin/env python3
"""mut.py worker N file...   automatic mutants; results to /tmp/mut/res.jsonl"""
import sys, os, re, json, subprocess, random, hashlib, fcntl, time
REPO='/tmp/mut/base'
CHECKS={'src/engine.rs':['C13','C15','C01','C12','C05','C06','C07','C08','C16','C14','C02','C04','C17','C23','C11','C09','C10','C03','C19'],
'src/macros.rs':['C23','C01','C15'],
'src/reflect.rs':['C11','C09','C17'],'src/parse_val.rs':['C17'],
'src/catalog/collections.rs':['C18','C20','C22','C19','C21'],
'src/catalog/trie.rs':['C21'],'src/catalog/bitstring.rs':['C21']}
def code_lines(f):
    L=open(os.path.join(REPO,f)).read().split('\n')
    skip=set(); depth=0
    intest=False; blk=False
    for i,l in enumerate(L):
        s=l.strip()
        if '/*' in s and '*/' not in s: blk=True
        if blk or s.startswith('//') or s=='' or s.startswith('*') or s.startswith('#'): skip.add(i)
        if '*/' in s: blk=False
        if f=='src/engine.rs' and (s.startswith('#[test]') or i>=2690): skip.add(i)
        if '#[test]' in s: intest=True
        if intest: skip.add(i)
        if 'println!' in s or 'panic!' in s: skip.add(i)
    return L,skip
def mutants(f):
    L,skip=code_lines(f); out=[]
    def add(i,new,op):
        if new!=L[i]: out.append((i,L[i],new,op))
    for i,l in enumerate(L):
        if i in skip: continue
        c=l.split('//')[0]; rest=l[len(c):]
        for pat,rep in [(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' > ',' >= '),(r' <= ',' < '),(r' >= ',' > '),
                        (r'\btrue\b','false'),(r'\bfalse\b','true'),(r' && ',' || '),(r' \|\| ',' && '),
                        (r' \+ ',' - '),(r' - ',' + '),(r'\bSome\(([a-z_0-9]+)\)(?! *=>)','None'),(r'! ?(?=[a-z(])',''),
                        (r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'\.any\(','.all('),
                        (r'::Observe','::Allocate'),(r'::Allocate','::Observe'),(r'Naive\b','Eager'),(r'Eager\b','Naive'),
                        (r'\.last\(\)','.first()'),(r'\.last_mut\(\)','.first_mut()'),(r'ForkL','ForkR'),(r'ForkR','ForkL'),
                        (r'\bLeft\b','Right'),(r'\bRight\b','Left'),(r'true\b','false')]:
            for m in re.finditer(pat,c):
                add(i,c[:m.start()]+re.sub(pat,rep,m.group(0))+c[m.end():]+rest,'op')
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',c):
            add(i,c[:m.start()]+str(int(m.group(1))+1)+c[m.end():]+rest,'num')
            if int(m.group(1))>0: add(i,c[:m.start()]+str(int(m.group(1))-1)+c[m.end():]+rest,'num')
        s=c.strip()
        if re.match(r'^[^{}]*;$',s) and not re.match(r'(let|use|return|pub|type|mod|fn|extern)\b',s) and s.count('(')==s.count(')') and s!=';':
            add(i,'/*deleted*/','del')
        m=re.search(r'\bif (?!let)([^{}]+?) \{',c)
        if m:
            for v in ('true','false'): add(i,c[:m.start(1)]+v+c[m.end(1):]+rest,'if')
        # swap two adjacent simple arguments
        for m in re.finditer(r'(?<=[(,])( *&?\w+)( *, *)(&?\w+)(?= *[,)])',c):
            add(i,c[:m.start()]+m.group(3)+m.group(2)+m.group(1)+c[m.end():]+rest,'swap')
        # identifier replaced by another of the same line
        ids=[m for m in re.finditer(r'(?<![\w.:\'"!])([a-z_]\w*)(?![\w(!:])',c)]
        names=sorted(set(m.group(1) for m in ids)-{'let','mut','ref','if','else','match','fn','return','move','for','in','self','as','true','false','use','pub','where','impl','dyn','while','static','unsafe','type','mod','struct','enum','trait','crate','const','super'})
        for m in ids:
            if m.group(1) not in names: continue
            for n in names:
                if n!=m.group(1) and (abs(len(n)-len(m.group(1)))<=2 and (n[0]==m.group(1)[0] or len(n)<=2) ):
                    add(i,c[:m.start()]+n+c[m.end():]+rest,'id')
    seen=set(); o=[]
    for x in out:
        k=(x[0],x[2])
        if k not in seen: seen.add(k); o.append(x)
    return o
def sh(c,t,**k):
    p=subprocess.Popen(c,shell=True,start_new_session=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,**k)
    try: out,_=p.communicate(timeout=t); return p.returncode,out.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
def main():
    w=int(sys.argv[2]); nw=int(sys.argv[3]); files=sys.argv[4:]
    W='/tmp/mut/w%d'%w; R=W+'/repo'; M=W+'/mc'; V=W+'/v'
    os.makedirs(V+'/evidence',exist_ok=True); os.makedirs(V+'/replays',exist_ok=True)
    sh('rm -rf %s %s; cp -a /tmp/mut/base %s; cp -a /tmp/mut/basemc %s; cp /verif/known_findings.txt %s/; sed -i s,\\"/repo\\",\\"%s\\", %s/Cargo.toml; cp /verif/known_findings.txt %s'%(R,M,R,M,V,R,M,V),300)
    cores='%d-%d'%(w*8//nw,(w+1)*8//nw-1)
    base=dict(os.environ,RUSTUP_TOOLCHAIN='stable',CARGO_NET_OFFLINE='true',RUST_BACKTRACE='0',CARGO_TERM_COLOR='never')
    tenv=dict(base,CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_TARGET_DIR=W+'/tt')
    menv=dict(base,CARGO_TARGET_DIR=W+'/mt',MC_ROOT=V,MC_KNOWN=V+'/known_findings.txt',VERIF_SEED='1',VERIF_TIER='quick')
    b=json.load(open('/opt/vp/BASELINE.json')); st=set(b['stable'] if 'stable' in b else b)
    done=set()
    if os.path.exists('/tmp/mut/res.jsonl'):
        for l in open('/tmp/mut/res.jsonl'): d=json.loads(l); done.add(d['key'])
    work=[]
    for f in files:
        for (i,o,n,op) in mutants(f):
            key=hashlib.sha1((f+str(i)+o+n).encode()).hexdigest()[:12]
            work.append((key,f,i,o,n,op))
    random.Random(7).shuffle(work)
    work=[x for j,x in enumerate(work) if int(x[0],16)%nw==w]
    print(len(work),flush=True)
    for (key,f,i,o,n,op) in work:
        if key in done: continue
        if os.path.exists('/tmp/mut/stop'): return
        p=os.path.join(R,f); src=open(os.path.join(REPO,f)).read().split('\n')
        if src[i]!=o: print('moved'); continue
        src[i]=n; open(p,'w').write('\n'.join(src))
        res={'key':key,'file':f,'line':i+1,'old':o.strip(),'new':n.strip(),'op':op}
        t0=time.time()
        rc,out=sh('taskset -c %s cargo check --offline --lib 2>&1 | grep -c "^error" ; exit ${PIPESTATUS[0]}'%cores,120,cwd=R,env=tenv,executable='/bin/bash')
        if rc!=0: res['r']='nobuild'
        else:
            rc,out=sh('taskset -c %s timeout 60 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > %s/t.log 2>&1; python3 /opt/vp/results.py %s/t.json cargo:%s/t.log'%(cores,W,W,W),120,cwd=R,env=tenv)
            try: missing=sorted(st-set(json.load(open(W+'/t.json'))['passed']))
            except Exception: missing=['?']
            if missing: res['r']='tests'
            else:
                rc,out=sh('ulimit -v 12000000; taskset -c %s cargo build --release --offline --locked'%cores,400,cwd=M,env=menv)
                if rc!=0: res['r']='mcnobuild'; res['out']=out[-1500:]
                else:
                    res['r']='SURVIVED'; res['odd']=[]
                    for c in CHECKS[f]:
                        rc,out=sh('ulimit -v 6000000; taskset -c %s %s/mt/release/mc check %s'%(cores,W,c),600,env=menv,executable='/bin/bash')
                        if rc==1 and 'VIOLATION' in out: res['r']='caught'; res['by']=c; break
                        if rc!=0: res['odd'].append([c,rc,out[-300:]])
        res['s']=round(time.time()-t0,1)
        open(p,'w').write(open(os.path.join(REPO,f)).read())
        with open('/tmp/mut/res.jsonl','a') as fo:
            fcntl.flock(fo,fcntl.LOCK_EX); fo.write(json.dumps(res)+'\n')
if sys.argv[1]=='count':
    for f in CHECKS: 
        m=mutants(f); print(f,len(m),{o:sum(1 for x in m if x[3]==o) for o in set(x[3] for x in m)})
else: main()
