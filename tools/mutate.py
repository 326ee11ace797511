#!/usr/bin/env python3
"""Mutation sweep: every one-place change of the listed kinds that compiles and
passes the repository's tests, run against the checks (f32 configuration, quick
bounds). Survivors are to be read by hand. Works entirely in scratch copies.

    mutate.py [--lanes 4] [--file src/parser.rs] [--out FILE]
"""
import json, os, queue, re, shutil, subprocess, sys, tempfile, threading, time
V='/verif'
a=sys.argv[1:]
opt=lambda k,d: a[a.index(k)+1] if k in a else d
LANES=int(opt('--lanes','4')); ONLY=opt('--file',''); OUT=opt('--out','/tmp/mutants.jsonl')
FILES=['src/parser.rs']+['src/core/%s.rs'%f for f in 'boundingbox matrix mod normal point ray transform vector'.split()]
PORDER=['C12','C08','C07','C06','C09','C13','C05','C04','C10','C02','C03','C01','C11']
CORDER=['C14','C18','C20','C21','C16','C17','C19','C22','C23','C15']
SUBS=[(r' < ',[' <= ',' > ']),(r' <= ',[' < ']),(r' > ',[' >= ',' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),
 (r'&&',['||']),(r'\|\|',['&&']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \* ',[' / ',' + ']),(r' / ',[' * ']),(r' \+= ',[' -= ']),(r' -= ',[' += ']),
 (r'\*= ',['/= ']),(r'/= ',['*= ']),(r'(?<![\w.])(\d+)(?![\w.])',['N+1','N-1']),(r'(?<![\w.])(\d+)\.(\d*)(?!\w)',['F+1','F0']),
 (r'\.x\b',['.y']),(r'\.y\b',['.z','.x']),(r'\.z\b',['.y']),(r'p_min',['p_max']),(r'p_max',['p_min']),(r'pmin\(',['pmax(']),(r'pmax\(',['pmin(']),
 (r'is_numeric\(\)',['is_ascii_digit()']),(r'is_whitespace\(\)',['is_ascii_whitespace()']),(r'is_alphanumeric\(\)',['is_alphabetic()','is_ascii_alphanumeric()']),
 (r'is_alphabetic\(\)',['is_ascii_alphabetic()','is_alphanumeric()']),(r'\bself\.pos\b',['self.prev_pos']),(r'\bstart_pos\b',['Pos::new(1, 1)']),
 (r'Ok\(true\)',['Ok(false)']),(r'Ok\(false\)',['Ok(true)']),(r'\.floor\(\)',['.round()','.trunc()']),(r'\.ceil\(\)',['.round()','.floor()']),(r'\.abs\(\)',['']),
 (r'-self',['self']),(r'(?<=[\[( ])-(?=[a-z1-9])',['']),(r'\.rev\(\)',['']),(r'\.transpose\(\)',['']),(r'is_empty\(\)',['is_empty() == false']),
 (r'ParserError::Eof\b',['ParserError::Str(String::new())']),(r'self\.next\(\)\?;',['']),(r'let _ = self\.next\(\);',['']),(r'(?<=")([A-Z][a-zA-Z]+)(?=" =>)',['LOWER']),
 (r'(?<=")(integer|float|point2|vector2|bool|string|rgb|xyz|spectrum|blackbody|texture|true|false)(?=" =>)',['UPPER']),
 (r'\.checked_mul\(p\)',['.checked_add(p)']),(r'\brhs\b',['self']),(r'\bother\b',['self']),(r'set_index\(start_index\)',['set_index(start_index + 1)']),
 (r"'\\n'",["'\\r'","'\\t'"]),(r"'n'",["'t'"]),(r"'-'",["'~'"]),(r"'\+'",["'~'"]),(r"'\.'",["','"]),(r"'e'",["'E'"]),(r"'#'",["';'"]),
 (r'\bparse_floats\b',['parse_float_list']),(r'\bm_inv\b',['m']),(r'Spectrum::Rgb',['Spectrum::Xyz']),(r'Spectrum::Xyz',['Spectrum::Rgb']),
]
def strip_tests(s):
    i=s.find('#[cfg(test)]\nmod'); return s if i<0 else s[:i]
def mutants():
    for f in FILES:
        if ONLY and f!=ONLY: continue
        s=open('/repo/'+f).read(); body=strip_tests(s)
        seen=set(); off=0
        for line in body.split('\n'):
            t=line.strip()
            if not t.startswith(('//','#','use ','pub type','type ','mod ','pub mod')):
                for pat,reps in SUBS:
                    for m in re.finditer(pat,line):
                        for r in reps:
                            g=m.group(0)
                            if r=='N+1': r2=str(int(g)+1)
                            elif r=='N-1':
                                if int(g)==0: continue
                                r2=str(int(g)-1)
                            elif r=='F+1': r2=str(float(g)+1)
                            elif r=='F0': r2='0.0' if float(g) else '1.0'
                            elif r=='LOWER': r2=g[0].lower()+g[1:]
                            elif r=='UPPER': r2=g.upper()
                            else: r2=r
                            new=s[:off+m.start()]+r2+s[off+m.end():]
                            if new not in seen and new!=s:
                                seen.add(new)
                                yield f,body[:off].count('\n')+1,g,r2,line.strip(),new
                # whole statement gone
                if t.endswith(';') and not t.startswith(('let ','return','}')) and line.count('(')==line.count(')'):
                    yield f,body[:off].count('\n')+1,t,'(deleted)',t,s[:off]+s[off+len(line):]
            off+=len(line)+1
env=dict(os.environ,RUSTUP_TOOLCHAIN='1.98.1',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',RUSTC_WRAPPER='')
for k in ('RUSTFLAGS','CARGO_TARGET_DIR'): env.pop(k,None)
def sh(c,cwd,t=900,**k):
    try: return subprocess.run(c,shell=True,cwd=cwd,env=dict(env,**k),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',timeout=t)
    except subprocess.TimeoutExpired as e: return subprocess.CompletedProcess(c,124,str(e),'')
q=queue.Queue(); lock=threading.Lock(); out=open(OUT,'a')
done=set()
if os.path.exists(OUT):
    for l in open(OUT):
        try: d=json.loads(l); done.add((d['file'],d['line'],d['from'],d['to'],d.get('col')))
        except Exception: pass
def lane(n):
    base=tempfile.mkdtemp(prefix='mut%d-'%n)
    try:
        sh('cp -a /repo %s/repo'%base,'/')
        for c in ('fw','pchk','mchk'):
            shutil.copytree('%s/%s'%(V,c),'%s/%s'%(base,c),ignore=shutil.ignore_patterns('target'))
            p='%s/%s/Cargo.toml'%(base,c); s=open(p).read().replace('"/repo"','"%s/repo"'%base); open(p,'w').write(s)
        while True:
            try: mu=q.get_nowait()
            except queue.Empty: return
            f,line,g,r,text,new,col=mu
            path='%s/repo/%s'%(base,f); old=open(path).read()
            rec=dict(file=f,line=line,**{'from':g,'to':r,'col':col},text=text)
            try:
                open(path,'w').write(new)
                t=sh('cargo test --offline 2>&1','%s/repo'%base,120)
                if 'error: could not compile' in t.stdout or re.search(r'^error',t.stdout,re.M) and 'test result' not in t.stdout: rec['result']='no-compile'
                elif t.returncode: rec['result']='tests'
                else:
                    crate='pchk' if f.endswith('parser.rs') else 'mchk'
                    b=sh('cargo build --release --offline 2>&1','%s/%s'%(base,crate),300,RUSTFLAGS='--cfg pbrtrs_verif -Awarnings')
                    if b.returncode: rec['result']='harness-no-compile'
                    else:
                        rec['result']='SURVIVED'
                        for p in (PORDER if crate=='pchk' else CORDER):
                            r_=sh('./target/release/%s %s --tier quick --config f32 --threads %d --out %s/o.json'%(crate,p,max(2,8//LANES),base),'%s/%s'%(base,crate),400)
                            if r_.returncode!=0:
                                rec['result']='killed'; rec['by']=p; rec['rc']=r_.returncode; break
            finally:
                open(path,'w').write(old)
            with lock:
                out.write(json.dumps(rec)+'\n'); out.flush()
    finally:
        shutil.rmtree(base,ignore_errors=True)
n=0
for f,line,g,r,text,new in mutants():
    col=n; 
    import hashlib
    col=hashlib.md5(new.encode()).hexdigest()[:8]
    if (f,line,g,r,col) in done: continue
    q.put((f,line,g,r,text,new,col)); n+=1
print(n,'mutants',flush=True)
if '--count' in a: sys.exit()
ts=[threading.Thread(target=lane,args=(i,)) for i in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
