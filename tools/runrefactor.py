"""Apply each behaviour-preserving edit of refactor/ to /repo, run the checks of
the part it touches (all of them with --all), undo. Every check has to be quiet."""
import os, subprocess, sys, time
V='/verif'
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(f[:-5] for f in os.listdir(V+'/refactor') if f.endswith('.diff'))
bad=0
for s in ids:
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout==''
    subprocess.check_call(['git','-C','/repo','apply','%s/refactor/%s.diff'%(V,s)])
    try:
        props=['C%02d'%i for i in (range(1,23) if '--all' in sys.argv else range(1,14) if s.startswith('parser') else range(14,23))]
        for p in props:
            t=time.time()
            r=subprocess.run([sys.executable,V+'/check.py',p],capture_output=True,text=True)
            if r.returncode or 'VIOLATION' in r.stdout:
                bad+=1; print(s,p,'ALARM rc',r.returncode,r.stdout[-600:],r.stderr[-600:],flush=True)
            else: print(s,p,'quiet %.0fs'%(time.time()-t),flush=True)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','--','.'])
sys.exit(bool(bad))
