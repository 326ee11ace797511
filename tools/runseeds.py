"""Apply each planted bug to /repo, run the check of its property (or all, with
--all), undo. Prints one line per bug."""
import json, os, subprocess, sys, time
V='/verif'
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
props=['C%02d'%i for i in range(1,23)]
for s in ids:
    d='%s/seeded/%s'%(V,s)
    if not os.path.exists(d+'/patch.diff'): continue
    own=json.load(open(d+'/meta.json'))['property']
    assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout==''
    subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
    try:
        caught=[]; t=time.time(); msg=''
        for p in (props if '--all' in sys.argv else [own]):
            r=subprocess.run([sys.executable,V+'/check.py',p],capture_output=True,text=True)
            if r.returncode==1 and ('VIOLATION property=%s '%p) in r.stdout:
                caught.append(p)
                if p==own: msg=[l for l in r.stdout.split('\n') if l.startswith('  [')][:1]
            elif r.returncode!=0: caught.append('%s:rc%d'%(p,r.returncode))
        print(s, 'CAUGHT' if own in caught else 'MISSED', own, caught, '%.0fs'%(time.time()-t), str(msg)[:200], flush=True)
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','--','.'])
