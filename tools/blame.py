#!/usr/bin/env python3
"""blame.py [ID...]: which commits wrote the lines a planted bug removes."""
import subprocess,sys,re,os,collections
ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d=open(f'/verif/seeded/{i}/patch.diff').read()
    f=None;n=0;c=collections.Counter()
    for l in d.splitlines():
        if l.startswith('--- '): f=l[6:]
        elif l.startswith('+++ '): pass
        elif m:=re.match(r'@@ -(\d+)',l): n=int(m[1])
        elif l.startswith('-'):
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-L',f'{n},{n}',f],text=True)
            c['base' if b.startswith('adbae43') or b.startswith('^') else 'mine']+=1; n+=1
        elif l.startswith('+') or l.startswith('\\'): pass
        else: n+=1
    print(i,dict(c))
