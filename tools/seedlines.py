"""Do the planted bugs change lines of the original repository?"""
import os, subprocess, re
base = subprocess.check_output(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],text=True).split()[0]
roots = subprocess.check_output(['git','-C','/repo','log','--format=%H %s'],text=True).split('\n')
own = {l.split()[0] for l in roots if ' fix:' in l}
for s in sorted(os.listdir('/verif/seeded')):
    f = None; res = []
    for l in open('/verif/seeded/%s/patch.diff' % s):
        if l.startswith('--- '): f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m.group(1)); continue
        if l.startswith('-') and not l.startswith('---'):
            h = subprocess.check_output(['git','-C','/repo','blame','-l','-L','%d,%d' % (n,n),'HEAD','--',f],text=True).split()[0].lstrip('^')
            res.append(h in own); n += 1
        elif l.startswith(' '): n += 1
    print(s, 'only added' if not res else '%d own of %d' % (sum(res), len(res)) if any(res) else 'ok')
