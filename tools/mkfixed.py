# writes the "fixed:" lines of known_findings.txt from the log of /repo
import subprocess
P={}
for p,hs in {
'C18':'c25c258 51d20e8',
'C05':'e6bb841 f62c99b',
'C01':'21c24b2 e090321',
'C02':'50c6fac cd19419 0a34956 c152e36 8f9853b 32b8d90',
'C17':'87095d1 275466c 11056d2 57513cc 09fd7c5 acb80af',
'C20':'0bac01d f80264c fde0e07 4f20c0f cd770b3 f54d699 24c8f0b 5cc3060 b19c893 9823576 e54a937 d41346b 0dfd4dd 6d40c19',
'C10':'5455324 3d1fb07 456b041 1ba638b',
'C23':'4c644e5 06118c1 f538f14',
'C03':'841966e',
'C15':'7596d15',
'C22':'374508a 30ef72f fc35c2b 42bf9c5',
'C07':'ab4c41f 18c3e6f 5830230 72cca95 f18aae4 9b189bd 5c67e85 cd78282 9fba6b5 e8dfddc a781f97 54e2d82',
'C09':'76fc572 4dbb418',
'C13':'e8ca700',
'C16':'13c22c4 6ee2177',
'C11':'efcfc46 0dbf0e1',
'C19':'953f65f 92d5241 8caf151 cf0d477 8a9c238 a1b4db1 01424a7 87afd92 e45aee9',
'C12':'3b751f2 32df796 38763aa d79cb5d b7b3668 c27c1a3 0196639',
'C26':'e21f775 9ade8ef',
'C24':'4aea37a ef80e9b c4a4422',
'C06':'76dab74',
'C28':'fa62560',
'C21':'b2cbd77 2612700 1574503 4e95521 dbd9fd5 57c9b23 91725f0 4e74571',
}.items():
    for h in hs.split(): P[h]=p
out=['# Genuine defects of periscop/openscop found by the checks.',
'#   finding: property=<id> <scenario> | <message>      unrepaired; printed as KNOWN-FINDING, suppresses exactly that signature',
'#   fixed: property=<id> <commit> <what failed>         repaired in /repo; suppresses nothing (the text is that of the repair)']
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    out.append('fixed: property=%s %s %s'%(P[h],h,s[5:]))
open('/verif/known_findings.txt','w').write('\n'.join(out)+'\n')
