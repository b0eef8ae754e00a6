"""mk.py SPEC.py : SPEC defines id, prop, edits=[(file, old, new)], needs, breaks, demo (python source)"""
import sys, os, subprocess, json, shutil, runpy
src = sys.argv[1]
specs = runpy.run_path(src)['SPECS']
only = sys.argv[2:] 
base='0d5fbb3'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
SC='/tmp/sc'
for s in specs:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']
    sh('/bin/rm -rf /tmp/sc; cp -a /repo /tmp/sc')
    ok=True
    for f,old,new in s['edits']:
        p=os.path.join(SC,'src/ocgis',f); t=open(p).read()
        if t.count(old)!=1: print(s['id'],'EDIT matches',t.count(old),repr(old[:60])); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    diff=sh('git diff',cwd=SC).stdout
    # removed lines must be original
    cur=None
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur=sh('git show %s:%s'%(base,l[6:]),cwd=SC).stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur: print(s['id'],'NOT ORIGINAL',l)
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(s['demo'].lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/bash\n. /opt/vp/env.sh\ncd "$(mktemp -d)" || exit 3\ntrap \'rm -rf "$PWD"\' EXIT\npython "$(dirname "$(readlink -f "$SELF")")/demo.py"\n'.replace('cd "$','SELF=$(readlink -f "$0")\ncd "$',1).replace('"$(dirname "$(readlink -f "$SELF")")','"$(dirname "$SELF")"').replace('""/demo','"/demo').replace('"$(dirname "$SELF")"/demo.py"','"$(dirname "$SELF")/demo.py"'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r0=sh('bash %s/demo.sh'%d,cwd='/repo')
    r1=sh('PYTHONPATH=/tmp/sc/src bash %s/demo.sh'%d,cwd=SC)
    print(s['id'],'demo unchanged',r0.returncode,'patched',r1.returncode, r1.stdout.strip().splitlines()[-1:] )
    if r0.returncode: print(r0.stdout[-1500:])
    t=sh('. /opt/vp/env.sh; cd /tmp/sc; PYTHONPATH=/tmp/sc/src python -m pytest -q -p no:cacheprovider --timeout=300 -n 8 -o junit_family=xunit2 --junitxml=/tmp/sc/j.xml src/ocgis/test; /usr/bin/python3 /opt/vp/results.py /tmp/sc/o.json junit:/tmp/sc/j.xml', executable='/bin/bash')
    b=json.load(open('/opt/vp/BASELINE.json')); x=json.load(open('/tmp/sc/o.json'))
    def ps(dd):
        for k in ('passed','pass','stable','tests'):
            if k in dd: return set(dd[k]) if not isinstance(dd[k],dict) else {t for t,v in dd[k].items() if v in('passed','pass',True)}
    print('   tests lost', sorted(ps(b)-ps(x))[:6])
    if '--nocheck' not in sys.argv:
        sh('/bin/rm -rf /tmp/vsc; mkdir /tmp/vsc; cd /verif; cp -a check harness symex props.py known_findings.txt properties.jsonl MANIFEST.json /tmp/vsc/; grep -rl "/repo" /tmp/vsc | xargs sed -i "s#/repo\\b#/tmp/sc#g"')
        c=sh('./check %s --tier quick'%s['prop'],cwd='/tmp/vsc')
        print('   check rc',c.returncode,[l for l in c.stdout.splitlines() if 'VIOLATION' in l][:1] or c.stdout[-300:])
sh('/bin/rm -rf /tmp/sc /tmp/vsc')
