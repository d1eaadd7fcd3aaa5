"""helper: python3 - with  from mkbug import bug ; writes seeded/<id>/patch.diff and meta.json"""
import subprocess, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def bug(id, prop, needs, breaks, edits, demo=None, sh=None):
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    subprocess.run('rm -rf /tmp/mkbug; git clone -q /repo /tmp/mkbug', shell=True, check=True)
    for f, a, b in edits:
        p = '/tmp/mkbug/src/joedb/' + f; t = open(p).read()
        assert t.count(a) == 1, (id, f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.run('git -C /tmp/mkbug diff', shell=True, capture_output=True, text=True).stdout)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if demo: open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(sh or open(V + '/tools/demo_template.sh').read())
