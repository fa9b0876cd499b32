"""mkseed.py: build /verif/seeded/<id>; usage in python: seed(id, prop, [(file, old, new)], demo, needs, what)"""
import json, pathlib, subprocess, shutil, tempfile, textwrap, sys
def seed(sid, prop, edits, demo, needs, what):
    d = pathlib.Path('/verif/seeded')/sid
    d.mkdir(parents=True, exist_ok=True)
    tmp = pathlib.Path('/tmp/seedw'); shutil.rmtree(tmp, ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',str(tmp)],check=True)
    for f, old, new in edits:
        p = tmp/f; s = p.read_text()
        assert s.count(old) >= 1, (sid, f, 'old text not found')
        assert s.count(old) == 1, (sid, f, 'old text not unique', s.count(old))
        p.write_text(s.replace(old, new))
    diff = subprocess.run(['git','-C',str(tmp),'diff'],capture_output=True,text=True).stdout
    (d/'patch.diff').write_text(diff)
    (d/'demo.py').write_text(textwrap.dedent(demo).lstrip())
    (d/'demo.sh').write_text('#!/bin/bash\n# exit 0 if the behaviour is as documented\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py" "$PWD"\n')
    (d/'meta.json').write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=what), indent=1)+'\n')
    r = subprocess.run(['bash', str(d/'demo.sh')], cwd=str(tmp), capture_output=True, text=True)
    r0 = subprocess.run(['bash', str(d/'demo.sh')], cwd='/repo', capture_output=True, text=True)
    # tests touching python only
    env = None
    t = subprocess.run('cd %s && ICONTRACT_SLOW=true PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider -x --deselect x -W ignore tests 2>&1 | tail -3; PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider -W ignore --doctest-modules mapry 2>&1 | tail -3' % (tmp,tmp,tmp), shell=True, capture_output=True, text=True)
    print(sid, 'demo orig', r0.returncode, 'patched', r.returncode, '|', t.stdout.replace('\n',' ; ')[-300:])
    if r0.returncode: print(r0.stdout[-600:], r0.stderr[-600:])
    if not r.returncode: print('NOT DETECTED BY DEMO', r.stdout[-300:], r.stderr[-300:])
PRE = "import sys; sys.path.insert(0, sys.argv[1])\n"
