import os, json, subprocess, shutil, tempfile, textwrap
V='/verif/seeded/'
def seed(id, prop, edits, needs, breaks, demo, extra=None):
    d=tempfile.mkdtemp(dir='/dev/shm', prefix='mk-')
    try:
        subprocess.check_call(['git','clone','-q','/repo',d+'/r'])
        for f,old,new in edits:
            p=d+'/r/src/_zkapauthorizer/'+f
            s=open(p).read()
            assert s.count(old)==1,(id,f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
            # original lines?
            base=subprocess.check_output(['git','-C','/repo','show','e5dbc9e:src/_zkapauthorizer/'+f]).decode()
            if old not in base: 0 and print('NOTE: old text not in base', id, f)
        diff=subprocess.check_output(['git','-C',d+'/r','diff']).decode()
        o=V+id; os.makedirs(o,exist_ok=True)
        open(o+'/patch.diff','w').write(diff)
        json.dump(dict(property=prop,needs=' '.join(needs.split()),what_it_breaks=' '.join(breaks.split())),open(o+'/meta.json','w'),indent=1)
        open(o+'/demo.py','w').write(textwrap.dedent(demo).lstrip())
        open(o+'/demo.sh','w').write('#!/bin/bash\n# Runs in the repository: exit 0 if the property holds.\nexport HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONPATH=$PWD/src\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(o+'/demo.sh',0o755)
    finally:
        shutil.rmtree(d)
STORE='''
import base64, os, shutil, sys, tempfile
from datetime import datetime, timezone
from functools import partial
from sqlite3 import connect
from _zkapauthorizer.model import VoucherStore, open_database
from _zkapauthorizer.replicate import with_replication

work = tempfile.mkdtemp()
V = base64.urlsafe_b64encode(b"v" * 32)
NOW = datetime(2024, 1, 2, tzinfo=timezone.utc)

def open_store(name="db", replicating=False):
    path = os.path.join(work, name)
    conn = with_replication(open_database(partial(connect, path)), replicating)
    return VoucherStore.from_connection(2**20, lambda: NOW, conn)

def run_now(coro):
    from twisted.internet.defer import Deferred
    out = []
    Deferred.fromCoroutine(coro).addErrback(out.append)
    if out:
        print("FAILED:", out[0].getTraceback())

def finish(ok, why=""):
    shutil.rmtree(work, ignore_errors=True)
    print("property holds" if ok else "BROKEN: " + why)
    sys.stdout.flush()
    os._exit(0 if ok else 1)
'''
