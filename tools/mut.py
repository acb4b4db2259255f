"""
Development aid: run checks against a scratch copy of /repo/src with a text change.
  python3 tools/mut.py 'S02 S04' FILE OLD NEW      (OLD must occur; first occurrence)
  python3 tools/mut.py S02 --git REV               (the sources of another revision)
"""
import os, shutil, subprocess, sys, tempfile

def main():
    ids = sys.argv[1].split()
    d = tempfile.mkdtemp(prefix="zkapmut-", dir="/dev/shm")
    try:
        src = d + "/src"
        shutil.copytree("/repo/src", src, ignore=shutil.ignore_patterns("__pycache__"))
        if sys.argv[2] == "--git":
            subprocess.run("git -C /repo archive %s src | tar -x -C %s" % (sys.argv[3], d), shell=True, check=True)
        elif sys.argv[2] == "--patch":
            subprocess.run(["git", "apply", "--directory", "", os.path.abspath(sys.argv[3])], cwd=d, check=True)
        else:
            p = os.path.join(src, "_zkapauthorizer", sys.argv[2])
            s = open(p).read()
            a, b = sys.argv[3].replace("\\n", "\n"), sys.argv[4].replace("\\n", "\n")
            assert s.count(a) >= 1, "not found"
            open(p, "w").write(s.replace(a, b, 1))
        for i in ids:
            r = subprocess.run(["/verif/check.sh", i], env=dict(os.environ, ZKAP_SRC=src), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out = r.stdout.splitlines()
            keep = [l for l in out if l.startswith(("what:", "scenario:", "VIOLATION", "OK"))] or out[-8:]
            print(i, "exit", r.returncode, "|", " | ".join(keep))
    finally:
        shutil.rmtree(d)

main()
