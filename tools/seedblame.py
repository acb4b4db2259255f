"""
Development aid: which planted bugs change lines of the original repository (and not
only lines added by commits of our own)?   python3 tools/seedblame.py
"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
for sid in sorted(os.listdir(HERE + "/seeded")):
    own = orig = 0
    path = old = None
    adds = False
    for line in open("%s/seeded/%s/patch.diff" % (HERE, sid)):
        if line.startswith("diff "):
            old = None
        elif line.startswith("--- "):
            path = line[6:].strip()
            blame = [l[:40] for l in subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "--root", "HEAD", "--", path], capture_output=True, text=True).stdout.split("\n")]
        elif line.startswith("@@"):
            old = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("+++"):
            pass
        elif line.startswith("-"):
            if blame[old - 1].lstrip("^")[:30] == base[:30]:
                orig += 1
            else:
                own += 1
            old += 1
        elif line.startswith("+"):
            adds = True
        elif old is not None and line.startswith(" "):
            old += 1
    print("%-18s removes %d original, %d own%s" % (sid, orig, own, "" if orig else "   <-- additions only" if not own else "   <-- OWN LINES"))
