"""mkref.py NAME FILE <<< OLD ==> NEW blocks: write a refactoring patch (development aid)
stdin: blocks 'FILE path' / '<<<<' old '====' new '>>>>'"""
import subprocess, sys
w = "/tmp/p/repo"
name = sys.argv[1]
dst = sys.argv[2] if len(sys.argv) > 2 else "/verif/meta/refactors/%s.diff" % name
subprocess.run(["git", "-C", w, "fetch", "-q"], check=True)
subprocess.run(["git", "-C", w, "reset", "-q", "--hard", "origin/HEAD"], check=True)
cur, old, new, mode = None, [], [], None
for line in sys.stdin.read().split("\n"):
    if mode is None and line.startswith("FILE "):
        cur = w + "/" + line[5:].strip()
    elif line == "<<<<":
        mode, old, new = "o", [], []
    elif line == "====" and mode == "o":
        mode = "n"
    elif line == ">>>>" and mode == "n":
        s = open(cur).read()
        o, n = "\n".join(old), "\n".join(new)
        if s.count(o) != 1:
            sys.exit("%s: block occurs %d times in %s:\n%s" % (name, s.count(o), cur, o))
        open(cur, "w").write(s.replace(o, n))
        mode = None
    elif mode == "o":
        old.append(line)
    elif mode == "n":
        new.append(line)
d = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
open(dst, "w").write(d)
subprocess.run(["git", "-C", w, "checkout", "-q", "."], check=True)
print(name, len(d.split("\n")), "lines")
