#!/usr/bin/env python3
"""usage: mut.py FILE.py [NAME...]   Tries edits of /repo against the checks.

FILE.py calls bug(name, prop, edits) and same(name, edits); an edit is (file,
old, new), old occurring once, or (file, None, text) for a new file. A bug has
to be reported by the check of prop; an edit that keeps the behaviour by none.
Only compilation is confirmed here; tools/seedtest.sh does the rest for seeds.
C01 takes long and is run only with C01=1 or for its own bugs."""
import os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UC = os.path.join(V, ".build", "uipcheck")
L = []
def bug(name, prop, edits): L.append((name, prop, edits))
def same(name, edits): L.append((name, None, edits))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")

def run(m):
    name, prop, edits = m
    w = tempfile.mkdtemp(prefix="mut.")
    try:
        r = w + "/r"
        subprocess.check_call(["git", "clone", "-q", "/repo", r])
        for e in edits:
            f, old, new = e
            p = os.path.join(r, f)
            if old is None:
                open(p, "w").write(new); continue
            s = open(p).read()
            if s.count(old) != 1:
                return name, "EDIT", "%s: %d times: %s" % (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        pk = subprocess.run("go build $(go list ./... 2>/dev/null | grep -v generate$)", shell=True, cwd=r, env=ENV, capture_output=True, text=True)
        if pk.returncode:
            return name, "BUILD", pk.stderr
        t = subprocess.run("go test -vet=off -count=1 ./db/query ./ipnet", shell=True, cwd=r, env=ENV, capture_output=True, text=True)
        tests = "" if t.returncode == 0 else " (tests fail)"
        v = w + "/v"; os.mkdir(v); shutil.copy(V + "/known_findings.txt", v)
        ids = os.environ.get("IDS")
        if not ids:
            ids = [i for i in ALL if i not in SLOW or prop == i or os.environ.get("SLOW")]
            ids = ",".join(ids)
        c = subprocess.run([UC, "check", ids, r, v], capture_output=True, text=True)
        hit = [l.split("property=")[1].split()[0] for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        first = {}
        for h in hit:
            f = os.path.join(v, "evidence", h + ".violations.txt")
            first[h] = open(f).read().splitlines()[0]
        txt = " ".join("%s<%s>" % (h, first[h][:230]) for h in hit) + tests
        if c.returncode == 2: txt += " NOANSWER " + c.stderr.strip().splitlines()[-1]
        if prop is None:
            return name, "quiet" if not hit and c.returncode == 0 else "ALARM", txt
        return name, "caught" if prop in hit else "MISSED " + prop, txt
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    subprocess.check_call([V + "/build.sh"])
    ALL = subprocess.run([UC, "check", "?", "x", "x"], capture_output=True, text=True).stderr.split("have ")[1].split()
    SLOW = ["C01"]
    for f in sys.argv[1:]:
        if f.endswith(".py"): exec(open(f).read())
    names = [a for a in sys.argv[1:] if not a.endswith(".py")]
    l = [m for m in L if not names or any(m[0].startswith(n) for n in names)]
    with cf.ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for r in ex.map(run, l):
            print("%-32s %-12s %s" % r, flush=True)
