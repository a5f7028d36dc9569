#!/usr/bin/env python3
"""mut.py PROPERTY[,..] < spec: try textual changes in scratch copies, in parallel.
spec: python text whose last expression is a list of (file, old, new[, expected exit]) or lists of those."""
import ast, os, subprocess, sys, shutil, threading, queue, tempfile
props = sys.argv[1].split(",")
only = [int(x) for x in sys.argv[2].split(",")] if len(sys.argv) > 2 else None
t = ast.parse(sys.stdin.read())
e = t.body.pop()
g = {}
exec(compile(t, "spec", "exec"), g)
specs = eval(compile(ast.Expression(e.value), "spec", "eval"), g)
q = queue.Queue()
for i, s in enumerate(specs):
    if only is None or i in only:
        q.put((i, s))
lock = threading.Lock()
base = tempfile.mkdtemp(prefix="plymut", dir="/tmp")


def work(w):
    R = "%s/%d" % (base, w)
    os.makedirs(R + "/repos/plywood", exist_ok=True)
    while True:
        try:
            i, sp = q.get_nowait()
        except queue.Empty:
            return
        subprocess.run(["rsync", "-a", "--delete", "/repo/repos/plywood/src", R + "/repos/plywood/"], check=True)
        edits = sp if isinstance(sp, list) else [sp]
        exp = 1
        bad = None
        for ed in edits:
            p = R + "/repos/plywood/src/" + ed[0]
            s = open(p).read()
            if ed[1] not in s:
                bad = "OLD TEXT NOT FOUND %s %r" % (ed[0], ed[1][:60])
                break
            open(p, "w").write(s.replace(ed[1], ed[2], 1))
            if len(ed) > 3:
                exp = ed[3]
        if bad:
            with lock:
                print("#%d *** %s" % (i, bad), flush=True)
            continue
        for prop in props:
            r = subprocess.run(["/verif/check", prop], env=dict(os.environ, PLY_REPO=R, PLY_BCPOOL="1", PLY_EVIDENCE=R + "/ev"), capture_output=True, text=True)
            l = [x for x in (r.stdout + r.stderr).split("\n") if x.strip()]
            v = [x.strip() for x in l if "[" in x and not x.startswith("KNOWN")]
            with lock:
                print("%s #%d %s exit=%d expect=%d %s" % (prop, i, "OK " if r.returncode == exp else "***", r.returncode, exp, (v[:1] or l[-1:])), flush=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(4)]
for x in ts:
    x.start()
for x in ts:
    x.join()
shutil.rmtree(base)
