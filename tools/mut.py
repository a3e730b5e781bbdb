#!/usr/bin/env python3
"""mut.py [name-filter] [-r]: applies each development mutant (or, -r, each behaviour-preserving edit) to a
source copy of /repo and reports what the checks say.  Development aid; no check reads this."""
import json, os, shutil, subprocess, sys, threading, queue
V = "/verif"
sys.path.insert(0, V + "/tools")
W = int(os.environ.get("MUTW", "5"))


def copy(i):
    d = f"/tmp/mut/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["rsync", "-a", "--exclude=target", "--exclude=.git", "--exclude=inkfiles", "/repo/", d + "/"], check=False) if shutil.which("rsync") else \
        subprocess.run(f"cd /repo && tar cf - --exclude=target --exclude=.git --exclude=inkfiles . | tar xf - -C {d}", shell=True, check=True)
    return d


def work(q, i, res, props_all):
    d = copy(i)
    env = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=f"/tmp/mut/cache{i}", VERIF_EVID=f"/tmp/mut/ev{i}")
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            return
        saved = {}
        out = []
        try:
            for f, a, b in m["edits"]:
                p = os.path.join(d, f)
                s = open(p).read()
                saved.setdefault(p, s)
                if a not in s:
                    out.append(f"EDIT DOES NOT APPLY {f}: {a[:50]!r}")
                    break
                open(p, "w").write(s.replace(a, b, m.get("n", 1)))
            else:
                for pr in m["props"] or props_all:
                    r = subprocess.run(["python3", V + "/run.py", pr, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    l = [x for x in r.stdout.splitlines() if x.startswith("  ")]
                    if r.returncode not in (0, 1):
                        l = r.stdout.splitlines()[-4:]
                    out.append((pr, r.returncode, [x.strip()[:200] for x in l[:2]]))
        finally:
            for p, s in saved.items():
                open(p, "w").write(s)
        with lock:
            print(("OK  " if all(isinstance(o, tuple) and o[1] == m["expect"] for o in out) else "BAD ") + m["name"], *[o for o in out if not (isinstance(o, tuple) and o[1] == 0 and m["expect"] == 0)], flush=True)


lock = threading.Lock()


def main():
    pats = [a for a in sys.argv[1:] if not a.startswith("-")]
    ref = "-r" in sys.argv
    import mutants
    props_all = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
    q = queue.Queue()
    for m in (mutants.REFACTORS if ref else mutants.MUTANTS):
        nm, props, edits = m[:3]
        if pats and not any(p in nm or p in props for p in pats):
            continue
        if ref and pats and any(p.startswith("C") for p in pats):
            props = [p for p in pats if p.startswith("C")]
        q.put({"name": nm, "props": props, "edits": edits, "expect": 0 if ref else 1, "n": m[3] if len(m) > 3 else 1})
    ts = [threading.Thread(target=work, args=(q, i, None, props_all)) for i in range(min(W, q.qsize()))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
