#!/usr/bin/env python3
"""bulk.py MODE SEED RATE [ct|tests|Cxx...]: applies one kind of behaviour-preserving edit everywhere in a copy of /repo
(dropping the ones that do not compile) and shows what the contracts / checks say.  Development aid."""
import json, os, re, shutil, subprocess, sys
V = "/verif"
RF = V + "/tools/refactor/target/release/refactor"
mode, seed, rate = sys.argv[1:4]
what = sys.argv[4:] or ["ct"]
d = f"/tmp/bulk/{mode}-{seed}"
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
subprocess.run(f"cd /repo && tar cf - --exclude=target --exclude=.git . | tar xf - -C {d}", shell=True, check=True)
files = [os.path.join(r, f) for c in ("runtime", "compiler", "rinklecate") for r, _, fs in os.walk(f"{d}/{c}/src") for f in fs if f.endswith(".rs")]
orig = {f: open(f).read() for f in files}
dis = f"{d}/disabled"
open(dis, "w").close()
env = dict(os.environ, CARGO_TARGET_DIR=f"/tmp/bulk/target-{mode}", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings")
off = set()
for it in range(25):
    for f, s in orig.items():
        open(f, "w").write(s)
    open(dis, "w").write("\n".join(sorted(off)))
    r = subprocess.run([RF, mode, seed, rate, dis] + files, stdout=subprocess.PIPE, text=True)
    eds = [l.rsplit(" ", 3) for l in r.stdout.splitlines()]
    c = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "-p", "bladeink", "-p", "bladeink-compiler", "-p", "rinklecate"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if c.returncode == 0:
        break
    bad = set()
    for l in c.stdout.splitlines():
        j = json.loads(l)
        if j.get("reason") != "compiler-message" or j["message"]["level"] != "error":
            continue
        for sp in j["message"]["spans"]:
            f = os.path.join(d, sp["file_name"])
            best = None
            for i, ef, a, b in eds:
                if ef == f:
                    dist = 0 if int(a) <= sp["line_end"] and sp["line_start"] <= int(b) else min(abs(int(a) - sp["line_start"]), abs(int(b) - sp["line_start"]))
                    if best is None or dist < best[0]:
                        best = (dist, i)
                    if dist == 0:
                        bad.add(i)
            if best:
                bad.add(best[1])
    if not bad:
        print(c.stderr[-3000:])
        sys.exit(2)
    off |= bad
else:
    print("no convergence")
    sys.exit(2)
print(f"{mode} seed {seed}: {len(eds)} edits, {len(off)} dropped")
env2 = dict(os.environ, VERIF_REPO=d, VERIF_CACHE=f"/tmp/bulk/cache-{mode}", VERIF_EVID=f"/tmp/bulk/ev-{mode}")
for w in what:
    if w == "ct":
        r = subprocess.run(["python3", V + "/tools/ctdiff.py"], env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(r.stdout)
    elif w == "tests":
        r = subprocess.run(["cargo", "test", "--offline"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print([l for l in r.stdout.splitlines() if "FAILED" in l or "failed" in l][:20], sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout)))
    else:
        r = subprocess.run(["python3", V + "/run.py", w, "quick"], env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(w, r.returncode, *[x[:300] for x in r.stdout.splitlines() if x.startswith("  ")][:8], sep="\n   ")
