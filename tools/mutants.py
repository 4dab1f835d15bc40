#!/usr/bin/env python3
"""Measures what the checks see: applies every small change of tools/mutate (or a sample)
to copies of /repo and runs the checks on it until one reports a violation.
usage: mutants.py OUT SAMPLE_PERCENT WORKERS [regex of file:line]"""
import os, random, re, subprocess, sys, shutil, json
from concurrent.futures import ThreadPoolExecutor, as_completed
out, pct, nw = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rx = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
verif = os.environ.get("VC") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
repo = os.environ.get("REPO", "/repo")
base = "/tmp/mutants"; os.makedirs(base, exist_ok=True)
subprocess.check_call(["go", "build", "-o", base + "/mutate", "."], cwd=verif + "/tools/mutate",
                      env=dict(os.environ, GOFLAGS="", GOWORK="off"))
lst = [l.split("\t") for l in subprocess.check_output([base + "/mutate", "-repo", repo], text=True).splitlines()]
random.seed(5)
lst = [l for l in lst if (not rx or rx.search(l[1]))]
lst = [l for l in lst if random.randrange(100) < pct]
random.shuffle(lst)
done = set()
if os.path.exists(out):
    done = {l.split("\t")[0] for l in open(out)}
plan = [("A01", 2000), ("A03", 800), ("B08", 1000), ("B07", 1500), ("A06", 1200), ("B01", 1200), ("B02", 1500), ("A02", 2000),
        ("A04", 1200), ("A05", 900), ("B03", 1500), ("B04", 1500), ("B05", 900), ("B06", 1200), ("B09", 1500), ("B10", 3000), ("A01", 5000), ("A04", 2500), ("B02", 3000), ("A02", 4000), ("A06", 2500), ("B07", 8000)]
slots = list(range(nw))
def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)
def one(l):
    k = slots.pop()
    try:
        d, b = f"{base}/r{k}", f"{base}/b{k}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(repo, d, ignore=shutil.ignore_patterns(".git"))
        sh([base + "/mutate", "-repo", d, "-apply", l[0]])
        env = dict(os.environ, VSIM_REPO=d, VSIM_BUILD=b, GOMEMLIMIT="2GiB")
        r = sh([verif + "/check.sh", "build"], env=env)
        if r.returncode:
            return l + ["nobuild", r.stderr.strip().replace("\n", " ")[-150:]]
        for p, n in plan:
            try:
                r = sh([b + "/vsim", "check", "-verif", b, "-build", b, "-prop", p, "-runs", str(n), "-workers", "2", "-fast"], env=env, timeout=600)
            except subprocess.TimeoutExpired:
                return l + ["timeout", p]
            if r.returncode == 1:
                return l + ["caught", r.stdout.strip().replace("\n", " ").replace("\t", " ")[-250:]]
            if r.returncode != 0:
                return l + ["trouble", p + " " + r.stderr.strip().replace("\n", " ").replace("\t", " ")[-200:]]
        return l + ["SURVIVED", ""]
    finally:
        slots.append(k)
with open(out, "a") as f, ThreadPoolExecutor(nw) as ex:
    for r in as_completed([ex.submit(one, l) for l in lst if l[0] not in done]):
        r = r.result()
        f.write("\t".join(r) + "\n"); f.flush()
