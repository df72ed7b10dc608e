"""Run each planted bug's check against a scratch copy with the bug applied (a tool; no check uses it).

    runseeds.py [-o OUT] [id or property ...]
"""
import glob, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
want = sys.argv[1:]
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    sid = os.path.basename(d)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    if want and sid not in want and prop not in want:
        continue
    work = tempfile.mkdtemp(prefix="rs-")
    try:
        tree = os.path.join(work, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree, check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=tree, check=True)
        t = time.time()
        r = subprocess.run(["./run.py", prop, "--tier", "quick"], cwd=ROOT, env=dict(os.environ, PYOTF_REPO=tree),
                           capture_output=True, text=True)
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print("%-22s %s exit %d %5.0f s  %s" % (sid, "caught" if r.returncode == 1 and v else "MISSED", r.returncode,
                                              time.time() - t, (v or r.stdout.splitlines()[-1:] or [""])[0][:150]), flush=True)
    finally:
        shutil.rmtree(work)
