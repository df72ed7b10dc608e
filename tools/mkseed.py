"""Write and confirm the planted bugs of seeds.py (a tool; no check uses it).

    mkseed.py [--keep-going] [id ...]

For each seed: copy /repo to a scratch directory, apply its edits, require that
they compile, that the repository's stable tests still pass, that the demo passes
on the unchanged tree and fails on the changed one; then write seeded/<id>/.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
from seeds import SEEDS, HEADER  # noqa: E402

ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", HOME="/root")
ENV.pop("PYTHONPATH", None)
SH = """#!/bin/bash
# run with cwd = the pyOTF tree to judge; exit 0 when the property holds
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def run(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=timeout)


def tests(work):
    xml = os.path.join(work, "report.xml")
    r = run([PY, "-m", "pytest", "-q", "-p", "pytest_timeout", "-p", "no:cacheprovider", "--timeout=300",
             "--continue-on-collection-errors", "--doctest-modules", "--junitxml=" + xml, "pyotf/", "tests/"], work)
    os.remove(xml)
    return r.returncode, r.stdout[-1500:]


def one(seed):
    sid = seed["id"]
    work = tempfile.mkdtemp(prefix="seed-")
    tree = os.path.join(work, "repo")
    dst = os.path.join(work, "out")
    os.mkdir(dst)
    try:
        shutil.copytree("/repo", tree, symlinks=True)
        run(["git", "checkout", "-q", "--", "."], tree)
        with open(os.path.join(dst, "demo.py"), "w") as f:
            f.write(HEADER + seed["demo"].strip() + "\n")
        with open(os.path.join(dst, "demo.sh"), "w") as f:
            f.write(SH)
        os.chmod(os.path.join(dst, "demo.sh"), 0o755)
        r = run(["bash", os.path.join(dst, "demo.sh")], tree, 250)
        if r.returncode:
            return sid, False, "demo fails on the unchanged tree: " + r.stderr[-800:]
        for fn, old, new in seed["edits"]:
            p = os.path.join(tree, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return sid, False, f"{fn}: {s.count(old)} matches of {old!r}"
            open(p, "w").write(s.replace(old, new))
        diff = run(["git", "diff"], tree).stdout
        r = run(["bash", os.path.join(dst, "demo.sh")], tree, 250)
        if r.returncode == 0:
            return sid, False, "demo passes on the changed tree"
        why = r.stderr.strip().splitlines()[-1][:200] if r.stderr.strip() else ""
        rc, out = tests(tree)
        if rc:
            return sid, False, "tests fail: " + out
        with open(os.path.join(dst, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(dst, "meta.json"), "w") as f:
            json.dump({"property": seed["property"], "needs": seed["needs"],
                       "what_it_breaks": seed["what"]}, f, indent=1)
            f.write("\n")
        final = os.path.join(ROOT, "seeded", sid)
        if os.path.isdir(final):
            shutil.rmtree(final)
        shutil.copytree(dst, final)
        return sid, True, why
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    want = sys.argv[1:]
    todo = [s for s in SEEDS if not want or s["id"] in want]
    with ThreadPoolExecutor(4) as ex:
        for sid, ok, msg in ex.map(one, todo):
            print("OK  " if ok else "BAD ", sid, msg, flush=True)
