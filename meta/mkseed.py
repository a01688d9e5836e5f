"""Write planted bugs from meta/seeds/*.py into seeded/ and try them: python3 meta/mkseed.py [--tests] [ID ...]

A seed file defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
Each is tried in a scratch copy of /repo: the demo must pass before and fail after, and the property's check is run on both.
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--tests" in sys.argv
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, "meta/seeds/*.py"))):
        seeds += runpy.run_path(f)["SEEDS"]
    bad = 0
    for s in seeds:
        if args and not any(s["id"].startswith(a) for a in args):
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix="seed_")
        r = os.path.join(w, "repo")
        sh(["cp", "-a", "/repo", r])
        msgs = []
        for fn, old, new in s["edits"]:
            p = os.path.join(r, fn)
            src = open(p, newline="").read()
            if "\r\n" in src:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if src.count(old) != 1:
                msgs.append(f"EDIT matches {src.count(old)}x in {fn}")
                continue
            open(p, "w", newline="").write(src.replace(old, new))
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"])
        shutil.copy(os.path.join(V, "meta/seedlib/common.py"), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nexport CUDA_VISIBLE_DEVICES="" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=4\n'
                    'here="$(cd "$(dirname "$0")" && pwd)"\nexec ' + PY + ' "$here/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo", timeout=300)
        b = sh(["bash", os.path.join(d, "demo.sh")], cwd=r, timeout=300)
        cp = sh([os.path.join(V, "check"), s["property"], "--repo", r])
        caught = cp.returncode == 1
        ok = a.returncode == 0 and b.returncode != 0 and not msgs
        if tests and ok:
            t = sh([PY, "-m", "compileall", "-q", r + "/dataset", r + "/trainer", r + "/model", r + "/utils"])
            ok = t.returncode == 0
        print(f"{s['id']:44s} demo {'ok' if ok else 'BAD'} check {'CAUGHT' if caught else 'MISSED rc=%d' % cp.returncode} {msgs}")
        if not ok:
            print("  clean:", a.returncode, (a.stdout + a.stderr)[-600:])
            print("  patched:", b.returncode, (b.stdout + b.stderr)[-300:])
        elif "-v" in sys.argv or "--v" in sys.argv:
            print("  patched says:", (b.stdout + b.stderr)[-300:])
            print("  check says:", cp.stdout[-800:])
        bad += not ok
        shutil.rmtree(w)
    return bad


sys.exit(1 if main() else 0)
