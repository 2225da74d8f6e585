"""Make and test a planted bug

mkseed.py --file FILE: FILE defines SEEDS, a list of {"id", "property", "edits": [[file, old, new]...],
  "demo": python, "needs", "what_it_breaks", "stub": bool}
Confirms: patch applies, demo passes on the unchanged tree and fails with the patch.
mkseed.py --run ID...: runs the owning check (or --check Cxx) against a copy with the patch
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
DEMO = """#!/bin/bash
# exit 0 on the unchanged tree, non zero with the change
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
mkdir -p "$scratch/mpl" "$scratch/pyc" "$scratch/work"
export MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin OPENBLAS_NUM_THREADS=1 SCRATCH="$scratch/work"
export PYTHONPATH="$PWD{stub}"
timeout 250 /opt/venv/bin/python "$here/demo.py"
exit $?
"""


def copy_repo():
    tmp = Path(tempfile.mkdtemp(prefix="seed"))
    shutil.copytree(REPO, tmp / "repo", ignore=shutil.ignore_patterns(".git", "__pycache__", "docs", "examples"))
    return tmp


def run_demo(folder, cwd):
    with tempfile.TemporaryDirectory() as tmp:
        there = Path(tmp) / "demo"
        shutil.copytree(folder, there)
        for p in list(there.glob("*.diff")) + [there / "meta.json"]:
            p.unlink()
        env = {"PATH": os.environ["PATH"], "HOME": "/root"}
        return subprocess.run(["bash", str(there / "demo.sh")], cwd=cwd, env=env,
                              capture_output=True, text=True)


def make(args):
    scope = {}
    exec(Path(args.file).read_text(), scope)
    for spec in scope["SEEDS"]:
        if not args.only or spec["id"] in args.only:
            make_one(args, spec)


def make_one(args, spec):
    folder = VERIF / "seeded" / spec["id"]
    if folder.exists():
        shutil.rmtree(folder)
    folder.mkdir(parents=True)
    tmp = copy_repo()
    try:
        work = tmp / "repo"
        orig = tmp / "orig"
        shutil.copytree(work, orig)
        for name, old, new in spec["edits"]:
            path = work / name
            text = path.read_text()
            assert text.count(old) == 1, (name, text.count(old), old)
            path.write_text(text.replace(old, new))
        diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "orig", "repo"], cwd=tmp,
                              capture_output=True, text=True).stdout
        diff = diff.replace("orig/", "a/").replace("repo/", "b/")
        (folder / "patch.diff").write_text(diff)
        subprocess.check_call(["git", "-C", str(REPO), "apply", "--check", str(folder / "patch.diff")])
        (folder / "demo.py").write_text(spec["demo"])
        stub = ""
        if spec.get("stub", True):
            shutil.copytree(VERIF / "rt" / "stubs", folder / "stubs")
            stub = ":$here/stubs"
        (folder / "demo.sh").write_text(DEMO.replace("{stub}", stub))
        os.chmod(folder / "demo.sh", 0o755)
        (folder / "meta.json").write_text(json.dumps(
            {"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]}, indent=1))
        good = run_demo(folder, orig)
        bad = run_demo(folder, work)
        print(spec["id"], "demo unchanged", good.returncode, "patched", bad.returncode)
        if good.returncode != 0:
            print(good.stdout[-1500:], good.stderr[-1500:])
        if bad.returncode == 0:
            print("NOT DETECTED BY DEMO")
        else:
            print("   ", (bad.stderr.strip().splitlines() or bad.stdout.strip().splitlines() or ["?"])[-1][:200])
        if good.returncode != 0 or bad.returncode == 0:
            return 1
        if args.tests:
            tests(work)
        check(spec["property"], work)
    finally:
        shutil.rmtree(tmp)


def tests(work):
    env = dict(os.environ, PYTHONPATH=f"{VERIF}/rt/stubs:{work}", PATH="/opt/venv/bin:" + os.environ["PATH"],
               PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONPYCACHEPREFIX=str(work.parent / "pyc"))
    out = subprocess.run(["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=work, env=env,
                         capture_output=True, text=True)
    print("    tests:", out.stdout.strip().splitlines()[-1])
    for line in out.stdout.splitlines():
        if line.startswith("FAILED"):
            print("     ", line[:150])


def check(prop, work, seed="1"):
    env = dict(os.environ, RT_REPO=str(work), VERIF_SEED=seed, VERIF_TIER="quick", RT_EVIDENCE=str(work.parent / "ev"))
    out = subprocess.run(["./check.sh", prop], cwd=VERIF, env=env, capture_output=True, text=True)
    lines = out.stdout.strip().splitlines()
    kinds = sorted({line.split()[0] for line in lines if line.startswith("  kind=")})
    print(f"    {prop} exit {out.returncode}", " ".join(kinds)[:300], "|", lines[-1] if lines else out.stderr[-300:])
    return out.returncode


def run(args):
    caught = 0
    for name in args.run:
        folder = VERIF / "seeded" / name
        meta = json.loads((folder / "meta.json").read_text())
        tmp = copy_repo()
        try:
            work = tmp / "repo"
            subprocess.check_call(["git", "apply", str(folder / "patch.diff")], cwd=work)
            print(name)
            if args.tests:
                tests(work)
            if args.demo:
                print("    demo", run_demo(folder, work).returncode)
            for prop in args.check or [meta["property"]]:
                caught += check(prop, work) == 1
        finally:
            shutil.rmtree(tmp)
    print("caught", caught, "of", len(args.run))


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--file", help="python file with a list SEEDS")
    parser.add_argument("--only", nargs="+")
    parser.add_argument("--run", nargs="+")
    parser.add_argument("--check", nargs="+")
    parser.add_argument("--tests", action="store_true")
    parser.add_argument("--demo", action="store_true")
    args = parser.parse_args()
    if args.run:
        return run(args)
    return make(args)


if __name__ == "__main__":
    sys.exit(main())
