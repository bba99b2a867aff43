#!/usr/bin/env python3
"""plant.py ID: development helper for planted bugs (never run by a check).

plant.py new ID PROP FILE OLD NEW NEEDS BREAKS   make seeded/ID/patch.diff + meta.json (demo.sh is written by hand)
plant.py demo ID                                 run the demonstration on the unchanged tree and on a patched scratch copy
plant.py tests ID                                run the stable tests on a patched scratch copy
plant.py check ID                                apply the patch in /repo, run the property's check, undo
"""
import json, os, shutil, subprocess, sys, tempfile
S = "/verif/seeded"


def scratch(i):
    d = tempfile.mkdtemp(prefix="plant-")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["git", "-C", d + "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
    return d


def env(r):
    e = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", ARRAY_BACKEND="all", JAX_PLATFORMS="cpu", MPLBACKEND="Agg")
    return e


def main():
    cmd, i = sys.argv[1:3]
    if cmd == "new":
        prop, f, old, new, needs, breaks = sys.argv[3:9]
        d = tempfile.mkdtemp(prefix="plant-")
        try:
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
            subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
            p = f"{d}/repo/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (s.count(old), old)
            open(p, "w").write(s.replace(old, new))
            out = subprocess.run(["git", "-C", d + "/repo", "diff"], capture_output=True, text=True, check=True).stdout
            os.makedirs(f"{S}/{i}", exist_ok=True)
            open(f"{S}/{i}/patch.diff", "w").write(out)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{S}/{i}/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
    elif cmd == "demo":
        d = scratch(i)
        try:
            for tag, r in (("unchanged", "/repo"), ("patched", d + "/repo")):
                p = subprocess.run(["bash", f"{S}/{i}/demo.sh"], cwd=r, env=env(r), capture_output=True, text=True)
                print(i, tag, p.returncode, (p.stdout + p.stderr)[-300:])
        finally:
            shutil.rmtree(d)
    elif cmd == "tests":
        d = scratch(i)
        try:
            r = d + "/repo"
            ps = []
            for nm, a in (("core", ["tests/core", "--benchmark-disable"]), ("regression", ["tests/regression", "--benchmark-disable"]), ("doctest", ["--doctest-plus", "glass"])):
                ps.append(subprocess.Popen(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors",
                                            "-o", "junit_family=xunit2", f"--junitxml={d}/{nm}.xml", *a], cwd=r, env=env(r), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
            for p in ps:
                p.wait()
            subprocess.run(["python3", "/opt/vp/results.py", d + "/out.json", f"junit:{d}/*.xml"], capture_output=True)
            got = set(json.load(open(d + "/out.json"))["passed"])
            want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            print(i, "tests:", "ok" if want <= got else f"FAILED {len(want - got)}: {sorted(want - got)[:5]}")
        finally:
            shutil.rmtree(d)
    elif cmd == "check":
        prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
        subprocess.run(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"], check=True)
        try:
            p = subprocess.run(["python3-vt", "/verif/check.py", prop, *sys.argv[3:]], capture_output=True, text=True)
            print(i, "exit", p.returncode)
            print(p.stdout[-1500:], p.stderr[-500:])
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)


main()
