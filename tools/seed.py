#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy of /repo, and runs checks on it.

  seed.py confirm ID...          patch applies, builds, tests pass, demo tells the two apart
  seed.py check ID [CHECK...]    run the property's check (or the named ones) on the patched copy
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TMP = "/tmp/verif_seed"


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, LC_ALL="C.UTF-8", CC="/usr/bin/clang-18", CXX="/usr/bin/clang++-18", **(env or {}))
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", timeout=timeout)


def copy(name):
    d = f"{TMP}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    r = sh(f"git clone -q /repo {d}")
    assert r.returncode == 0, r.stdout
    return d


def demo(i, d):
    dd = f"{TMP}/demo_{i}"
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", dd)
    for f in ("patch.diff", "meta.json"):
        os.unlink(f"{dd}/{f}")
    r = sh(f"bash {dd}/demo.sh", cwd=d, timeout=300)
    shutil.rmtree(dd)
    return r


def confirm(i):
    d = copy("c_" + i)
    try:
        base = json.load(open("/opt/vp/BASELINE.json"))
        r = demo(i, d)
        if r.returncode != 0:
            return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        r = sh(f"git apply --check {V}/seeded/{i}/patch.diff && git apply {V}/seeded/{i}/patch.diff", cwd=d)
        if r.returncode:
            return "patch does not apply: " + r.stdout
        r = sh(f"cmake -S /opt/vp/cmake -B {d}/_build -G Ninja -DREPO={d} -DCMAKE_BUILD_TYPE=RelWithDebInfo "
               f"'-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g' -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C {d}/_build")
        if r.returncode:
            return "does not build:\n" + r.stdout[-1500:]
        r = sh(f"ctest --test-dir {d}/_build -j8 --timeout 300")
        if r.returncode:
            return "tests fail:\n" + "\n".join(l for l in r.stdout.splitlines() if "Failed" in l or "***" in l)[:1500]
        r = demo(i, d)
        if r.returncode == 0:
            return "demo passes with the patch"
        return f"ok ({r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else ''})"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(i, ids):
    ids = ids or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
    d = copy("k_" + i)
    try:
        r = sh(f"git apply {V}/seeded/{i}/patch.diff", cwd=d)
        assert r.returncode == 0, r.stdout
        for c in ids:
            r = sh(f"python3 tools/check.py {c}", cwd=V, env={"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            last = [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2]
            print(f"{i} {c}: rc={r.returncode} {last}", flush=True)
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "confirm":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            print(i, confirm(i), flush=True)
    else:
        check(sys.argv[2], sys.argv[3:])
