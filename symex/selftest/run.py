#!/usr/bin/env python3
"""Conformance of the symbolic executor: a sample of the paths through programs that use much of the
standard library must observe natively what they observed symbolically. Usage: run.py [number...]"""
import concurrent.futures as cf
import glob
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", ".."))
import check

OUT = os.path.join(check.BUILD, "selftest")
LAST = 41
SKIP = {23: "square roots", 36: "remainders of symbolic floats"}


def build():
    env = check.cargo_env("selftest-ir")
    for f in glob.glob(os.path.join(check.BUILD, "selftest-ir/release/deps/symex_selftest-*.bc")):
        os.unlink(f)
    subprocess.run(["touch", os.path.join(HERE, "src/main.rs")])
    check.sh(["cargo", "rustc", "--release", "--offline", "--", "--emit=llvm-bc", "-Cno-vectorize-loops",
              "-Cno-vectorize-slp", "-Clinker=/bin/true"], cwd=HERE, env=env)
    check.sh(["cargo", "build", "--offline", "--features", "native"], cwd=HERE, env=check.cargo_env("selftest-native"))
    return (glob.glob(os.path.join(check.BUILD, "selftest-ir/release/deps/symex_selftest-*.bc"))[0],
            os.path.join(check.BUILD, "selftest-native/debug/symex_selftest"))


def one(exe, bc, native, i):
    r = check.run_job(exe, bc, ("h_std", [i], "full"), check.time.time() + 100,
                      ["--sample", "20", "--seed", "1", "--max-steps", "1000000000"])
    ok = [s for s in r.get("samples", []) if s["outcome"] == "ok"]
    got = check.replay(native, [("h_std", [i], s["bytes"]) for s in ok], 60)
    bad = [s["bytes"] for s, g in zip(ok, got) if g.get("hash") != s["obs"].rjust(16, "0")]
    return r["complete"] and not bad and bool(ok), "%d: %d paths, %d compared, %d differ %s" % (
        i, r.get("paths", 0), len(ok), len(bad), r["error"][:300])


def main():
    exe = check.build_engine()
    bc, native = build()
    ids = [int(a) for a in sys.argv[1:]] or [i for i in range(LAST + 1) if i not in SKIP]
    fine = True
    with cf.ThreadPoolExecutor(4) as ex:
        for ok, line in ex.map(lambda i: one(exe, bc, native, i), ids):
            fine &= ok
            print(("ok   " if ok else "FAIL ") + line, flush=True)
    return 0 if fine else 1


if __name__ == "__main__":
    sys.exit(main())
