"""Build steps: the replay harness and the MIR extraction, both from /repo's current working tree."""
import fcntl
import os
import shutil
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
FEATURES = ["linalg", "dense", "jacobian"]


class BuildError(Exception):
    pass


def _sh(cmd, cwd, env, timeout=1200):
    """Run cmd under the environment build.sh uses; `env` is set after that file has been sourced."""
    sets = "".join("export %s='%s'; " % kv for kv in env.items())
    # cargo compares mtimes; without its fingerprint the crate is always rebuilt from the current text
    for base, dirs, _ in os.walk(env["CARGO_TARGET_DIR"]):
        if os.path.basename(base) == ".fingerprint":
            for d in dirs:
                if d.startswith("cyphus-diffeq-") or d.startswith("replay-"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []
        elif base.count(os.sep) - env["CARGO_TARGET_DIR"].count(os.sep) >= 2:
            dirs[:] = []
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; %scd '%s' && %s" % (sets, cwd, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_replay():
    """Returns (path of the binary, features that compiled). Hooks that no longer compile are dropped."""
    with locked("replay"):
        tries = [FEATURES] + [[f for f in FEATURES if f != x] for x in FEATURES] \
            + [[x] for x in FEATURES] + [[]]
        err = ""
        for feats in tries:
            env = {}
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "replay")
            env["RUSTFLAGS"] = " ".join('--cfg cyphus_verif="%s"' % f for f in feats) + " -Awarnings"
            cmd = "cargo build --offline --release"
            if feats:
                cmd += " --features " + ",".join(feats)
            p = _sh(cmd, os.path.join(HERE, "replay"), env)
            if p.returncode == 0:
                return os.path.join(BUILD, "replay", "release", "replay"), feats
            err = p.stderr
        raise BuildError("replay harness does not build:\n" + err[-4000:])


def extract_mir():
    """Dump the MIR of the library of the current tree; returns (text, seconds)."""
    t0 = time.time()
    with locked("mir"):
        env = {}
        env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "mir")
        env["RUSTC_BOOTSTRAP"] = "1"
        env["RUSTFLAGS"] = "-Awarnings"
        cmd = "cargo rustc --offline --lib -- -Zunpretty=mir -Zmir-opt-level=0"
        p = _sh(cmd, REPO, env)
        if p.returncode != 0 or "fn " not in p.stdout:
            raise BuildError("MIR extraction failed:\n" + p.stderr[-4000:])
        return p.stdout, time.time() - t0
