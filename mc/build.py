"""Brings /repo's pytorch3d._C up to date with the sources (git-ignored build products only) and imports it.

The repository's own ninja build decides what is stale: `ninja -n` in its build folder says whether any
object is older than a source or header; if so (or if the extension is missing or older than an object, or
a source file was added or removed) the repository's own incremental build runs, exactly as its build
script invokes it.  Nothing tracked in /repo is written.
"""
import fcntl
import glob
import os
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin"


def _env():
    env = dict(os.environ)
    env["HOME"] = "/root"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PATH"] = VENV + ":/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    if os.path.isdir("/opt/ccache"):
        env["CCACHE_DIR"] = "/opt/ccache"
        env["CCACHE_MAXSIZE"] = "5G"
    env["PYTORCH3D_FORCE_NO_CUDA"] = "1"
    env["TORCH_DONT_CHECK_COMPILER_ABI"] = "1"
    env["MAX_JOBS"] = str(os.cpu_count() or 8)
    for k in ("FORCE_CUDA", "PYTORCH3D_NO_EXTENSION", "PYTORCH3D_NO_NINJA", "PYTHONPATH"):
        env.pop(k, None)
    return env


def _ext_path():
    found = sorted(glob.glob(os.path.join(REPO, "pytorch3d", "_C*.so")))
    return found[0] if len(found) == 1 else None


def _up_to_date():
    so = _ext_path()
    if so is None:
        return False
    dirs = glob.glob(os.path.join(REPO, "build", "temp.*"))
    if len(dirs) != 1 or not os.path.exists(os.path.join(dirs[0], "build.ninja")):
        return False
    with open(os.path.join(dirs[0], "build.ninja")) as fh:
        text = fh.read()
    listed = set()
    objs = []
    for line in text.splitlines():
        if line.startswith("build ") and ": compile " in line:
            left, right = line[len("build "):].split(": compile ")
            objs.append(left.strip().replace("$ ", " "))
            listed.add(right.strip().replace("$ ", " "))
    have = set(glob.glob(os.path.join(REPO, "pytorch3d", "csrc", "**", "*.cpp"), recursive=True))
    if listed != have:
        return False
    r = subprocess.run(["ninja", "-n"], cwd=dirs[0], env=_env(), capture_output=True, text=True)
    if r.returncode != 0 or "no work to do" not in r.stdout:
        return False
    t = os.path.getmtime(so)
    return all(os.path.exists(o) and os.path.getmtime(o) <= t for o in objs)


def build_ext():
    os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
    with open(os.path.join(VERIF, ".build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not _up_to_date():
            r = subprocess.run([VENV + "/python", "setup.py", "-q", "build_ext", "--inplace", "--force"],
                               cwd=REPO, env=_env(), capture_output=True, text=True)
            if r.returncode != 0:
                raise RuntimeError("building pytorch3d._C failed\n" + (r.stdout + r.stderr)[-4000:])
    return _ext_path()


def load():
    """Import pytorch3d from /repo with an up-to-date pytorch3d._C."""
    build_ext()
    for i, p in enumerate([REPO, os.path.join(REPO, "projects", "nerf")]):
        if p not in sys.path:
            sys.path.insert(i, p)
    import torch  # noqa: F401  (libc10 must be loaded first)
    import pytorch3d
    from pytorch3d import _C

    assert os.path.abspath(pytorch3d.__file__).startswith(REPO + "/"), pytorch3d.__file__
    return _C


if __name__ == "__main__":
    print(build_ext())
