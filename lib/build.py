"""Build a private copy of geotiepoints from /repo's working tree.

Only sources are copied (no tests, no built files); every .pyx is cythonized
and compiled in parallel with the directives of setup.py.
"""
import os
import shutil
import subprocess
import sys
import sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def copy_sources(dest, repo=REPO):
    src = os.path.join(repo, "geotiepoints")
    out = os.path.join(dest, "geotiepoints")
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        dirs[:] = [d for d in sorted(dirs) if d not in ("tests", "__pycache__")]
        os.makedirs(os.path.join(out, rel), exist_ok=True)
        for name in files:
            if name.endswith((".py", ".pyx", ".pxd", ".pxi", ".h")):
                shutil.copyfile(os.path.join(root, name), os.path.join(out, rel, name))
    return out


def _run(cmd, cwd):
    proc = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if proc.returncode:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), proc.stdout[-4000:]))


def _compile(dest, pyx, flags, ldflags):
    import numpy as np
    base = pyx[:-4]
    _run([sys.executable, "-m", "cython", "-3", "-X", "freethreading_compatible=True", pyx], dest)
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    _run(["gcc", "-shared", "-fPIC", "-w", "-fwrapv", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
         + flags + ["-I" + sysconfig.get_paths()["include"], "-I" + np.get_include(),
                    base + ".c", "-o", base + ext] + ldflags, dest)


def build(dest, repo=REPO, sanitize=False):
    """Copy and build; returns the directory to put on sys.path."""
    out = copy_sources(dest, repo)
    pyxs = []
    for root, _dirs, files in os.walk(out):
        for name in sorted(files):
            if name.endswith(".pyx"):
                pyxs.append(os.path.relpath(os.path.join(root, name), dest))
    flags, ldflags = ["-O1"], []
    if sanitize:
        flags = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"]
        ldflags = ["-fsanitize=address"]
    # the large generated C files first
    pyxs.sort(key=lambda p: -os.path.getsize(os.path.join(dest, p)))
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda p: _compile(dest, p, flags, ldflags), pyxs))
    return dest


if __name__ == "__main__":
    build(sys.argv[1], sanitize="--asan" in sys.argv)
