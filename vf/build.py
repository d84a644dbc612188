"""Build a scratch copy of /repo's working tree; never writes under /repo."""
import os
import shutil
import subprocess

# VF_REPO and VF_CC (such as "ccache ") are for trying planted bugs on a scratch copy; the registered
# commands leave them unset.
REPO = os.environ.get("VF_REPO", "/repo")


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ("PYTHONPATH", "PYTHONHOME", "CFLAGS", "CXXFLAGS", "LDFLAGS",
                      "MESONPY_EDITABLE_VERBOSE")}
    e.update(HOME="/root", LANG=e.get("LANG", "C.UTF-8"),
             PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             CC=os.environ.get("VF_CC", "") + "gcc", CXX=os.environ.get("VF_CC", "") + "g++",
             PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    return e


class BuildError(Exception):
    pass


def build(scratch):
    """Copy /repo into scratch/src, build and install; return the site directory."""
    src = os.path.join(scratch, "src")
    shutil.copytree(REPO, src, symlinks=True,
                    ignore=lambda d, names: [n for n in names
                                             if n in (".git", "__pycache__")
                                             or (d == REPO and n == "build")])
    bld = os.path.join(src, "build")
    site = os.path.join(bld, "install", "site")
    log = os.path.join(scratch, "build.log")
    with open(log, "w") as f:
        def run(*cmd):
            r = subprocess.run(cmd, cwd=src, env=env(), stdout=f, stderr=subprocess.STDOUT)
            if r.returncode:
                f.flush()
                tail = open(log).read()[-3000:]
                raise BuildError("build failed: %s\n%s" % (" ".join(cmd), tail))
        run("meson", "setup", bld, "--prefix", bld + "/install", "--buildtype=release",
            "-Db_ndebug=if-release", "-Doptimization=3", "--wrap-mode=nodownload",
            "-Dpython.purelibdir=" + site, "-Dpython.platlibdir=" + site,
            "-Dpython.bytecompile=-1")
        run("ninja", "-C", bld)
        run("meson", "install", "-C", bld, "--no-rebuild", "--quiet")
    return site
