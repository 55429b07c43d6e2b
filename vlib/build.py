"""Build glum's Cython extensions from /repo's current working tree.

Nothing is written under /repo.  Outputs go to /verif/.cache/so/<key> where the
key is the SHA-256 of the .pyx text, the flags and the tool versions, so a
cached object is only ever reused for byte-identical sources.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"

DIRECTIVES = ("language_level=3,boundscheck=False,wraparound=False,"
              "initializedcheck=False,nonecheck=False,cdivision=True,cpow=True,"
              "legacy_implicit_noexcept=True")
VARIANTS = {
    # the flags of /repo/setup.py
    "normal": dict(cflags=["-fopenmp", "-O3", "--std=c++17"], ldflags=["-fopenmp"]),
    "asan": dict(cflags=["-fopenmp", "-O1", "-g", "--std=c++17", "-fno-omit-frame-pointer",
                         "-fsanitize=address,undefined,float-cast-overflow",
                         "-fsanitize-recover=all", "-fno-sanitize=vptr"],
                 ldflags=["-fopenmp", "-fsanitize=address,undefined"]),
    "tsan": dict(cflags=["-fopenmp", "-O1", "-g", "--std=c++17", "-fsanitize=thread"],
                 ldflags=["-fsanitize=thread", "-Wl,-Bsymbolic"], shim=True),
    # same kernels on the deterministic OpenMP stand-in, without a sanitizer
    "shim": dict(cflags=["-fopenmp", "-O2", "--std=c++17"],
                 ldflags=["-Wl,-Bsymbolic", "-lpthread"], shim=True),
    # locals nobody initialised hold zeros / a pattern
    "zero": dict(cflags=["-fopenmp", "-O1", "--std=c++17", "-ftrivial-auto-var-init=zero"],
                 ldflags=["-fopenmp"]),
    "pattern": dict(cflags=["-fopenmp", "-O1", "--std=c++17", "-ftrivial-auto-var-init=pattern"],
                    ldflags=["-fopenmp"]),
    # Cython's own index checks as a second memory monitor
    "bounds": dict(cflags=["-fopenmp", "-O1", "--std=c++17"], ldflags=["-fopenmp"],
                   directives=DIRECTIVES.replace("boundscheck=False", "boundscheck=True")
                   .replace("initializedcheck=False", "initializedcheck=True")
                   .replace("nonecheck=False", "nonecheck=True")
                   .replace("cdivision=True", "cdivision=True")),
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _includes():
    out = subprocess.run(
        [PY, "-c", "import sysconfig,numpy,Cython;"
         "print(sysconfig.get_path('include'));print(numpy.get_include());"
         "print(numpy.__version__, Cython.__version__)"],
        capture_output=True, text=True, check=True).stdout.split("\n")
    return out[0], out[1], out[2]


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src/glum/*.pyx")))


def build(variant="normal"):
    """Return the directory holding <module>.so for every .pyx of the package."""
    v = VARIANTS[variant]
    inc1, inc2, vers = _includes()
    aux = b"".join(open(f, "rb").read() for f in sorted(
        glob.glob(os.path.join(REPO, "src/glum/*.pxd"))
        + glob.glob(os.path.join(REPO, "src/glum/*.h"))
        + glob.glob(os.path.join(REPO, "src/glum/*.pxi"))))
    shim = os.path.join(VERIF, "native/gomp_shim.cpp")
    srcs = sources()
    if not srcs:
        raise BuildError("no .pyx sources in /repo/src/glum")
    key = _sha(variant, repr(sorted(v.items())), DIRECTIVES, vers, aux,
               open(shim, "rb").read(), *[open(s, "rb").read() + s.encode() for s in srcs])
    cache = os.path.join(VERIF, ".cache", "so")
    dest = os.path.join(cache, variant + "-" + key)
    if os.path.exists(os.path.join(dest, ".ok")):
        return dest
    os.makedirs(cache, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="b-", dir=cache)
    try:
        procs = []
        for s in srcs:
            m = os.path.basename(s)[:-4]
            script = (
                "set -e\n"
                f"{PY} -m cython -3 --cplus -X {v.get('directives', DIRECTIVES)} "
                f"--module-name glum.{m} -I {REPO}/src/glum -o {tmp}/{m}.cpp {s} 2>{tmp}/{m}.cylog\n"
                f"g++ -c -fPIC -w {' '.join(v['cflags'])} -DNDEBUG -I{inc1} -I{inc2} -I{REPO}/src/glum "
                f"{tmp}/{m}.cpp -o {tmp}/{m}.o\n")
            objs = f"{tmp}/{m}.o"
            if v.get("shim"):
                san = " ".join(f for f in v["cflags"] if f.startswith("-fsanitize"))
                script += (f"g++ -c -fPIC -O1 -g {san} -fvisibility=hidden {shim} "
                           f"-o {tmp}/{m}.shim.o\n")
                objs += f" {tmp}/{m}.shim.o"
            script += f"g++ -shared {objs} {' '.join(v['ldflags'])} -o {tmp}/{m}.so\n"
            procs.append((m, subprocess.Popen(["bash", "-c", script], stdout=subprocess.PIPE,
                                              stderr=subprocess.STDOUT, text=True,
                                              env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1",
                                                       PYTHONPATH=""))))
        err = []
        for m, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                log = ""
                try:
                    log = open(f"{tmp}/{m}.cylog").read()[-3000:]
                except OSError:
                    pass
                err.append(f"{m}: {out[-3000:]}{log}")
        if err:
            raise BuildError("\n".join(err))
        open(os.path.join(tmp, ".ok"), "w").close()
        for f in os.listdir(tmp):
            if f.endswith(".o"):
                os.unlink(os.path.join(tmp, f))
        try:
            os.rename(tmp, dest)
            tmp = None
        except OSError:
            if not os.path.exists(os.path.join(dest, ".ok")):
                raise
        return dest
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)


def repo_so_dir():
    """If /repo's in-place extensions were provably built (by build.sh's content
    stamps) from the current .pyx, hand them out instead of compiling again."""
    import_dir = tempfile.mkdtemp(prefix="so-", dir=_tmp())
    shared = _shared_stamp()
    for s in sources():
        rel = os.path.relpath(s, REPO)
        base = rel[:-4]
        stamp = os.path.join(REPO, "build/vp-stamps", base.replace("/", "."))
        sos = glob.glob(os.path.join(REPO, base) + ".cpython-312-*.so")
        try:
            have = open(stamp).read().strip()
        except OSError:
            have = None
        want = hashlib.sha256(open(s, "rb").read()).hexdigest() + "  " + rel + "\n" + shared
        if have is None or len(sos) != 1 or have != want.strip():
            shutil.rmtree(import_dir, ignore_errors=True)
            return None
        shutil.copy(sos[0], os.path.join(import_dir, os.path.basename(base) + ".so"))
    return import_dir


def _shared_stamp():
    out = subprocess.run(
        ["bash", "-c",
         "cd " + REPO + r""" && { find src -type f \( -name '*.pxd' -o -name '*.pxi' -o -name '*.h' """
         r"""-o -name '*.hpp' -o -name '*tmpl.cpp' \) -print0 | sort -z | xargs -0r sha256sum
           sha256sum setup.py setup.cfg pyproject.toml
           /opt/venv/bin/python -c 'import sys, numpy, Cython; print(sys.version, numpy.__version__, Cython.__version__)'
         } 2>&1 | sha256sum"""],
        capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=REPO))
    return out.stdout.strip()


def _tmp():
    d = os.path.join(VERIF, ".cache", "tmp")
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == "__main__":
    for name in sys.argv[1:] or ["normal"]:
        print(name, build(name))
