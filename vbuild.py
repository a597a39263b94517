"""Builds the harness and the libraries of /repo's working tree (sanitized). Everything lands in /verif/build,
keyed by content hashes, so that nothing stale is ever used."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DSTU_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

UBSAN = "bounds,vla-bound,null,integer-divide-by-zero,unreachable,return"
VARIANTS = {
    "asan": {
        "lib": f"-O1 -g -fno-omit-frame-pointer -DNDEBUG -ftrivial-auto-var-init=pattern -fsanitize=address,fuzzer-no-link -fsanitize={UBSAN} -fno-sanitize-recover=all",
        "cxx": "-O1 -g -fno-omit-frame-pointer -fsanitize=address -DWITH_FUZZER",
        "ld": "-fsanitize=address",
    },
    "opt": {"lib": "-O2 -g -DNDEBUG"},   # uninstrumented libraries, loaded by the asan harness
    "tsan": {
        "lib": "-O1 -g -fno-omit-frame-pointer -DNDEBUG -fsanitize=thread",
        "cxx": "-O1 -g -fno-omit-frame-pointer -fsanitize=thread -DWITH_TSAN",
        "ld": "-fsanitize=thread",
    },
}
COMMON = "-std=c++17 -Wall -Wno-deprecated-declarations -Wno-unused-function -pthread"
LIBS = "-rdynamic -ldl -lcrypto -pthread"


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError(f"{' '.join(cmd) if isinstance(cmd, list) else cmd}\n{r.stdout[-6000:]}")
    return r.stdout


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "docs", "build", ".github"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def build_libs(variant):
    v = VARIANTS[variant]
    flagh = hashlib.sha256((v["lib"]).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, f"lib-{variant}-{repo_hash()}-{flagh}")
    with Lock("lib-" + variant):
        if os.path.exists(os.path.join(d, ".ok")):
            return d
        shutil.rmtree(d, ignore_errors=True)
        env = dict(os.environ, CC="clang", CXX="clang++")
        for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_GENERATOR"):
            env.pop(k, None)
        # the sanitizer runtime lives in the harness executable; the modules leave it undefined
        sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTS=OFF", "-DCMAKE_C_COMPILER=clang",
            f"-DCMAKE_C_FLAGS={v['lib']}"], env=env)
        sh(["ninja", "-C", d, "dstu", "keylib"], env=env)
        open(os.path.join(d, ".ok"), "w").close()
        # keep the disk small: drop all but the newest few builds of this variant
        olds = sorted((p for p in os.listdir(BUILD) if p.startswith(f"lib-{variant}-") and os.path.isdir(os.path.join(BUILD, p))),
                      key=lambda p: os.path.getmtime(os.path.join(BUILD, p)))
        for p in olds[:-4]:
            if os.path.join(BUILD, p) != d:
                shutil.rmtree(os.path.join(BUILD, p), ignore_errors=True)
        return d


def build_harness(variant):
    variant = "asan" if variant == "opt" else variant
    v = VARIANTS[variant]
    srcs = sorted(f for f in os.listdir(HARNESS) if f.endswith(".cpp"))
    hdr = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith((".h", ".inc")):
            hdr.update(open(os.path.join(HARNESS, f), "rb").read())
    odir = os.path.join(BUILD, "obj-" + variant)
    with Lock("harness-" + variant):
        os.makedirs(odir, exist_ok=True)
        objs, todo = [], []
        for f in srcs:
            flags = v["cxx"]
            if f == "ref.cpp" and variant == "asan":
                flags = "-O2 -g"          # the reference model is not instrumented: speed
            key = hashlib.sha256(hdr.digest() + open(os.path.join(HARNESS, f), "rb").read() + (COMMON + flags).encode()).hexdigest()[:16]
            o = os.path.join(odir, f"{f[:-4]}-{key}.o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((f, flags, o))
        exe = os.path.join(BUILD, f"harness-{variant}-" + hashlib.sha256("".join(objs).encode()).hexdigest()[:16])
        if os.path.exists(exe):
            return exe
        for f in os.listdir(odir):
            if os.path.join(odir, f) not in objs:
                os.unlink(os.path.join(odir, f))
        for f in os.listdir(BUILD):
            if f.startswith(f"harness-{variant}-") and not f.endswith(".lock"):
                os.unlink(os.path.join(BUILD, f))

        def one(t):
            f, flags, o = t
            sh(["clang++"] + COMMON.split() + flags.split() + ["-c", os.path.join(HARNESS, f), "-o", o + ".tmp"])
            os.rename(o + ".tmp", o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, todo))
        extra = []
        if "WITH_FUZZER" in v["cxx"]:
            rt = sh(["clang", "-print-file-name=libclang_rt.fuzzer_no_main-x86_64.a"]).strip()
            if not os.path.exists(rt):
                rdir = sh(["clang", "-print-runtime-dir"]).strip()
                for c in (os.path.join(rdir, "libclang_rt.fuzzer_no_main.a"),
                          os.path.join(sh(["clang", "-print-resource-dir"]).strip(), "lib/linux/libclang_rt.fuzzer_no_main-x86_64.a")):
                    if os.path.exists(c):
                        rt = c
            extra = [rt]
        sh(["clang++"] + v["ld"].split() + objs + extra + LIBS.split() + ["-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        return exe


def asan_runtime():
    """clang's shared AddressSanitizer runtime, for a program that is not built with it"""
    p = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    return p if os.path.isabs(p) and os.path.exists(p) else ""


def build_shim():
    """the library preloaded into the openssl utility (P29)"""
    src = os.path.join(HARNESS, "shim", "cli_shim.c")
    so = os.path.join(BUILD, "shim-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16] + ".so")
    with Lock("shim"):
        if not os.path.exists(so):
            sh(["gcc", "-O1", "-w", "-shared", "-fPIC", src, "-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
    return so


def build_java():
    """the writer of Java key stores (P14, P17); "" when there is no Java"""
    src = os.path.join(HARNESS, "java", "Stores.java")
    out = os.path.join(BUILD, "java-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    if not shutil.which("java") or not shutil.which("javac"):
        return ""
    with Lock("java"):
        if not os.path.exists(out):
            try:
                sh(["javac", "-nowarn", "-d", out + ".tmp", src])
            except BuildError:
                return ""
            os.rename(out + ".tmp", out)
    return out


if __name__ == "__main__":
    try:
        for var in sys.argv[1:] or ["asan", "opt", "tsan"]:
            print(build_harness(var), build_libs(var))
        print(build_java())
    except BuildError as e:
        print(e)
        sys.exit(2)
