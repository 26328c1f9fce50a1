#!/usr/bin/env python3
"""Builds the harness binary from /repo's working tree into /verif/build (or $VERIF_BUILD)."""
import hashlib, os, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))

DEFS = ('-DPACKAGE_NAME="libstrophe" -DPACKAGE_VERSION="0.14.0" -DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 '
        '-DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1 -DHAVE_SYS_STAT_H=1 '
        '-DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -DHAVE_CLOCK_GETTIME=1 -DHAVE_SNPRINTF=1 '
        '-DHAVE_VSNPRINTF=1 -DHAVE_VA_COPY=1 -DHAVE_GETRANDOM=1 -DHAVE_ZLIB=1 -DLIBXMPP_VERSION_MAJOR=0 '
        '-DLIBXMPP_VERSION_MINOR=14').split()
SKIP = {"tls_gnutls.c", "tls_schannel.c", "tls_dummy.c", "compression_dummy.c", "parser_libxml2.c", "snprintf.c"}
SAN = ["-fsanitize=address,bounds,null,object-size,integer-divide-by-zero,return,unreachable,vla-bound",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
LIB = ["-g1", "-O1", "-U_FORTIFY_SOURCE", "-w", "-I", REPO, "-I", REPO + "/src"]
CXX = ["-std=c++17", "-O1", "-g1", "-U_FORTIFY_SOURCE", "-Wno-deprecated-declarations", "-fno-omit-frame-pointer",
       "-I", REPO, "-I", REPO + "/src", "-I/usr/include/libxml2", "-fsanitize=address"]
LIBS = ["-lssl", "-lcrypto", "-lexpat", "-lz", "-lxml2", "-lresolv", "-ldl"]
RAW = []
for f in ("malloc", "calloc", "realloc", "free", "strdup", "strndup"):
    RAW += ["--redefine-sym", "%s=vh_raw_%s" % (f, f)]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))


def compile_one(cmd, src, key, obj, post=None):
    stamp = obj + ".key"
    if os.path.exists(obj) and os.path.exists(stamp) and rd(stamp).decode() == key:
        return obj
    tmp = obj + ".tmp.o"
    run(cmd + ["-c", src, "-o", tmp])
    if post:
        run(post + [tmp])
    os.replace(tmp, obj)
    with open(stamp, "w") as f:
        f.write(key)
    return obj


def build(jobs=8, quiet=True):
    os.makedirs(OUT, exist_ok=True)
    hdrs = b"".join(rd(p) for p in sorted(glob.glob(REPO + "/*.h") + glob.glob(REPO + "/src/*.h")))
    myh = b"".join(rd(p) for p in sorted(glob.glob(HERE + "/src/*.h")))
    tasks = []
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    # headers of the library that are included as code, e.g. sha.h
    for s in srcs:
        b = os.path.basename(s)
        if b in SKIP:
            continue
        cmd = ["clang"] + LIB + DEFS + SAN + ["-fsanitize-coverage=inline-8bit-counters"]
        tasks.append((cmd, s, sha(hdrs, rd(s), " ".join(cmd)), os.path.join(OUT, "lib_" + b[:-2] + ".o"), ["objcopy"] + RAW))
    # the generator used where getrandom() is not available, under other names
    ren = []
    for f in ("xmpp_rand", "xmpp_rand_new", "xmpp_rand_free", "xmpp_rand_bytes", "xmpp_rand_nonce"):
        ren += ["--redefine-sym", "%s=drbg_%s" % (f, f)]
    s = REPO + "/src/rand.c"
    cmd = ["clang"] + LIB + [d for d in DEFS if "GETRANDOM" not in d] + ["-DDONT_USE_GETRANDOM=1"] + SAN
    tasks.append((cmd, s, sha(hdrs, rd(s), " ".join(cmd)), os.path.join(OUT, "drbg_rand.o"), ["objcopy"] + RAW + ren))
    for s in sorted(glob.glob(HERE + "/src/*.cpp")):
        cmd = ["clang++"] + CXX
        tasks.append((cmd, s, sha(hdrs, myh, rd(s), " ".join(cmd)), os.path.join(OUT, "h_" + os.path.basename(s)[:-4] + ".o"), None))
    # big ones first
    tasks.sort(key=lambda t: -os.path.getsize(t[1]) * (3 if t[1].endswith("cpp") else 1))
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda t: compile_one(*t), tasks))
    exe = os.path.join(OUT, "vh")
    key = sha(*[rd(o + ".key") for o in sorted(objs)])
    stamp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and rd(stamp).decode() == key):
        run(["clang++", "-fsanitize=address,bounds", "-rdynamic", "-o", exe] + sorted(objs) + LIBS)
        with open(stamp, "w") as f:
            f.write(key)
    return exe


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
