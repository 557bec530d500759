#!/usr/bin/env python3
"""Builds a simulator executable from /repo's current working tree. Objects are cached in /verif/build by the hash of
everything they are made from, so that a changed tree is always rebuilt and an unchanged one never is."""
import fcntl, glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

DEFS = ["-DHSMBUILD_DEBUGGING", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSM_LOGGING_MODE_OFF"]
POSIX = ["-DPLATFORM_POSIX=1", "-DHSM_BUILD_HSMBUILD_DISPATCHER_STD"]
GLIB_INC = ["-I/usr/include/glib-2.0", "-I/usr/lib/x86_64-linux-gnu/glib-2.0/include"]
GLIBMM_INC = GLIB_INC + ["-I/usr/include/glibmm-2.4", "-I/usr/lib/x86_64-linux-gnu/glibmm-2.4/include",
                         "-I/usr/include/sigc++-2.0", "-I/usr/lib/x86_64-linux-gnu/sigc++-2.0/include"]
ALL_DISP = ["Arduino", "FreeRTOS", "GLib", "GLibmm", "Qt", "STD"]

VARIANTS = {
    "std": dict(name="STD", disp=["STD"], os=["stl", "common", "posix"], lib=DEFS + POSIX, har=POSIX + ["-DSIM_BACKEND_STD"], backend="backend_std.cpp", libs=[]),
}
try:
    from variants import VARIANTS as MORE
    VARIANTS.update(MORE)
except ImportError:
    pass

LIBFLAGS = ["-std=c++11", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fPIC", "-w"]
HARFLAGS = ["-std=c++17", "-O1", "-g1", "-Wall", "-Wno-unused-function"]
HARNESS = ["rt.cpp", "spec.cpp", "world.cpp", "oracle.cpp", "profiles.cpp", "logs.cpp", "main.cpp"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(3)


def compile_one(src, flags, key):
    out = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        run(["g++"] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out


def build(variant, quiet=True):
    v = VARIANTS[variant]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hdr = sha(tree_hash(REPO + "/include", (".hpp", ".h", ".hxx")), tree_hash(REPO + "/src", (".hpp", ".h")))
        simh = tree_hash(os.path.join(VERIF, "sim"), (".h", ".hpp"))   # with the stubs
        jobs = []
        inc = v.get("inc", [])
        lib = sorted(glob.glob(REPO + "/src/*.cpp"))
        drop = ["HsmEventDispatcher%s.cpp" % d for d in ALL_DISP if d not in v["disp"]]
        lib = [f for f in lib if os.path.basename(f) not in drop]
        for o in v["os"]:
            lib += sorted(glob.glob(REPO + "/src/os/%s/*.cpp" % o))
        skip = v.get("skip", [])
        lib = [f for f in lib if os.path.basename(f) not in skip]
        for f in lib:
            # the path is part of the key: debug information and log macros mention it
            fl = LIBFLAGS + v["lib"] + v.get("libinc", []) + inc + ["-I" + REPO + "/include"]
            jobs.append((f, fl, sha(f, open(f, "rb").read(), hdr, simh if v.get("libsim") else "", " ".join(fl))))
        for f in v.get("moc", []):
            out = os.path.join(BUILD, "obj", "moc2_" + sha(f, open(REPO + f, "rb").read()) + ".cpp")
            if not os.path.exists(out):
                run([v["moc_tool"], "-I" + REPO + "/include", REPO + f, "-f", "<" + f[len("/include/"):] + ">", "-o", out])
            fl = LIBFLAGS + v["lib"] + inc + ["-I" + REPO + "/include"]
            jobs.append((out, fl, sha(out, hdr, " ".join(fl))))
        s = os.path.join(VERIF, "sim", "simlist.cpp")
        fl = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
        jobs.append((s, fl, sha(s, open(s, "rb").read(), simh, " ".join(fl))))
        for f in HARNESS + [v["backend"]] + v.get("extra", []):
            s = os.path.join(VERIF, "sim", f)
            fl = HARFLAGS + (v.get("behar", v["har"]) if f == v["backend"] else v["har"]) + inc + ["-I" + REPO + "/include", "-I" + os.path.join(VERIF, "sim")]
            jobs.append((s, fl, sha(s, open(s, "rb").read(), hdr, simh, " ".join(fl))))
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda j: compile_one(*j), jobs))
        key = sha(*[j[2] for j in jobs], " ".join(v["libs"]))
        exe = os.path.join(BUILD, "bin", variant + "-" + key)
        if not os.path.exists(exe):
            run(["g++", "-rdynamic", "-o", exe + ".tmp"] + objs + v["libs"] + ["-ldl", "-lpthread"])
            os.rename(exe + ".tmp", exe)
        else:
            os.utime(exe)
        prune(os.path.join(BUILD, "obj"), 600)
        prune(os.path.join(BUILD, "bin"), 40)
    return exe


def prune(d, keep):
    fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=os.path.getmtime)
    for f in fs[:-keep] if len(fs) > keep else []:
        os.unlink(f)


if __name__ == "__main__":
    for a in sys.argv[1:] or list(VARIANTS):
        print(build(a))
