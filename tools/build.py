#!/usr/bin/env python3
"""Build libdcp from /repo's working tree, with the stand-ins in ../shim and the harnesses in
../harness, in sanitizer variants, into ../build (not committed).

/repo/src is mirrored by content into build/src before ninja runs, so that what is built depends
on file contents alone and never on time stamps, and nothing is written under /repo."""
import fcntl, glob, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

CXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"

DEFINES = ["-D_FILE_OFFSET_BITS=64", "-D__STDC_FORMAT_MACROS", '-DLIBDCP_VERSION=\\"devel\\"', "-DLIBDCP_LINUX",
           "-DLIBDCP_MPEG2_TRANSCODE", "-DLIBDCP_HAVE_NO_CHECK_TIME=1", "-DLIBDCP_HAVE_WEAKLY_CANONICAL=1",
           "-DLIBDCP_HAVE_COPY_OPTIONS=1", "-DLIBDCP_HAVE_REPLACE_EXTENSION=1", "-DLIBDCP_HAVE_HARU=1", "-DLIBDCP_VERIF=1"]

PKGS = "openssl libxml++-2.6 xmlsec1-openssl sndfile libopenjp2 xerces-c fmt libavcodec libavutil".split()

VARIANTS = {
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}

# sources which need nothing outside themselves; everything else goes in the full library only
CORE = """array_data bitstream chromaticity colour_conversion content_kind data exceptions file filesystem fsk
gamma_transfer_function h_align identity_transfer_function local_time modified_gamma_transfer_function name_format
locale_convert raw_convert s_gamut3_transfer_function subtitle_standard transfer_function utc_offset v_align""".split()

# harness name -> sources (in ../harness), library, variants it is built in
from harnesses import HARNESSES


def pkg(kind):
    out = subprocess.run(["pkg-config", kind] + PKGS, stdout=subprocess.PIPE, check=True, universal_newlines=True).stdout
    return [t for t in out.split() if "\\" not in t and '"' not in t]


def sync(src, dst):
    """Make dst hold exactly the C++ files of src, touching only what differs."""
    os.makedirs(dst, exist_ok=True)
    want = {}
    for n in os.listdir(src):
        if n.endswith((".cc", ".h", ".hpp", ".cpp", ".c")) and os.path.isfile(os.path.join(src, n)):
            want[n] = open(os.path.join(src, n), "rb").read()
    for n in os.listdir(dst):
        if n not in want:
            os.unlink(os.path.join(dst, n))
    for n, c in want.items():
        p = os.path.join(dst, n)
        if not os.path.exists(p) or open(p, "rb").read() != c:
            with open(p, "wb") as f:
                f.write(c)
    return sorted(want)


def write_if_changed(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def generate():
    os.makedirs(BUILD, exist_ok=True)
    files = sync(os.path.join(REPO, "src"), os.path.join(BUILD, "src"))
    tool_files = sync(os.path.join(REPO, "tools"), os.path.join(BUILD, "tools"))
    shim_files = sync(os.path.join(VERIF, "shim"), os.path.join(BUILD, "shim"))
    for d in ("asdcp", "fast_float", "libcxml"):
        if os.path.isdir(os.path.join(VERIF, "shim", d)):
            sync(os.path.join(VERIF, "shim", d), os.path.join(BUILD, "shiminc", d))
    sync(os.path.join(VERIF, "harness"), os.path.join(BUILD, "harness"))
    cflags = " ".join(DEFINES + ["-fPIC", "-pthread", "-fno-strict-aliasing", "-Wno-deprecated-declarations", "-w", "-isystem", BUILD + "/shiminc", "-I" + BUILD + "/src", "-I" + BUILD + "/shim"] + pkg("--cflags"))
    libs = " ".join(pkg("--libs") + ["-lboost_filesystem", "-lboost_system", "-lboost_date_time", "-lboost_thread", "-lhpdf", "-ldl", "-lpthread"])
    o = ["ninja_required_version = 1.3", "builddir = " + BUILD, "cxx = " + CXX]
    for v, f in VARIANTS.items():
        o += ["rule cxx_" + v, "  command = $cxx -std=$std %s %s -MD -MF $out.d -c $in -o $out" % (" ".join(f), cflags), "  depfile = $out.d", "  deps = gcc", "  description = CXX(%s) $in" % v]
        link_san = [x for x in f if x.startswith("-fsanitize") or x.startswith("-fno-sanitize")]
        o += ["rule link_" + v, "  command = $cxx %s -pthread -rdynamic $in %s -o $out" % (" ".join(link_san), libs), "  description = LINK(%s) $out" % v]
    # programs' main functions are renamed so that they can all be in one harness
    o += ["rule rename", "  command = objcopy --redefine-sym main=main_$tool $in $out"]
    o += ["rule ar", "  command = rm -f $out && ar rcs $out $in"]
    ccs = [f[:-3] for f in files if f.endswith(".cc") and not f.endswith("_common.cc") and f != "version.cc"]
    for v in VARIANTS:
        objs = {}
        for c in ccs:
            objs[c] = "%s/%s/src/%s.o" % (BUILD, v, c)
            o += ["build %s: cxx_%s %s/src/%s.cc" % (objs[c], v, BUILD, c), "  std = c++11"]
        shims = []
        for c in shim_files:
            if c.endswith(".cc"):
                p = "%s/%s/shim/%s.o" % (BUILD, v, c[:-3])
                shims.append(p)
                o += ["build %s: cxx_%s %s/shim/%s" % (p, v, BUILD, c), "  std = c++14"]
        o += ["build %s/%s/libcore.a: ar %s" % (BUILD, v, " ".join(objs[c] for c in CORE if c in objs))]
        o += ["build %s/%s/libfull.a: ar %s" % (BUILD, v, " ".join(list(objs.values()) + shims))]
        done = set()
        for h, d in HARNESSES.items():
            if v not in d["variants"]:
                continue
            hobjs = []
            for s in d["sources"] + ["kit.cc"]:
                p = "%s/%s/harness/%s.o" % (BUILD, v, s[:-3])
                hobjs.append(p)
                if p not in done:
                    done.add(p)
                    o += ["build %s: cxx_%s %s/harness/%s" % (p, v, BUILD, s), "  std = c++14"]
            for t in d.get("tools", []):
                p = "%s/%s/tools/%s.o" % (BUILD, v, t)
                o += ["build %s: cxx_%s %s/tools/%s.cc" % (p, v, BUILD, t), "  std = c++11"]
                if t != "common":
                    o += ["build %s.renamed.o: rename %s" % (p, p), "  tool = " + t]
                    p += ".renamed.o"
                hobjs.append(p)
            for l in sorted({d["lib"], "full"}):
                name = "%s/%s/%s" % (BUILD, v, h) + ("" if l == d["lib"] else ".full")
                o += ["build %s: link_%s %s %s/%s/lib%s.a" % (name, v, " ".join(hobjs), BUILD, v, l)]
    write_if_changed(os.path.join(BUILD, "build.ninja"), "\n".join(o) + "\n")


def target(harness, variant, full=False):
    return "%s/%s/%s" % (BUILD, variant, harness) + (".full" if full and HARNESSES[harness]["lib"] != "full" else "")


def build(pairs, log=None):
    """Build (harness, variant) pairs; returns list of executables or raises RuntimeError."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        generate()
        env = dict(os.environ, LC_ALL="C")
        for k in ("CXXFLAGS", "CPPFLAGS", "LDFLAGS", "LD_LIBRARY_PATH"):
            env.pop(k, None)
        last = ""
        for full in (False, True):
            targets = [target(h, v, full) for h, v in pairs]
            r = subprocess.run(["ninja", "-f", os.path.join(BUILD, "build.ninja"), "-k", "0"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, env=env)
            if log:
                log.write(r.stdout)
            if r.returncode == 0:
                return targets
            last = r.stdout
            if all(HARNESSES[h]["lib"] == "full" for h, v in pairs):
                break
        raise RuntimeError("build failed:\n" + last[-6000:])


if __name__ == "__main__":
    # setup: build everything
    want = sys.argv[1:]
    pairs = [(h, v) for h, d in HARNESSES.items() for v in d["variants"] if not want or h in want]
    try:
        build(pairs, sys.stdout)
    except RuntimeError as e:
        print(e)
        sys.exit(2)
