"""Front end: builds the clang-based dumper if needed, generates the ROS-facing
headers from the repository's own .msg/.srv/.cfg files and dumps translation
units of /repo's *current* working tree.

Nothing under /repo is written.  Outputs go to a private scratch directory that
is removed when the process ends (or, for development, to $MSFSA_CACHE, keyed
by the content of every analysed file)."""
import atexit, concurrent.futures as cf, fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MSFSA_REPO", "/repo")
BIN = os.path.join(VERIF, ".build")
sys.path.insert(0, os.path.join(VERIF, "tool"))


class AnalysisBroken(Exception):
    """The analysis itself cannot give a verdict (never a pass, never a violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tool():
    src = os.path.join(VERIF, "tool", "msfdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BIN, "msfdump-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BIN, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        flags = [f for f in sh(["llvm-config-18", "--cxxflags"]).stdout.split() if not f.startswith("-std=")]
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", src, "-o", tmp] + flags +
               ["/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if r.returncode:
            raise AnalysisBroken("cannot build msfdump:\n" + r.stdout[-3000:])
        os.rename(tmp, exe)
    return exe


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="msfsa-")
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return _scratch


_gen = None


def gen_ros():
    """(include dir, list of parsed .cfg descriptions)"""
    global _gen
    if _gen is None:
        import gen_ros as g
        d = os.path.join(scratch(), "gen")
        try:
            cfgs = g.main(REPO, d, os.path.join(VERIF, "ros", "msg"))
        except (SystemExit, Exception) as e:
            raise AnalysisBroken("cannot read the .msg/.srv/.cfg files of the repository: %r" % (e,))
        _gen = (d, cfgs)
    return _gen


MANAGERS = {"pose": "pose_msf", "pose_pressure": "pose_pressure_msf", "position": "position_msf",
            "position_pose": "position_pose_msf", "spherical": "spherical_msf"}

PLAIN = {
    "timer": "msf_timing/src/Timer.cc",
    "timing_test": "msf_timing/src/test/testMSFTiming.cc",
    "distort": "msf_distort/src/msf_distort.cc",
    "posedistorter": "msf_updates/src/msf_distort/PoseDistorter.cc",
    "gpsdistorter": "msf_updates/src/msf_distort/GPS_distorter.cc",
    "gps": "msf_core/src/lib/gps_conversion.cc",
    "falsecolor": "msf_core/src/lib/falsecolor.cc",
    "tools": "msf_core/src/lib/msf_tools.cc",
    "similarity": "msf_core/src/similaritytransform.cc",
}

# member functions of templates no code of the unit may use at all
WITNESS = {"timer": "inline void msfsa_witness(msf_timing::Accumulator<double, double, 50>& a) {"
                    " a.Add(0); a.TotalSamples(); a.Sum(); a.Mean(); a.RollingMean(); a.Max(); a.Min(); a.LazyVariance(); }\n"}


def flags(extra=()):
    g, _ = gen_ros()
    return ["-std=c++17", "-w", '-DROS_PACKAGE_NAME="msf"', "-DBOOST_NO_CXX11_VARIADIC_TEMPLATES",
            "-I" + g, "-I" + os.path.join(VERIF, "ros", "include"),
            "-I" + os.path.join(REPO, "msf_core/include"), "-I" + os.path.join(REPO, "msf_updates/include"),
            "-I" + os.path.join(REPO, "msf_timing/include"), "-I/usr/include/eigen3",
            "-resource-dir", resource_dir()] + list(extra)


_rd = None


def resource_dir():
    global _rd
    if _rd is None:
        _rd = sh(["clang", "-print-resource-dir"]).stdout.strip()
    return _rd


def tu_source(name):
    """C++ text of the translation unit `name` and its extra flags."""
    if name in MANAGERS:
        d = os.path.join(REPO, "msf_updates/src", MANAGERS[name])
        return '#include "%s/main.cpp"\nint msfdump_sentinel;\n' % d, ["-I" + d]
    if name in PLAIN:
        return '#include "%s"\n%sint msfdump_sentinel;\n' % (os.path.join(REPO, PLAIN[name]), WITNESS.get(name, "")), []
    p = os.path.join(VERIF, "msfsa", "tu", name + ".cc")
    if os.path.exists(p):
        return '#include "%s"\nint msfdump_sentinel;\n' % p, [
            "-I" + os.path.join(REPO, "msf_updates/src")]
    raise AnalysisBroken("unknown translation unit " + name)


def tree_hash():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "ros"), os.path.join(VERIF, "tool"), os.path.join(VERIF, "msfsa", "tu")):
        for dp, dn, fn in sorted(os.walk(root)):
            dn[:] = sorted(x for x in dn if x not in (".git", "_build", "Matlab", "__pycache__"))
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".cc", ".cpp", ".cfg", ".msg", ".srv", ".py")):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def dump_one(name, extra_flags=(), full=False):
    exe = tool()
    cache = os.environ.get("MSFSA_CACHE")
    key = None
    if cache:
        os.makedirs(cache, exist_ok=True)
        key = os.path.join(cache, "%s-%s.json" % (name, tree_hash()))
        if os.path.exists(key):
            return json.load(open(key))
    src, fl = tu_source(name)
    p = os.path.join(scratch(), name + ".tu.cc")
    out = os.path.join(scratch(), name + ".json")
    with open(p, "w") as f:
        f.write(src)
    cmd = [exe, "--out", out, "--root", os.path.realpath(REPO) + "/"]
    if os.path.isdir(os.path.join(VERIF, "msfsa", "tu")):
        cmd += ["--root", os.path.join(VERIF, "msfsa", "tu") + "/"]
    r = sh(cmd + [p, "--"] + flags(fl) + list(extra_flags))
    if r.returncode or not os.path.exists(out):
        raise AnalysisBroken("translation unit %s of the current tree does not parse:\n%s" % (name, r.stdout[-3000:]))
    d = json.load(open(out))
    if key:
        shutil.copy(out, key + ".tmp%d" % os.getpid())
        os.rename(key + ".tmp%d" % os.getpid(), key)
    os.unlink(out)
    return d


def dump(names):
    tool()
    gen_ros()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        return dict(zip(names, ex.map(dump_one, names)))


if __name__ == "__main__":
    tool()
    print("msfdump ready")
