"""Builds the code under test from /repo's working tree, with the stand-ins of
/verif/shims for the submodules this sandbox does not have, into a git-ignored
directory whose name is a digest of everything that goes in.  Nothing outside
/verif/build is written."""
import fcntl, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
PK = os.path.join(REPO, "packages")
SH = os.path.join(VERIF, "shims")

VARIANTS = {
    # address+undefined, reports fatal; release semantics (NDEBUG) as shipped,
    # libstdc++ assertions on.
    "asan": ("clang++", "-O0 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize-recover=all -DNDEBUG -D_GLIBCXX_ASSERTIONS"),
    # the same with the code's own assert()s alive
    "asan-assert": ("clang++", "-O0 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined "
             "-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"),
    "tsan": ("clang++", "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=thread -DNDEBUG"),
    "plain": ("clang++", "-O1 -gline-tables-only -DNDEBUG"),
    "fuzz": ("clang++", "-O1 -gline-tables-only -fno-omit-frame-pointer -fsanitize=address,undefined,fuzzer-no-link "
             "-fno-sanitize-recover=all -DNDEBUG -D_GLIBCXX_ASSERTIONS"),
}
COMMON = ("-std=c++14 -w -Wno-invalid-constexpr -include cstdint -pthread "
          "-DCMAKE_BUILD_TYPE=RelWithDebInfo -DDRAFTER_BUILD_STATIC=1")


class BuildError(Exception):
    pass


def include_flags(gen):
    dirs = [gen, SH + "/variant/include", SH + "/PEGTL/include", SH + "/sundown", SH + "/cmdline"]
    dirs += [PK + "/" + d for d in ("boost", "apib/include", "apib/src", "apib-parser/include", "apib-parser/src",
                                    "apib-parser/src/snowcrash", "apib-parser/src/markdown-parser", "drafter/src")]
    return " ".join("-I" + d for d in dirs)


def listed(pkg):
    p = "%s/%s" % (PK, pkg)
    out = []
    for l in open(p + "/CMakeLists.txt"):
        m = re.match(r"^ +([A-Za-z0-9_./-]+\.cc) *$", l)
        if m:
            out.append(os.path.normpath(p + "/" + m.group(1)))
    return out


def sources():
    s = listed("apib") + listed("apib-parser") + listed("drafter")
    s += [PK + "/apib-parser/src/snowcrash/posix/RegexMatch.cc", PK + "/drafter/src/drafter.cc",
          PK + "/drafter/src/config.cc", SH + "/sundown/sundown.cc"]
    seen = []
    for f in s:
        if f not in seen and not f.endswith("/main.cc"):
            seen.append(f)
    return seen


def tree_files(*roots):
    for r in roots:
        for d, dn, fs in os.walk(r):
            dn.sort()
            dn[:] = [x for x in dn if x not in ("test", "boost", ".git")]
            for f in sorted(fs):
                if f.endswith((".cc", ".h", ".hpp", ".in", ".txt", ".inl", ".c", ".cpp")):
                    yield os.path.join(d, f)


def digest(extra):
    h = hashlib.sha1(extra.encode())
    for f in tree_files(PK, SH):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def version_header():
    cm = open(PK + "/drafter/CMakeLists.txt").read()
    m = re.search(r"project\(\s*Drafter\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", cm)
    rel = re.search(r"set\(DRAFTER_VERSION_IS_RELEASE\s+(\d+)\)", cm)
    pre = re.search(r"set\(DRAFTER_PRE_RELEASE_VERSION\s+\"?([^\s\")]+)", cm)
    t = open(PK + "/drafter/src/Version.h.in").read()
    v = m.groups()
    sub = {"PROJECT_VERSION_MAJOR": v[0], "PROJECT_VERSION_MINOR": v[1], "PROJECT_VERSION_PATCH": v[2],
           "PROJECT_VERSION": ".".join(v), "DRAFTER_VERSION_IS_RELEASE": rel.group(1) if rel else "0",
           "DRAFTER_PRE_RELEASE_VERSION": pre.group(1) if pre else ""}
    return re.sub(r"@(\w+)@", lambda k: sub[k.group(1)], t), ".".join(v)


def ninja(d, target, jobs):
    r = subprocess.run(["ninja", "-j", str(jobs), "-C", d] + target, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace")
    if r.returncode:
        tail = "\n".join(l for l in r.stdout.splitlines() if "error" in l or "FAILED" in l)[:4000]
        raise BuildError("build failed in %s:\n%s" % (d, tail or r.stdout[-4000:]))


class Build:
    """One sanitizer variant of the library; harnesses are linked against it."""

    def __init__(self, variant="asan"):
        self.variant = variant
        self.cxx, flags = VARIANTS[variant]
        self.flags = flags + " " + COMMON
        self.dir = os.path.join(BUILD, variant + "-" + digest(variant + self.flags + REPO))
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, variant + ".lock"), "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            self._lib()

    def _lib(self):
        done = self.dir + "/done"
        if os.path.exists(done):
            os.utime(done)
            return
        self._prune()
        os.makedirs(self.dir, exist_ok=True)
        text, self.version = version_header()
        with open(self.dir + "/Version.h", "w") as f:
            f.write(text)
        out = ["f = %s %s" % (self.flags, include_flags(self.dir)),
               "rule cxx\n  command = %s $f -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc" % self.cxx,
               "rule ar\n  command = rm -f $out && ar rcs $out $in"]
        objs = []
        for s in sorted(sources(), key=lambda s: -os.path.getsize(s) if "snowcrash.cc" not in s else -10**9):
            o = "o/" + os.path.relpath(s, "/").replace("/", "_") + ".o"
            out.append("build %s: cxx %s" % (o, s))
            objs.append(o)
        m = "o/main.cc.o"
        out.append("build %s: cxx %s/drafter/src/main.cc" % (m, PK))
        out.append("build libdrafter.a: ar " + " ".join(objs))
        out.append("build all: phony libdrafter.a " + m)
        with open(self.dir + "/build.ninja", "w") as f:
            f.write("\n".join(out) + "\n")
        ninja(self.dir, ["all"], os.cpu_count() or 4)
        shutil.rmtree(self.dir + "/o.keep", ignore_errors=True)
        open(done, "w").close()

    def _prune(self):
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(self.variant + "-")
              and re.fullmatch(r"[0-9a-f]{16}", d[len(self.variant) + 1:])]
        ds.sort(key=lambda d: os.path.getmtime(d))
        for d in ds[:-3]:
            shutil.rmtree(d, ignore_errors=True)

    def link(self, name, srcs, extra="", libs=None):
        """Compile and link a harness; returns the binary's path."""
        h = hashlib.sha1((extra + str(libs)).encode())
        for f in [os.path.join(VERIF, "harness", s) for s in srcs] + sorted(
                os.path.join(VERIF, "harness", x) for x in os.listdir(VERIF + "/harness") if x.endswith(".h")):
            h.update(open(f, "rb").read())
        exe = "%s/%s-%s" % (self.dir, name, h.hexdigest()[:10])
        with open(exe + ".lock", "w") as lock:
            fcntl.flock(lock, fcntl.LOCK_EX)
            if os.path.exists(exe):
                return exe
            cmds, objs = [], []
            for s in srcs:
                o = exe + "." + s.replace("/", "_") + ".o"
                cmds.append("%s %s %s %s -I%s/harness -c %s/harness/%s -o %s" % (
                    self.cxx, self.flags, include_flags(self.dir), extra, VERIF, VERIF, s, o))
                objs.append(o)
            ps = [subprocess.Popen(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
            for p in ps:
                o, _ = p.communicate()
                if p.returncode:
                    raise BuildError("harness %s does not compile:\n%s" % (name, o[:4000]))
            lk = "%s %s %s %s %s -o %s.tmp" % (self.cxx, self.flags, extra, " ".join(objs),
                                            libs if libs is not None else self.dir + "/libdrafter.a", exe)
            r = subprocess.run(lk, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                raise BuildError("harness %s does not link:\n%s" % (name, r.stdout[:4000]))
            for o in objs:
                os.unlink(o)
            os.rename(exe + ".tmp", exe)
        return exe

    def cli(self):
        return self.link("drafter-cli", [], libs="%s/o/main.cc.o %s/libdrafter.a" % (self.dir, self.dir))
