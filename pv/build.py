"""Builds the library and the harnesses from /repo's working tree."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PAPILIO_REPO", "/repo")
CXX = "clang++"
# std::expected of libstdc++ is not offered to clang 18 without the second
FLAGS = ("-std=c++23 -Wno-builtin-macro-redefined -D__cpp_concepts=202002L -O0 -g1 -DNDEBUG -Wno-everything -fno-sanitize-recover=undefined "
         "-fsanitize=address,undefined -fno-omit-frame-pointer").split()


class BuildError(Exception):
    pass


def tree_key():
    """identifies the library's sources and the harness"""
    h = hashlib.sha256()
    for root in (REPO + "/include", REPO + "/src", VERIF + "/harness"):
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    h.update(" ".join(FLAGS).encode())
    return h.hexdigest()[:16]


def lib_sources():
    src = []
    for d, _, fs in os.walk(REPO + "/src"):
        for f in fs:
            if f.endswith(".cpp"):
                p = os.path.join(d, f)
                if "winapi" in f.lower():
                    continue
                src.append(p)
    return sorted(src)


def build(names, main):
    """compile harness sources `names` and the library, link them as `main`;
    returns the path of the program"""
    out = os.path.join(VERIF, "build", tree_key())
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, main)
    if os.path.exists(exe):
        return exe
    jobs = []
    for n in names:
        jobs.append((os.path.join(VERIF, "harness", n + ".cpp"), os.path.join(out, n + ".o")))
    for s in lib_sources():
        o = os.path.relpath(s, REPO).replace("/", "_")[:-4] + ".o"
        jobs.append((s, os.path.join(out, o)))

    def one(job):
        s, o = job
        if os.path.exists(o):
            return ""
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, *FLAGS, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/harness", "-c", s, "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return s + "\n" + r.stdout[-6000:]
        os.replace(tmp, o)
        return ""
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *FLAGS, "-o", tmp, *[o for _, o in jobs]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(r.stdout[-6000:])
    os.replace(tmp, exe)
    return exe
