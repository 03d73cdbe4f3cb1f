"""Builds one check: instruments the parts of /repo it drives, its workload, and links the simulator runtime."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
OUT = os.environ.get("SIM_BUILD", os.path.join(VERIF, "build"))
JOBS = max(1, len(os.sched_getaffinity(0)))
CXX = "g++"
BASE = ["-std=c++17", "-g1", "-fno-pie", "-w", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/eigen3",
        "-D_LIBCPP_NO_EXPERIMENTAL_DEPRECATION_WARNING_FILESYSTEM"]
INSTR = BASE + ["-I" + SIM, "-O1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
                "-include", SIM + "/pre.h"]
RT = BASE + ["-O2", "-fno-threadsafe-statics"]
REDEF = ["memcpy", "memmove", "memset", "malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc"]
MODULES = ["api", "base", "common", "drake", "geometry_base", "math", "plugin", "routing", "test_utilities", "utility"]


class BuildError(Exception):
    pass


def sources(modules):
    out = []
    for m in modules:
        for root, _, files in sorted(os.walk(os.path.join(REPO, "src/maliput", m))):
            for f in sorted(files):
                if f.endswith((".cc", ".cpp", ".cxx")):
                    out.append(os.path.join(root, f))
    return out


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, files in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


_headers = None


def headers_key():
    global _headers
    if _headers is None:
        _headers = tree_hash([REPO + "/include"]) + tree_hash_h(REPO + "/src") + tree_hash_h(SIM)
    return _headers


def tree_hash_h(d):
    h = hashlib.sha256()
    for root, ds, files in sorted(os.walk(d)):
        ds.sort()
        for f in sorted(files):
            if f.endswith((".h", ".hh", ".hpp", ".inc")):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def compile_one(src, flags, redef):
    with open(src, "rb") as fh:
        key = hashlib.sha256((" ".join(flags) + src + headers_key() + str(redef)).encode() + fh.read()).hexdigest()[:32]
    obj = os.path.join(OUT, "obj", key + "_" + os.path.basename(src) + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s:\n%s" % (src, r.stdout[-3000:]))
    if redef:
        args = ["objcopy"]
        for s in REDEF:
            args += ["--redefine-sym", s + "=sim_" + s]
        r = subprocess.run(args + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("objcopy %s: %s" % (src, r.stdout))
    os.replace(tmp, obj)
    return obj


def build(check, workload, modules):
    """Returns the path of the simulator binary of this check."""
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    repo_src = sources(modules)
    jobs = [(os.path.join(SIM, w), INSTR, True) for w in workload]
    jobs += [(os.path.join(SIM, f), RT, False) for f in ("rt.cc", "rt_fs.cc")]
    n_w = len(workload)
    # biggest first, for a better finish
    big = sorted(repo_src, key=lambda s: -os.path.getsize(s))

    def all_objs(srcs):
        with ThreadPoolExecutor(JOBS) as ex:
            fut = [ex.submit(compile_one, *j) for j in jobs] + [ex.submit(compile_one, s, INSTR, True) for s in srcs]
            res = [f.result() for f in fut]
        return res[:n_w], res[n_w:len(jobs)], res[len(jobs):]

    wobj, robj, lobj = all_objs(big)

    def link(lobjs):
        lobjs = sorted(lobjs, key=os.path.basename)
        key = hashlib.sha256(" ".join(wobj + robj + lobjs).encode()).hexdigest()[:24]
        exe = os.path.join(OUT, "bin", check + "_" + key)
        if os.path.exists(exe):
            return exe, None
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        if lobjs:
            subprocess.run(["ar", "qcs", ar] + lobjs, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        tmp = exe + ".tmp"
        cmd = [CXX, "-no-pie", "-static-libstdc++", "-static-libgcc", "-o", tmp] + wobj
        if lobjs:
            cmd += ["-Wl,--start-group", ar, "-Wl,--end-group"]
        cmd += robj + ["/usr/lib/x86_64-linux-gnu/libyaml-cpp.a", "/usr/lib/gcc/x86_64-linux-gnu/13/libstdc++fs.a", "-ldl", "-lpthread"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(ar):
            os.unlink(ar)
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, exe)
        return exe, None

    exe, err = link(lobj)
    if exe is None and set(modules) != set(MODULES):
        # A module now depends on another one: link against everything.
        _, _, lobj = all_objs(sources(MODULES))
        exe, err = link(lobj)
    if exe is None:
        raise BuildError("link failed:\n" + err[-4000:])
    return exe
