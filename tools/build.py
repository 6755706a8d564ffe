#!/usr/bin/env python3
"""Builds the simulator executable from /repo's working tree. Prints its path. Objects are cached by content."""
import concurrent.futures, hashlib, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
BASE = ["-std=c++20", "-O1", "-g1", "-pthread", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
        "-U_FORTIFY_SOURCE", "-DWBMQTT_COMMIT=\"sim\"", "-DWBMQTT_VERSION=\"0\"", "-w"]
INSTR = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib/gcc,json.h"]
INC = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "stub"), "-I" + os.path.join(HERE, "stub/gurux")]


def walk(d, exts):
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                yield os.path.join(root, f)


def sources():
    src = [f for f in walk(os.path.join(REPO, "src"), (".cpp",)) if not f.endswith("devices/dlms_device.cpp")]
    stub = list(walk(os.path.join(HERE, "stub"), (".cpp",)))
    s = list(walk(os.path.join(HERE, "sim"), (".cpp",)))
    return src, stub, s


# With asan the address sanitizer watches every memory access of the service and of the simulator
def build(verbose=True, asan=bool(os.environ.get("SIM_ASAN"))):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    h = hashlib.sha256()
    for d, e in ((os.path.join(REPO, "src"), (".h", ".hpp")), (os.path.join(HERE, "stub"), (".h",))):
        for f in walk(d, e):
            h.update(os.path.relpath(f, d).encode() + b"\0" + open(f, "rb").read())
    hdr = h.hexdigest()
    hs = hashlib.sha256()
    for f in walk(os.path.join(HERE, "sim"), (".h",)):
        hs.update(open(f, "rb").read())
    simhdr = hs.hexdigest()
    jobs, objs = [], []
    src, stub, sims = sources()
    for f in src + stub + sims:
        flags = list(BASE) + (["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR"] if asan else [])
        if f in sims:
            flags += ["-I" + os.path.join(HERE, "sim")]
        else:
            flags += INSTR
        if f == os.path.join(REPO, "src/main.cpp"):
            flags.append("-Dmain=WbSerialMain")
        k = hashlib.sha256()
        for p in flags:
            k.update(p.encode() + b"\0")
        k.update(hdr.encode())
        if f in sims:
            k.update(simhdr.encode())
        k.update(f.encode() + b"\0" + open(f, "rb").read())
        o = os.path.join(OUT, "obj", os.path.basename(f)[:-4] + "-" + k.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(f), f, ["g++"] + flags + INC + ["-c", f, "-o", o + ".tmp%d" % os.getpid()], o))
    jobs.sort(reverse=True)
    t = time.time()

    def run(j):
        r = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return "cannot compile %s\n%s" % (j[1], r.stdout[-6000:])
        os.rename(j[2][-1], j[3])
        return None

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for e in ex.map(run, jobs):
            if e:
                sys.exit("BUILD FAILED: " + e)
    k = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(OUT, "sim-" + k)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run(["g++"] + (["-fsanitize=address"] if asan else []) + ["-no-pie", "-rdynamic", "-pthread", "-o", tmp] + objs + ["-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.exit("BUILD FAILED: cannot link\n" + r.stdout[-6000:])
        os.rename(tmp, exe)
    # drop what is no longer used
    keep = set(objs) | {exe}
    now = time.time()
    for d in (OUT, os.path.join(OUT, "obj")):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p) and p not in keep and now - os.path.getmtime(p) > 6 * 3600:
                os.unlink(p)
    if verbose:
        print("built %d objects in %.1f s" % (len(jobs), time.time() - t), file=sys.stderr)
    return exe


if __name__ == "__main__":
    print(build())
