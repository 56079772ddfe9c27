#!/usr/bin/env python3
"""Builds the simulator against the current working tree of /repo (into /verif/build, content-addressed)."""
import concurrent.futures as cf, fcntl, glob, hashlib, os, re, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("UMLCC_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

REDIR = """malloc calloc realloc reallocarray free strdup strndup memcpy memmove memset memcmp strlen strnlen strcpy
stpcpy strncpy strcat strncat strcmp strncmp strchr strrchr strstr sprintf vsprintf snprintf vsnprintf
asprintf vasprintf getdelim getline fprintf vfprintf fopen fclose freopen fread fwrite fputs printf vprintf puts putchar perror rename unlink remove access stat fstat open
creat read write lseek close fdopen fileno fsync ftruncate mkstemp tmpfile tmpnam exit _exit abort raise atexit
__assert_fail time clock gettimeofday clock_gettime rand random srand getpid getppid getenv system popen fork sleep
usleep stderr stdout stdin""".split()
EXTRA = {"main": "umlcc_main", "_Exit": "sim__exit", "srandom": "sim_srand", "fopen64": "sim_fopen", "open64": "sim_open",
         "lseek64": "sim_lseek", "fdatasync": "sim_fsync", "__strdup": "sim_strdup", "quick_exit": "sim__exit",
         "mkstemp64": "sim_mkstemp", "tmpfile64": "sim_tmpfile", "stat64": "sim_stat", "fstat64": "sim_fstat", "lstat": "sim_stat"}
CFLAGS = ("-std=c99 -O1 -g1 -fno-pie -fno-stack-protector -U_FORTIFY_SOURCE -fno-common -fno-builtin-printf -fno-builtin-fprintf "
          "-fno-builtin-malloc -fno-builtin-calloc -fno-builtin-realloc -fno-builtin-free -fno-optimize-sibling-calls "
          "-fsanitize=kernel-address -fasan-shadow-offset=0x100000000000 --param asan-instrumentation-with-call-threshold=0 "
          "--param asan-stack=1 --param asan-globals=1 -fsanitize-coverage=trace-pc -w").split()
CXXFLAGS = "-std=c++17 -O2 -g1 -fno-pie -U_FORTIFY_SOURCE -fno-stack-protector -Wall -Wextra -Wno-unused-function".split()


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update((os.path.relpath(p, REPO) if p.startswith(REPO + "/") else os.path.basename(p)).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError(" ".join(cmd)[:300] + "\n" + r.stdout[-3000:])
    return r.stdout


def build(verbose=False):
    """returns the path of the simulator binary for the current tree"""
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(verbose)


def _build(verbose):
    srcs = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    hdrs = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    simsrc = sorted(glob.glob(VERIF + "/sim/*.cpp"))
    simhdr = sorted(glob.glob(VERIF + "/sim/*.h"))
    ukey = sha(srcs + hdrs, " ".join(CFLAGS + REDIR) + str(sorted(EXTRA.items())))
    skey = sha(simsrc + simhdr, " ".join(CXXFLAGS))
    binp = os.path.join(OUT, "simx-%s-%s" % (skey[:12], ukey[:12]))
    if os.path.exists(binp):
        os.utime(binp)
        return binp
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        futs = []
        ulib = os.path.join(OUT, "uml-%s.o" % ukey)
        udir = os.path.join(OUT, "u-" + ukey)
        objs = []
        if not os.path.exists(ulib):
            os.makedirs(udir, exist_ok=True)
            hh = sha(hdrs, " ".join(CFLAGS))
            for s in srcs:
                o = os.path.join(OUT, "o-%s.o" % sha([s], hh))
                objs.append(o)
                if not os.path.exists(o):
                    futs.append(ex.submit(lambda s=s, o=o: (run(["gcc"] + CFLAGS + ["-c", s, "-o", o + ".tmp"]), os.rename(o + ".tmp", o))))
                else:
                    os.utime(o)
        sobjs = []
        hk = sha(simhdr, " ".join(CXXFLAGS))
        for s in simsrc:
            o = os.path.join(OUT, "s-%s-%s.o" % (os.path.basename(s)[:-4], sha([s], hk)))
            sobjs.append(o)
            if not os.path.exists(o):
                futs.append(ex.submit(lambda s=s, o=o: (run(["g++"] + CXXFLAGS + ["-c", s, "-o", o + ".tmp"]), os.rename(o + ".tmp", o))))
        for f in futs:
            f.result()
    if not os.path.exists(ulib):
        comb = os.path.join(udir, "all.o")
        run(["ld", "-r", "-o", comb] + objs)
        rf = os.path.join(udir, "redir.txt")
        present = set(run(["nm", "-f", "posix", comb]).split())
        pairs = {n: "sim_" + n for n in REDIR}
        pairs.update(EXTRA)
        passes = [[]]
        for k, v in pairs.items():
            if k not in present:
                continue
            for ps in passes:   # objcopy wants every target once per pass
                if v not in [b for _, b in ps]:
                    ps.append((k, v))
                    break
            else:
                passes.append([(k, v)])
        for ps in passes[1:]:
            run(["objcopy"] + ["--redefine-sym=%s=%s" % kv for kv in ps] + [comb])
        with open(rf, "w") as f:
            for kv in passes[0]:
                f.write("%s %s\n" % kv)
        secs = run(["objdump", "-h", comb])
        args = ["objcopy", "--redefine-syms=" + rf]
        for name in re.findall(r"^\s*\d+\s+(\S+)", secs, re.M):
            if name == ".data" or name.startswith(".data.") and "rel.ro" not in name:
                args += ["--rename-section", name + "=umldata,alloc,load,data,contents"]
            elif name == ".bss" or name.startswith(".bss."):
                args += ["--set-section-flags", name + "=alloc,load,contents", "--rename-section", name + "=umlbss,alloc,load,data,contents"]
        run(args + [comb, ulib + ".tmp"])
        # keep everything but the entry point private, so that no compiler symbol can clash with the simulator's
        run(["objcopy", "--keep-global-symbol=umlcc_main", ulib + ".tmp"])
        os.rename(ulib + ".tmp", ulib)
        shutil.rmtree(udir, ignore_errors=True)
    run(["g++", "-no-pie", "-o", binp + ".tmp"] + sobjs + [ulib])
    os.rename(binp + ".tmp", binp)
    # keep the build directory small
    keep = sorted(glob.glob(OUT + "/simx-*") + glob.glob(OUT + "/uml-*") + glob.glob(OUT + "/s-*.o"), key=os.path.getmtime, reverse=True)
    for p in keep[80:] + sorted(glob.glob(OUT + "/o-*.o"), key=os.path.getmtime, reverse=True)[600:]:
        os.unlink(p)
    return binp


if __name__ == "__main__":
    try:
        print(build(True))
    except RuntimeError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
