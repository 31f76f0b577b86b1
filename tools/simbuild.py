"""Builds the simulator variants from /repo's current working tree. Everything goes to /verif/build (ignored by git).

The library's objects are the only ones instrumented; the symbols through which it could reach the outside (allocator,
string functions, output, clocks, ...) are redirected to the simulator with objcopy, in the objects, so /repo needs no hooks.
"""
import fcntl, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CC, CXX = "clang", "clang++"

# the grammar files the committed Compiler.[ch] / Scanner.[ch] belong to (same rule as the project's build)
PINNED = {"Compiler": ("Compiler.y", "8eba315a3f8f473bb702aa5f93f4bb12d25e804a57195f01c600199862b92c1d"),
          "Scanner": ("Scanner.l", "19e8ed66dd8edb3a91fd56d3c56dbd02fc787cf208364581fe141ff5f34bf4a1")}

COV = ["-fsanitize-coverage=bb,trace-pc,trace-loads,trace-stores"]
VARIANTS = {
    # name: (description, library flags, harness flags, shim, asan)
    "D": ("double, assertions on, -O0", ["-O0"], ["-DSIM_F=8"], False, False),
    "F": ("float, NDEBUG, -O2", ["-O2", "-DNDEBUG", "-DPRJM_F_SIZE=4", "-DEEL_F_SIZE=4"], ["-DSIM_F=4", "-DPRJM_F_SIZE=4", "-DEEL_F_SIZE=4"], False, False),
    "DA": ("double, AddressSanitizer, -O1", ["-O1", "-fsanitize=address"], ["-DSIM_F=8", "-DSIM_ASAN"], False, True),
    "S": ("double through the ns-eel2 shim, -O1", ["-O1"], ["-DSIM_F=8", "-DSIM_SHIM"], True, False),
    "SF": ("float through the ns-eel2 shim, NDEBUG, -O2", ["-O2", "-DNDEBUG", "-DPRJM_F_SIZE=4", "-DEEL_F_SIZE=4"],
           ["-DSIM_F=4", "-DPRJM_F_SIZE=4", "-DEEL_F_SIZE=4", "-DSIM_SHIM"], True, False),
    # what the project's Release configuration executes by default; only used where no value matters
    "R": ("double, NDEBUG, -Ofast, values not judged", ["-Ofast", "-DNDEBUG"], ["-DSIM_F=8", "-DSIM_FASTMATH"], False, False),
}
WRAP = """malloc calloc free realloc reallocarray aligned_alloc posix_memalign strdup strndup vasprintf asprintf memcpy memmove
memset memcmp strlen strnlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy stpcpy strcat atoi atof strtod strtof strtoul strtol strtoll strspn strchr tolower toupper __ctype_tolower_loc __ctype_toupper_loc localeconv
vsnprintf snprintf sprintf pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
pthread_spin_lock pthread_spin_unlock mtx_lock mtx_unlock pthread_once call_once""".split()
ALIAS = {"__strdup": "strdup", "__isoc23_strtol": "strtol", "__isoc23_strtoul": "strtoul", "__isoc23_strtoll": "strtoll", "__isoc99_strtod": "strtod", "strtold": None, "bcopy": None,
         "__memcpy_chk": None}
DENY = {}
for _cls, _names in ((0, "exit _exit _Exit abort __assert_fail __assert quick_exit raise kill pthread_kill pthread_exit tgkill __stack_chk_fail __fortify_fail"),
                     (1, "printf fprintf vfprintf vprintf puts putchar putc fwrite fputs fputc perror write dprintf vdprintf syslog putchar_unlocked "
                         "fwrite_unlocked fputs_unlocked writev pwrite fflush __printf_chk __fprintf_chk _IO_putc"),
                     (2, "fopen fopen64 freopen tmpfile open open64 openat creat read fread getc fgetc getchar fgets gets getline getdelim ungetc scanf fscanf "
                         "getenv secure_getenv setenv putenv unsetenv time clock clock_gettime clock_getres gettimeofday times ftime timespec_get rand random "
                         "rand_r srand srandom drand48 lrand48 mrand48 srand48 erand48 nrand48 jrand48 arc4random getrandom getentropy localtime localtime_r gmtime gmtime_r mktime strftime "
                         "setlocale system popen fork vfork execve execv execvp execl socket connect getpid getppid gettid getuid gethostname uname sysconf "
                         "nanosleep usleep sleep sched_yield alarm setitimer signal sigaction pthread_create pthread_self sched_getcpu remove unlink rename mkdir "
                         "opendir stat lstat fstat access isatty getcwd chdir sysinfo getrusage dlopen dlsym getauxval clock_nanosleep select poll")):
    for _n in _names.split():
        DENY[_n] = _cls
FLEX_OK = {"isatty"}  # asked by the scanner only for files it never gets


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("$ %s\n%s" % (" ".join(cmd), r.stdout))
    return r.stdout


class BuildError(Exception):
    pass


def repo_files():
    out = []
    for d in ("projectm-eval", "projectm-eval/api", "ns-eel2-shim"):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if f.endswith((".c", ".h", ".y", ".l")):
                out.append(os.path.join(d, f))
    return out


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def sim_sources():
    d = os.path.join(VERIF, "sim")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".h")))


def grammar(src):
    """Same rule as the project's build: unchanged grammar -> the committed C, changed grammar -> generate."""
    pe = os.path.join(src, "projectm-eval")
    for stem, (g, pin) in PINNED.items():
        with open(os.path.join(pe, g), "rb") as f:
            if hashlib.sha256(f.read()).hexdigest() == pin:
                continue
        for e in (".c", ".h"):
            try:
                os.unlink(os.path.join(pe, stem + e))
            except FileNotFoundError:
                pass
        if stem == "Compiler":
            run(["bison", "--defines=Compiler.h", "--no-lines", "-o", "Compiler.c", "Compiler.y"], cwd=pe)
        else:
            run(["flex", "--noline", "--prefix=prjm_eval_", "--header-file=Scanner.h", "-o", "Scanner.c", "Scanner.l"], cwd=pe)


def build_variant(v, out, src, pool):
    desc, lf, hf, shim, asan = VARIANTS[v]
    od = os.path.join(out, "obj-" + v)
    os.makedirs(od)
    inc = ["-I" + src, "-I" + os.path.join(src, "projectm-eval"), "-I" + os.path.join(src, "projectm-eval/api")]
    dirs = ["projectm-eval", "projectm-eval/api"] + (["ns-eel2-shim"] if shim else [])
    cfiles = [os.path.join(src, d, f) for d in dirs for f in sorted(os.listdir(os.path.join(src, d))) if f.endswith(".c")]
    base = ["-g", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer", "-fno-stack-protector", "-fno-pie", "-w", "-ffp-contract=off"]
    objs, jobs = [], []
    for i, c in enumerate(cfiles):
        o = os.path.join(od, "lib%d_%s.o" % (i, os.path.basename(c)[:-2]))
        objs.append(o)
        jobs.append(pool.submit(run, [CC, "-c"] + base + lf + COV + inc + [c, "-o", o]))
    for j in jobs:
        j.result()
    # which symbols do the objects need from outside?
    undef = set()
    for o in objs:
        for l in run(["nm", "-u", o]).splitlines():
            p = l.split()
            if len(p) == 2:
                undef.add(p[1])
    redef, stubs = [], []
    for s in sorted(undef):
        w = ALIAS.get(s) or s
        if w in WRAP:
            redef.append("%s sim_%s" % (s, w))
        elif s in ("__asan_memcpy", "__asan_memset", "__asan_memmove"):
            redef.append("%s sim_%s" % (s, s[7:]))
        elif s in DENY and s not in FLEX_OK:
            redef.append("%s sim_deny_%s" % (s, s))
            stubs.append(s)
    rounds = []  # objcopy wants distinct targets within one pass
    for r in redef:
        for x in rounds:
            if r.split()[1] not in [y.split()[1] for y in x]:
                x.append(r)
                break
        else:
            rounds.append([r])
    for i, x in enumerate(rounds):
        rs = os.path.join(od, "redef%d" % i)
        with open(rs, "w") as f:
            f.write("\n".join(x) + "\n")
        for o in objs:
            run(["objcopy", "--redefine-syms=" + rs, o])
    dc = os.path.join(od, "deny.c")
    with open(dc, "w") as f:
        f.write("long sim_denied(const char*, int);\n")
        for s in stubs:
            f.write("long sim_deny_%s(void) { return sim_denied(\"%s\", %d); }\n" % (s, s, DENY[s]))
    run([CC, "-c", "-O1", "-fno-pie", dc, "-o", os.path.join(od, "deny.o")])
    return objs + [os.path.join(od, "deny.o")]


def harness_objs(v, hd, src, pool):
    desc, lf, hf, shim, asan = VARIANTS[v]
    inc = ["-I" + src, "-I" + os.path.join(src, "projectm-eval"), "-I" + os.path.join(src, "projectm-eval/api")]
    res = []
    for c in sim_sources():
        if c.endswith(".cpp"):
            o = os.path.join(hd, os.path.basename(c)[:-4] + "." + v + ".o")
            res.append((o, pool.submit(run, [CXX, "-c", "-std=c++17", "-O2", "-g1", "-fno-pie", "-w", "-ffp-contract=off", "-DSIM_VARIANT=\"%s\"" % v] + hf + inc + [c, "-o", o])))
    return res


def prune(keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("b-")]
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[6:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def ensure(variants, log=None):
    """Returns {variant: path of the simulator binary} for /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        files = [os.path.join(REPO, f) for f in repo_files()]
        key = digest(files + sim_sources() + [os.path.abspath(__file__)])[:20]
        out = os.path.join(BUILD, "b-" + key)
        os.makedirs(out, exist_ok=True)
        os.utime(out)
        need = [v for v in variants if not os.path.exists(os.path.join(out, "sim-" + v))]
        if need:
            src = os.path.join(out, "src")
            if not os.path.exists(os.path.join(out, "src.ok")):
                shutil.rmtree(src, ignore_errors=True)
                for f in repo_files():
                    os.makedirs(os.path.dirname(os.path.join(src, f)), exist_ok=True)
                    shutil.copy(os.path.join(REPO, f), os.path.join(src, f))
                grammar(src)
                open(os.path.join(out, "src.ok"), "w").close()
            with ThreadPoolExecutor(os.cpu_count() or 4) as pool, ThreadPoolExecutor(8) as outer:
                def one(v):
                    shutil.rmtree(os.path.join(out, "obj-" + v), ignore_errors=True)
                    hd = os.path.join(out, "h-" + v)
                    os.makedirs(hd, exist_ok=True)
                    hj = harness_objs(v, hd, src, pool)
                    objs = build_variant(v, out, src, pool)
                    for o, j in hj:
                        j.result()
                    asan = VARIANTS[v][4]
                    tmp = os.path.join(out, "tmp-" + v)
                    run([CXX, "-no-pie", "-o", tmp] + [o for o, _ in hj] + objs + (["-fsanitize=address"] if asan else []) + ["-lm", "-lpthread"])
                    os.rename(tmp, os.path.join(out, "sim-" + v))
                    shutil.rmtree(hd, ignore_errors=True)
                    shutil.rmtree(os.path.join(out, "obj-" + v), ignore_errors=True)
                fs = [outer.submit(one, v) for v in need]
                for f in fs:
                    f.result()
        prune(out)
        return {v: os.path.join(out, "sim-" + v) for v in variants}


if __name__ == "__main__":
    try:
        for v, p in ensure(sys.argv[1:] or list(VARIANTS)).items():
            print(v, p)
    except BuildError as e:
        print(e)
        sys.exit(2)
