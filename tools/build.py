#!/usr/bin/env python3
# Builds the simulator from /repo's working tree: keyd is compiled once (twice with the usb-gadget backend),
# its libc calls renamed to sim_*, and linked several times (one copy per simulated process).
import os, sys, subprocess, hashlib, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, ".build"))
INSTANCES = [("kd0", "uinput"), ("kd1", "uinput"), ("kd2", "uinput"), ("kd3", "uinput"), ("kd4", "uinput"), ("kd5", "usb-gadget")]
SIMSRC = sorted(glob.glob(os.path.join(V, "sim", "*.cpp")))

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("build: " + " ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(3)
    return r.stdout

def hash_files(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def build(quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    srcs = [f for f in glob.glob(REPO + "/src/*.c")]
    allsrc = [f for p in ("*.c", "*.h") for d in ("src", "src/vkbd", "src/ext") for f in glob.glob(f"{REPO}/{d}/{p}")]
    simfiles = SIMSRC + glob.glob(os.path.join(V, "sim", "*.h"))
    key = hash_files(allsrc + simfiles + [os.path.abspath(__file__)] + glob.glob(REPO + "/data/keyd.compose"), REPO)
    out = os.path.join(BUILD, "sim-" + key)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix="b", dir=BUILD)
    try:
        jobs = []
        cflags = ["-O1", "-g", "-std=c11", "-D_DEFAULT_SOURCE", "-U_FORTIFY_SOURCE", "-fno-pic", "-fno-stack-protector",
                  "-fno-common", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-Dmain=keyd_main", "-w",
                  '-DVERSION="sim"', '-DSOCKET_PATH="/var/run/keyd.socket"', '-DCONFIG_DIR="/etc/keyd"',
                  '-DDATA_DIR="/usr/local/share/keyd"']
        for b in ("uinput", "usb-gadget"):
            os.makedirs(f"{tmp}/{b}")
            for s in srcs + [f"{REPO}/src/vkbd/{b}.c"]:
                if b != "uinput" and not s.endswith("/vkbd/%s.c" % b):
                    continue
                o = f"{tmp}/{b}/" + os.path.basename(s)[:-2] + ".o"
                jobs.append(["gcc", *cflags, "-c", s, "-o", o])
        cxx = os.environ.get("SIM_CXXFLAGS", "-O1 -g").split()
        sobjs = []
        for s in SIMSRC:
            k = hash_files([s] + glob.glob(os.path.join(V, "sim", "*.h")), " ".join(cxx))
            o = f"{BUILD}/{os.path.basename(s)[:-4]}-{k}.o"
            sobjs.append(o)
            if not os.path.exists(o):
                for old in glob.glob(f"{BUILD}/{os.path.basename(s)[:-4]}-*.o"):
                    os.unlink(old)
                jobs.append(["g++", "-std=c++17", *cxx, "-Wall", "-Wno-unused-result", "-fno-pic", "-c", s, "-o", o])
        with open(f"{tmp}/repo.c", "w") as f:
            f.write('const char *sim_repo_dir = "%s";\n' % REPO)
        jobs.append(["gcc", "-fno-pic", "-c", f"{tmp}/repo.c", "-o", f"{tmp}/repo.o"])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        # the gadget backend: its key entry point is observed (see sim_gadget_key)
        g = f"{tmp}/usb-gadget/usb-gadget.o"
        if " T vkbd_send_key" in run(["nm", g]):
            run(["objcopy", "--redefine-sym", "vkbd_send_key=real_vkbd_send_key", g])
            with open(f"{tmp}/tap.c", "w") as f:
                f.write("#include <stdint.h>\nstruct vkbd; void sim_gadget_key(int, int); void real_vkbd_send_key(const struct vkbd *, uint8_t, int);\n"
                        "void vkbd_send_key(const struct vkbd *v, uint8_t c, int s) { sim_gadget_key(c, s); real_vkbd_send_key(v, c, s); }\n")
            run(["gcc", *cflags, "-c", f"{tmp}/tap.c", "-o", f"{tmp}/tap.o"])
            run(["ld", "-r", "-o", g + "2", g, f"{tmp}/tap.o"])
            os.rename(g + "2", g)
        ld = {}
        for b in ("uinput", "usb-gadget"):
            objs = [f"{tmp}/uinput/" + os.path.basename(s)[:-2] + ".o" for s in srcs] + [f"{tmp}/{b}/{b}.o"]
            run(["ld", "-r", "-o", f"{tmp}/{b}.all.o", *objs])
            und = [l.split()[-1] for l in run(["nm", "-u", f"{tmp}/{b}.all.o"]).splitlines() if l.strip()]
            ld[b] = und
        shim = [l.split()[-1] for o in sobjs if "/shim-" in o for l in run(["nm", "--defined-only", "-g", o]).splitlines()]
        simset = set(x[4:] for x in shim if x.startswith("sim_"))
        simset |= {"__assert_fail", "__isoc99_sscanf"} if False else {"__assert_fail"}
        PASS = set("""memcpy memset memmove memcmp strcmp strncmp strcpy strncpy strcat strncat strchr strrchr strstr strlen strnlen
            strcasecmp strncasecmp strtol strtoul strtoll strtoull atoi atol isspace isdigit isalpha isprint tolower toupper __ctype_b_loc
            snprintf vsnprintf sprintf sscanf __isoc99_sscanf __isoc23_sscanf __isoc23_strtol __isoc23_strtoul __errno_location strerror basename
            dirname strspn strcspn strpbrk stpcpy qsort bsearch abs labs stdout stderr stdin strtok_r strsep memchr
            memmem strchrnul rawmemchr memrchr strtof strtod strtoimax strtoumax sigemptyset sigfillset sigaddset sigdelset sigismember rand srand random srandom
            pthread_mutex_trylock pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize pthread_attr_setdetachstate getopt getopt_long optarg optind
            isupper islower isalnum ispunct isxdigit __ctype_toupper_loc __ctype_tolower_loc strcoll ffs labs div
            __popcountdi2 __xpg_basename mempcpy htons ntohs realpath""".split())
        unknown = [u for u in set(sum(ld.values(), [])) if u not in simset and u not in PASS and not u.startswith("sim_") and not u.startswith("__asan") and not u.startswith("__ubsan")
                   and not u.startswith("_GLOBAL_") and not u.startswith("__sanitizer")]
        if unknown:
            sys.stderr.write("build: libc calls without a simulated counterpart: %s\n" % " ".join(sorted(unknown)))
            # linked to the real function; pure ones are harmless
        objs = []
        jobs = []
        for name, b in INSTANCES:
            redef = f"{tmp}/{name}.redef"
            with open(redef, "w") as f:
                for u in ld[b]:
                    if u == "__assert_fail":
                        f.write("__assert_fail sim_assert_fail\n")
                    elif u in simset:
                        f.write(f"{u} sim_{u}\n")
                f.write(f"keyd_main {name}_main\n")
            o = f"{tmp}/{name}.o"
            keep = ["--keep-global-symbol", f"{name}_main"]
            jobs.append(["objcopy", "--redefine-syms", redef, *keep, "--rename-section", f".data={name}_data",
                         "--rename-section", f".bss={name}_bss,alloc,load,data,contents", f"{tmp}/{b}.all.o", o])
            objs.append(o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        run(["g++", "-no-pie", "-fsanitize=address,undefined", "-o", f"{tmp}/sim", *sobjs, f"{tmp}/repo.o", *objs, "-lpthread"])
        for old in glob.glob(f"{BUILD}/sim-*"):
            os.unlink(old)
        os.rename(f"{tmp}/sim", out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out

if __name__ == "__main__":
    print(build())
