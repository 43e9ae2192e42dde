"""Builds the simulators from /repo's working tree and the files of /verif/sim. Nothing is written in /repo."""
import concurrent.futures
import glob
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PUDDING = REPO + "/samples/pudding"


class BuildError(Exception):
    pass


def run_all(cmds):
    def one(c):
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return c, p.returncode, p.stdout

    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for c, rc, out in ex.map(one, cmds):
            if rc != 0:
                raise BuildError("%s\n%s" % (" ".join(c), out[-4000:]))


INC = ["-I" + VERIF + "/sim/stub", "-I" + REPO + "/public", "-I" + PUDDING + "/public", "-I" + PUDDING + "/public/pudding",
       "-I" + PUDDING + "/src"]
SAN = ["-std=c++17", "-g1", "-O1", "-fsanitize=address,undefined", "-fsanitize-undefined-trap-on-error",
       "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer", "-w"]
SIM = ["-std=c++17", "-g1", "-O1", "-Wall", "-Wno-mismatched-new-delete"]


def build_pudding(out, exhaustion=False):
    """simA: the whole of pudding, real code, on simulated Vulkan and SDL. simU: the same with an optimised uid.cpp."""
    os.makedirs(out, exist_ok=True)
    cmds, objs, uid = [], [], None
    for src in sorted(glob.glob(VERIF + "/sim/pudding/*.cpp")):
        o = "%s/sim_%s.o" % (out, os.path.basename(src)[:-4])
        cmds.append(["g++"] + SIM + INC + ["-c", src, "-o", o])
        objs.append(o)
    for src in sorted(glob.glob(PUDDING + "/src/*.cpp")):
        name = os.path.basename(src)[:-4]
        if name == "vk_mem_alloc":
            continue  # instantiates the allocator library, which the simulator replaces
        o = "%s/p_%s.o" % (out, name)
        cmds.append(["g++"] + SAN + INC + ["-c", src, "-o", o])
        if name == "uid":
            uid = o
        objs.append(o)
    if exhaustion:
        cmds.append(["g++", "-std=c++17", "-O2", "-w"] + INC + ["-c", PUDDING + "/src/uid.cpp", "-o", out + "/uid_fast.o"])
    run_all(cmds)
    links = [["g++", "-fsanitize=address"] + objs + ["-lfmt", "-o", out + "/simA"]]
    if exhaustion:
        links.append(["g++", "-fsanitize=address"] + [o for o in objs if o != uid] + [out + "/uid_fast.o", "-lfmt", "-o", out + "/simU"])
    run_all(links)


OPS = ["core", "vga", "pga_a", "pga_b", "pga2", "cga"]
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign", "memcpy", "memmove", "memset",
                                                   "vsnprintf", "vsprintf", "snprintf", "sprintf", "strcpy", "strncpy", "strcat"))]
RT = ["-std=c++17", "-O1", "-g1", "-Wall", "-fno-threadsafe-statics"]


def build_threads(out, fast=False):
    """simT: the operations of gal, every memory access a scheduling point (our own __tsan_* runtime).
    simF: the same operations optimised and without scheduling points, for long histories."""
    os.makedirs(out, exist_ok=True)
    src = VERIF + "/sim/threads/"
    cmds = [["g++"] + RT + ["-c", src + f + ".cpp", "-o", "%s/%s.o" % (out, f)] for f in ("rt", "main")]
    objs = {"simT": [], "simF": []}
    for kind, number in (("f", []), ("d", ["-DSIM_DOUBLE"])):
        for f in OPS:
            o = "%s/t_%s_%s.o" % (out, kind, f)
            cmds.append(["g++", "-std=c++17", "-O0", "-g1", "-w", "-DGAL_DEBUG", "-fsanitize=thread"] + number +
                        ["-I" + REPO + "/public", "-c", src + "ops_%s.cpp" % f, "-o", o])
            objs["simT"].append(o)
            if fast:
                o = "%s/f_%s_%s.o" % (out, kind, f)
                cmds.append(["g++", "-std=c++17", "-O2", "-g1", "-w", "-DGAL_DEBUG"] + number +
                            ["-I" + REPO + "/public", "-c", src + "ops_%s.cpp" % f, "-o", o])
                objs["simF"].append(o)
    run_all(cmds)
    run_all([["g++", out + "/rt.o", out + "/main.o"] + objs[b] + WRAP + ["-ldl", "-lpthread", "-o", out + "/" + b]
             for b in ("simT", "simF") if objs[b]])


def build_log(out):
    """simL: the log of pudding, every memory access a scheduling point."""
    os.makedirs(out, exist_ok=True)
    src = VERIF + "/sim/threads/"
    cmds = [["g++"] + RT + ["-c", src + f + ".cpp", "-o", "%s/%s.o" % (out, f)] for f in ("rt", "main")]
    cmds.append(["g++"] + RT + ["-DPD_SIM"] + INC + ["-c", src + "log.cpp", "-o", out + "/log.o"])
    cmds.append(["g++", "-std=c++17", "-O0", "-g1", "-w", "-DPD_SIM", "-fsanitize=thread"] + INC + ["-c", PUDDING + "/src/log.cpp", "-o", out + "/p_log.o"])
    run_all(cmds)
    run_all([["g++"] + [out + "/" + f + ".o" for f in ("rt", "main", "log", "p_log")] + WRAP + ["-lfmt", "-ldl", "-lpthread", "-o", out + "/simL"]])
