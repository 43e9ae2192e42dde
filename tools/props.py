"""What each check runs: simulator, odds, budget, and the texts of its evidence."""
import build

REAL = ["samples/pudding/src/*.cpp (all but the instantiation of the VMA library)", "samples/pudding/public", "public/gal (through pga2.hpp)"]
STUB = ["Vulkan (simulated device, queues, presentation engine, with the API's validity rules)", "SDL2 (simulated windows, events, clock)",
        "VMA (create/destroy only)", "heap (operator new: seeded fill, seeded failures)", "the application (subclass of pd::pudding driven by the seed)"]
ASSUME = ["the simulated Vulkan and SDL behave as their specifications allow", "one process per run; single threaded like the code under test",
          "assert-enabled build, as samples/pudding is written for"]
RULE = ("one run = one seed: configuration, device topology, user input, scheduling of GPU and presentation work and faults are drawn from it; "
        "non-trivial = at least one fault fired; distinct = distinct hash of the sequence of Vulkan/SDL calls, results and callbacks")


HOOKS = {"guard": "PD_SIM", "enable": "-DPD_SIM", "source_commits": ["b256513", "2f4cec8"]}
TECH = "deterministic simulation with fault injection: seeded search over schedules, histories and faults"
NOTE = ("Every simulated run judged by invariants during the run and checks over its history; a clean batch is evidence over the seeds run, not proof. "
        "Trusts the simulated Vulkan/SDL to allow what the specifications allow.")


def pudding(level="exploration", **kw):
    d = {"build": build.build_pudding, "level": level, "technique": TECH, "note": NOTE, "rule": RULE, "real": REAL, "stub": STUB, "assumptions": ASSUME}
    d.update(kw)
    return d


PROPS = {}
for _p in ["P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P15", "P16"]:
    PROPS[_p] = pudding(engines=[("simA", _p, 8)])
PROPS["P01"] = pudding(
    build=lambda out: build.build_pudding(out, exhaustion=True),
    engines=[("simA", "P01", 7), ("simU", "P01X", 1)], quick=15, thorough=600,
    rule="one run = one seeded history of construct/move/assign/reset/release/destroy over up to 120 handles with failing allocations; mode "
         "P01X starts with all but 48 of the 2^32-1 identifiers leased; non-trivial = an identifier was leased again or a fault fired; "
         "distinct = distinct hash of the sequence of operations and results",
    real=["samples/pudding/src/uid.cpp"], stub=["heap (operator new: seeded fill, seeded failures)"])


T_REAL = ["public/gal (all headers; the operations of vga, pga, pga2 and cga, in float and double)"]
T_STUB = ["thread scheduling (real threads, one at a time; the seed decides at every memory access of the code under test)",
          "heap (operator new and malloc: seeded failures)", "mutexes, condition variables, once flags, guards, sleeping (simulated, would report waiting)"]
T_ASSUME = ["sequentially consistent interleavings plus a happens-before race detector", "the compiler's -fsanitize=thread instrumentation marks the accesses",
            "a thread abandoned or interrupted inside an evaluation is modelled by longjmp and nested calls on its own stack"]
T_RULE = ("one run = one seed: a palette of up to 24 calls (operation and input values), 1-6 threads with their programs, placement of inputs, preemption, interruption, "
          "abandonment, stalls and failing allocations are drawn from it; non-trivial = at least one of these events fired; distinct = distinct hash of the event log")
T_NOTE = ("Every simulated run judged by invariants during the run and against the result of the same evaluation alone in a fresh process; a clean batch is evidence over the "
          "seeds run, not proof. Interleavings are sequentially consistent; expressions are the operations of sim/threads/ops_*.cpp.")


def threads(**kw):
    d = {"build": build.build_threads, "level": "exploration", "technique": TECH, "note": T_NOTE, "rule": T_RULE, "real": T_REAL, "stub": T_STUB, "assumptions": T_ASSUME,
         "quick": 20}
    d.update(kw)
    return d


for _p in ["C01", "C02", "C03", "C04", "C05", "C06"]:
    PROPS[_p] = threads(engines=[("simT", _p, 8)])
for _p in ["C07", "C08"]:
    PROPS[_p] = threads(build=lambda out: build.build_threads(out, fast=True), engines=[("simT", _p, 5), ("simF", _p + "L", 3)])
PROPS["P12"] = threads(
    build=build.build_log, engines=[("simL", "P12", 8)], real=["samples/pudding/src/log.cpp", "samples/pudding/src/log.hpp"],
    stub=T_STUB + ["standard output (captured)"],
    rule="one run = one seed: 1-6 threads logging messages of seeded sizes and severities, schedule, stalls and failing allocations are drawn from it; non-trivial = at least "
         "one of these events fired; distinct = distinct hash of the event log",
    note="Every simulated run judged against a model of the ring and the console; a clean batch is evidence over the seeds run, not proof. Interleavings are sequentially consistent.")
