#!/usr/bin/env python3
"""The catalogue of properties. Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "samples/pudding/src/"
H = "samples/pudding/public/pudding/"
G = "public/gal/"


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mechanism], "observe_at": list(observe), "hook_needed": hook}}


CORE_WHY = ("The tests evaluate each expression once, on one thread, without any failing resource; interleavings, interruption points and "
            "histories are never varied.")
PUD_WHY = ("No test builds or runs pudding at all, and a run on one real driver would show one schedule of one GPU without any of the rare "
           "results (out of date, suboptimal, lost device, minimised window) the API allows.")

PROPS = [
    # ------------------------------------------------------------------------------------------------ gal itself
    p("C01", "Concurrent evaluations never interfere",
      "Any number of threads may evaluate expressions at the same time, on shared or on separate inputs, without synchronisation. Every "
      "evaluation (and every entity operation: construction, conversion, selection, normalisation, logarithm) returns bit for bit the result "
      "it returns when it runs alone, and no data race occurs.",
      ["schedules", "inputs", "programs"], "every interleaving of any number of threads, at the granularity of single memory accesses, over all public runtime operations",
      CORE_WHY, [G + "engine.hpp", G + "entity.hpp", G + "vga.hpp", G + "pga.hpp", G + "pga2.hpp", G + "cga.hpp"],
      [("everything but the values is constexpr; values live in a local array", G + "engine.hpp compute")],
      [("data", "pointers to inputs and values of temporaries of one evaluation", G + "engine.hpp compute")], ["result of compute()"]),
    p("C02", "An evaluation may be interrupted by others or abandoned at any point",
      "An evaluation on a thread may be suspended at any point while other evaluations run to completion on that same thread (as from a "
      "signal handler), and may be abandoned at any point for good. All other evaluations, before, nested and after, return the results they "
      "return when they run alone, and the floating point environment of the thread is left as it was (exception flags may be raised, none is cleared).",
      ["crash_points", "schedules", "inputs"], "every interruption and abandonment point, any nesting depth, over all evaluations",
      CORE_WHY, [G + "engine.hpp", G + "entity.hpp", G + "pga.hpp"],
      [("no state outlives or is shared between evaluations", G + "engine.hpp compute")], (), ["result of compute()"]),
    p("C03", "Evaluation succeeds when no memory can be allocated",
      "Evaluating expressions and operating on entities never depends on the heap: with any or all allocation requests failing, every "
      "evaluation still completes and returns the result it returns otherwise. (Formatting as text is the only exception.)",
      ["fault_sequences", "inputs", "programs"], "every subset of failing allocation requests, in every operation",
      CORE_WHY, [G + "engine.hpp", G + "entity.hpp", G + "pga.hpp"], [("fixed-size arrays sized at compile time; noexcept", G + "engine.hpp compute")], (),
      ["result of compute()"]),
    p("C04", "Evaluation never waits for another thread",
      "Every evaluation completes within a bounded number of its own steps, whatever other threads do: in particular when other threads are "
      "stopped for good at arbitrary points inside evaluations of their own.",
      ["schedules", "crash_points"], "every set of threads stopped at every point", CORE_WHY, [G + "engine.hpp", G + "entity.hpp"],
      [("no locks, no lazily initialised shared state", G + "engine.hpp")], (), ["completion of compute()"]),
    p("C05", "Inputs are never written, not even for a moment",
      "An evaluation never writes to the objects it is given as inputs, not even a value that is restored later. Inputs may live in "
      "read-only memory, at any address allowed by their type's alignment, and may be read by other threads during the evaluation.",
      ["inputs", "schedules"], "every write performed by every operation, in every interleaving with observers", CORE_WHY,
      [G + "engine.hpp", G + "entity.hpp"], [("inputs are taken by const reference and read through pointers to const", G + "engine.hpp fill")], (),
      ["memory of the inputs"]),
    p("C06", "Text formatting is complete or fails loudly",
      "Formatting an entity or an expression as text returns the complete text or throws; if memory runs out at any point it never returns a truncated or "
      "altered text. Concurrent formatting and evaluation on other threads does not alter it, and nothing is left behind by a failure.",
      ["fault_sequences", "schedules", "inputs"], "every failing allocation, every interleaving, every entity", CORE_WHY, [G + "format.hpp", G + "expr.hpp"],
      [("stream exceptions", G + "format.hpp to_string")], (), ["result of to_string()"]),
    p("C07", "Results do not depend on what was evaluated before",
      "The result of an evaluation is determined, bit for bit, by the expression and the values of its inputs. It does not depend on which "
      "evaluations the process performed before, on how often, on which thread, at which addresses the inputs lie, or on what the stack and "
      "heap happen to contain.",
      ["histories", "inputs", "programs"], "every history of earlier evaluations and every prior content of memory", CORE_WHY,
      [G + "engine.hpp", G + "entity.hpp", G + "numeric.hpp", G + "pga.hpp"], [("temporaries are computed before they are used", G + "engine.hpp finalize_temps")], (),
      ["result of compute()"]),
    p("C08", "Results are values of their own",
      "A result that has been returned never changes: not when the inputs it was computed from are modified, moved or destroyed, nor when "
      "the same or other expressions are evaluated later, on any thread.",
      ["histories", "schedules"], "every later history of evaluations and changes to inputs", CORE_WHY, [G + "engine.hpp", G + "entity.hpp"],
      [("results are returned by value and hold numbers only", G + "engine.hpp compute_entity")], (), ["result of compute()"]),
    # ------------------------------------------------------------------------------------------------ pudding
    p("P01", "Live identifiers are unique, and exhaustion is an exception",
      "At any time all leased identifiers are distinct and different from zero, moves transfer a lease and never duplicate or lose it, and "
      "released identifiers are leased again. The hash of a lease is never that of any other lease, earlier or later. When all 2^32-1 "
      "identifiers are leased, leasing another one throws and changes nothing.",
      ["histories", "fault_sequences"], "every history of lease, move, reset and release, including failing allocations and exhaustion",
      PUD_WHY, [S + "uid.cpp", H + "detail/uid.hpp"], [("free list and counter", S + "uid.cpp")],
      [("free_ids", "released identifiers", S + "uid.cpp"), ("next", "lowest identifier never leased", S + "uid.cpp")], ["unique_id::id", "unique_id::hash"]),
    p("P02", "The GPU never uses anything that was freed, reset or reused",
      "No Vulkan object is destroyed, no command pool or command buffer is reset, re-recorded or freed while work that uses it is queued or "
      "running on the GPU or in the presentation engine. No object is used after it was destroyed, and none is destroyed twice, for any "
      "timing of the GPU and any order in which windows, views and targets are created, replaced and destroyed.",
      ["schedules", "histories", "fault_sequences"], "every timing of GPU and presentation, every history of windows, resizes and targets",
      PUD_WHY, [S + "gc.cpp", S + "pudding.cpp", S + "swapchain.cpp", S + "image_view.cpp", S + "cmd_stream.cpp"],
      [("per-frame garbage flushed after the frame's fences", S + "pudding.cpp advance_frame"), ("wait for the device before a window goes", S + "pudding.cpp ~pudding")],
      [("garbage", "objects to destroy when the frame context comes around", S + "context.hpp")], ["vkDestroy*", "vkReset*", "vkQueueSubmit"]),
    p("P03", "The semaphore and fence protocol is valid under every timing",
      "Every semaphore that is waited for has exactly one signal pending, none is signalled while signalled or pending, every submission uses "
      "an unsignalled fence that is not in use and fences are reset only when they have signalled. Rendering to an image starts only after the image was "
      "released by the presentation engine, and it is presented only after rendering to it has finished.",
      ["schedules", "fault_sequences", "configurations"], "every timing of GPU, presentation engine and acquisition, including out of date results and frame counter wrap",
      PUD_WHY, [S + "pudding.cpp", S + "swapchain.cpp"], [("one acquire semaphore and one render semaphore per frame context", S + "swapchain.cpp, " + S + "pudding.cpp")],
      [("signals_", "render-finished semaphores", S + "pudding.cpp")], ["vkQueueSubmit", "vkAcquireNextImageKHR", "vkQueuePresentKHR", "vkResetFences"]),
    p("P04", "What a window renders is shown in that window, once",
      "In every frame each window is rendered at most once, into the image acquired for that very window, and is handed a target that "
      "describes this image truthfully. Every image acquired is presented exactly once, in the same frame, to the window it belongs to, with "
      "the content this window's render call recorded; an image the window rendered nothing to is presented cleared, never in an undefined state.",
      ["schedules", "histories", "configurations"], "every number of windows, order of images, creation and destruction of windows between frames, and creation of windows within render callbacks", PUD_WHY,
      [S + "pudding.cpp", S + "swapchain.cpp"], [("per-window submit and present", S + "pudding.cpp start")], (), ["render callback", "vkQueuePresentKHR"]),
    p("P05", "Every window recovers from resizing, minimising and invalidation",
      "After any sequence of resizes, minimising and restoring, out-of-date and suboptimal results, each window whose swapchain is usable is rendered "
      "in every frame, and once disturbances stop it is rendered at its current size within three frames and in every frame from then on. "
      "Suboptimal results do not lose a frame; swapchains are recreated from their predecessor and retired ones are never acquired from or presented.",
      ["fault_sequences", "histories", "schedules"], "every sequence of surface changes at every point of the frame", PUD_WHY,
      [S + "swapchain.cpp", S + "window.cpp"], [("recreation on out of date results", S + "swapchain.cpp acquire, present")], (), ["vkAcquireNextImageKHR", "vkCreateSwapchainKHR", "render callback"]),
    p("P06", "Every input event reaches the right handler once, in order",
      "Every event of the queue causes exactly one call of the handler for its kind, on the window it is addressed to, with the event's "
      "values, in queue order and before the next frame is rendered. Events for windows that no longer exist, or of unknown kinds, cause no "
      "call, and handlers may create and destroy windows, including their own.",
      ["histories", "inputs"], "every sequence of events, mixed with window creation and destruction in handlers", PUD_WHY, [S + "pudding.cpp", H + "pudding.hpp"],
      [("event dispatch", S + "pudding.cpp start")], [("puddings", "live windows by identifier", S + "pudding.cpp")], ["on_* handlers"]),
    p("P07", "Key and mouse state follow the events, durations included",
      "A key is reported as down exactly from its press to its release, whichever windows press and release are addressed to, and the "
      "release reports the time since the press began: key repeats do not restart it and it stays right when the millisecond "
      "clock wraps around or starts at zero. Mouse button and position queries report the current mouse state.",
      ["histories", "inputs"], "every sequence of presses, repeats and releases over several windows, every clock value", PUD_WHY, [S + "pudding.cpp"],
      [("key table", S + "pudding.cpp key_states")], [("key_states", "time of press per held key", S + "pudding.cpp")], ["on_key_up", "is_key_down", "mouse_xy"]),
    p("P08", "A render pass uses exactly the targets that were pushed for it",
      "Each render pass renders to exactly the targets pushed since the previous one, in that order, with the attributes, layouts, clear "
      "values and size they have at that moment. This holds for every history of caching: whichever passes, targets and views were used, "
      "changed, replaced or destroyed before.",
      ["histories", "inputs"], "every history of passes over targets that change, are replaced and are destroyed", PUD_WHY,
      [S + "cmd_stream.cpp", H + "render_target.hpp", S + "gc.cpp", S + "uid.cpp"], [("caches of render passes and framebuffers", S + "cmd_stream.cpp")],
      [("rp_cache / fb_cache", "objects by target identity", S + "cmd_stream.cpp")], ["vkCmdBeginRenderPass"]),
    p("P09", "Failures of the driver or window system stop the program",
      "When a Vulkan or SDL call fails for good (out of memory, lost device, lost surface, initialisation failure), the program stops with an "
      "error or an exception before it does anything else with the results; it never carries on, corrupts memory or finishes as if nothing happened. "
      "Without such a failure it never stops by itself.",
      ["fault_sequences"], "every failing call at every occurrence (assert-enabled build)", PUD_WHY,
      [S + "ensure.hpp", S + "device.cpp", S + "renderer.cpp", S + "swapchain.cpp", S + "window.cpp", S + "pudding.cpp", S + "cmd_stream.cpp"],
      [("ENSURE", S + "ensure.hpp")], (), ["every vk* and SDL_* call"]),
    p("P10", "Windows and swapchains give back what they hold",
      "When a window is destroyed, its surface, swapchain and window are destroyed, once each and in the order the API demands, and everything "
      "else made for it is released within a bounded number of frames. Recreating a swapchain likewise releases the old swapchain, its views and the "
      "framebuffers made from them, so that no history of resizes makes the number of live objects grow.",
      ["histories", "schedules"], "every history of windows, resizes and targets", PUD_WHY, [S + "swapchain.cpp", S + "window.cpp", S + "gc.cpp", S + "pudding.cpp", S + "cmd_stream.cpp"],
      [("deferred destruction", S + "gc.cpp"), ("destructors", S + "window.cpp, " + S + "swapchain.cpp")], (), ["vkDestroy*", "SDL_DestroyWindow"]),
    p("P11", "A quit request notifies every window once and ends the loop",
      "When the user asks to quit, every window alive at that moment is told exactly once (unless it is destroyed by another window's handler first), even if handlers create or destroy windows, "
      "and the event loop returns without rendering, submitting or presenting anything more. The loop never returns, and no window is told to quit, without such a request.",
      ["histories", "schedules"], "every set of windows, state of the frame and handler behaviour", PUD_WHY, [S + "pudding.cpp"], [("SDL_QUIT handling", S + "pudding.cpp start")], (), ["on_quit", "return of start()"]),
    p("P12", "The log keeps the most recent messages intact under concurrency",
      "With any number of threads logging at once, every message appears complete, unmixed and with its own severity, exactly once, both on the console and in the "
      "retained log; the log retains exactly the most recent 2048 messages, in the order in which the calls that wrote them took effect. A call that fails (for lack of memory, or "
      "because the console cannot be written) loses at most its own message.",
      ["schedules", "histories", "fault_sequences"], "every interleaving of logging threads, every failing allocation", PUD_WHY, [S + "log.cpp", S + "log.hpp"],
      [("mutex around the ring", S + "log.cpp")], [("buf_", "ring of messages", S + "log.hpp"), ("cursor_", "number of messages so far", S + "log.hpp")], ["retained messages", "console"],
      "PD_SIM: read access to the retained messages"),
    p("P13", "Only what the hardware and window system offer is requested",
      "Every swapchain, queue, extension, format, present mode, image count, extent, alpha mode and transform requested is one that was "
      "reported as available for the device and surface in use. By default the device chosen can present, and among those discrete ones and then those with "
      "more memory are preferred; queues requested are of families with the needed abilities, each family once.",
      ["configurations"], "every topology of devices, queue families, memory and surface capabilities", PUD_WHY, [S + "renderer.cpp", S + "device.cpp", S + "swapchain.cpp", S + "window.cpp"],
      [("capability queries and clamping", S + "swapchain.cpp, " + S + "device.cpp")], (), ["vkCreateDevice", "vkCreateSwapchainKHR"]),
    p("P14", "The CPU never runs more than one frame ahead of the GPU",
      "A frame is recorded only when the GPU has finished all work of the frame before the previous one, however slow the GPU, the presentation engine or "
      "individual frames are; and the wait for it always ends.",
      ["schedules"], "every timing of the GPU, including stalls, and frame counter wrap", PUD_WHY, [S + "pudding.cpp", S + "context.hpp"],
      [("per-frame fences", S + "pudding.cpp advance_frame")], (), ["render callback", "vkWaitForFences"]),
    p("P15", "Passes that use the same target are ordered on the GPU",
      "When two render passes use the same target (in one frame, in several windows or in successive frames), the later one loads, clears and writes it only after the "
      "earlier one has finished with it, and finds what the earlier one wrote: each target it uses, color, depth or stencil, is protected by an execution and memory "
      "dependency on all earlier work. No overlap that the GPU is free to choose changes what ends up in a target.",
      ["schedules", "histories"], "every overlap of passes the Vulkan specification allows, every history of passes over shared targets", PUD_WHY, [S + "cmd_stream.cpp", S + "pudding.cpp"],
      [("subpass dependency on earlier work", S + "cmd_stream.cpp begin_render_pass")], (), ["vkCreateRenderPass", "vkCmdBeginRenderPass", "vkQueueSubmit"]),
    p("P16", "Windows open as described and stay themselves when moved",
      "Whatever size, title and combination of options (fullscreen, resizable, grabbed input, high dpi, always on top) a window is described with, the window system is asked "
      "for a window of exactly that description, whichever state it starts in and whichever size it is given. A window object that is moved, any number of times and with any "
      "timing of frames, hands over its window, identifier and title; each window is open as long as the object that holds it and closed once.",
      ["configurations", "histories"], "every window description, every history of moves, every decision of the window system on size and state", PUD_WHY, [S + "window.cpp", H + "window.hpp", S + "swapchain.cpp"],
      [("window construction, move and destruction", S + "window.cpp")], [("window_ / sc_ / title_", "owned window, swapchain and title", H + "window.hpp")],
      ["SDL_CreateWindow", "window::id", "window::title", "SDL_DestroyWindow"]),
]

PURE = ("a pure, single-threaded function of its inputs (largely evaluated by the compiler): there is no concurrency, time, I/O, randomness, "
        "crash point or multi-party behaviour for a simulator to schedule or a fault to act on")


def n(id, title, statement, files, why="The tests check a handful of expressions and values; the law quantifies over all of them."):
    return p(id, title, statement, ["inputs", "programs"], "all multivectors, expressions and coefficients", why, files,
             [("term-wise products over bit-encoded basis elements", files[0])])


NA = [
    n("N01", "Products obey the laws of their algebra",
      "The geometric product is associative and distributive with the signature's squares, the exterior product is its top-grade part, and contraction, regressive and inner products relate to it as defined, for all multivectors.",
      [G + "geometric_algebra.hpp", G + "algebra.hpp"]),
    n("N02", "Simplification and subexpression sharing preserve values",
      "The value computed for an expression equals, up to rounding, the value of the expression as written: collecting terms, sharing common subexpressions and hoisting temporaries never change its meaning.",
      [G + "dfa.hpp", G + "expr.hpp", G + "algebra.hpp"]),
    n("N03", "Rational coefficients are exact",
      "Arithmetic on rational coefficients is exact, normalised and never overflows silently within its documented range.", [G + "numeric.hpp"]),
    n("N04", "Terms that vanish identically are eliminated",
      "Components that are zero for every input do not appear in the result type.", [G + "algebra.hpp", G + "dfa.hpp"]),
    n("N05", "The null basis round trip is the identity",
      "Converting a conformal multivector to the natural basis and back yields the same multivector.", [G + "null_algebra.hpp", G + "cga.hpp"]),
    n("N06", "Entities and multivectors convert without loss",
      "Converting an entity to a multivector and a multivector to an entity keeps the represented geometric object.", [G + "vga.hpp", G + "pga.hpp", G + "pga2.hpp", G + "cga.hpp"]),
    n("N07", "Exponential and logarithm are inverse to each other",
      "The logarithm of the exponential of a bivector, and vice versa, is the identity up to rounding on the principal branch.", [G + "pga.hpp", G + "expr.hpp"]),
    n("N08", "Normalisation yields unit elements",
      "Normalising a non-degenerate rotor, translator or motor yields an element of unit norm representing the same transformation.", [G + "pga.hpp", G + "vga.hpp"]),
    n("N09", "Compile-time sorting, hashing and containers are correct",
      "The compile-time sort, tuple, stack and checksum utilities agree with their standard counterparts for all inputs.", [G + "algorithm.hpp", G + "tuple.hpp", G + "crc.hpp", G + "stack.hpp"]),
    n("N10", "Text shows every component",
      "Formatting an entity prints every component with its basis element, and nothing else, when nothing fails.", [G + "format.hpp"]),
]


def main():
    import sys
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from props import PROPS as CHECKS, HOOKS
    with open(VERIF + "/properties.jsonl", "w") as f:
        for x in PROPS + NA:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in PROPS:
        c = CHECKS.get(x["id"])
        if not c:
            na.append({"property": x["id"], "reason": "check under construction"})
            continue
        checks.append({"property": x["id"], "quick_cmd": "python3 tools/check.py %s quick" % x["id"],
                       "thorough_cmd": "python3 tools/check.py %s thorough" % x["id"],
                       "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    for x in NA:
        na.append({"property": x["id"], "reason": PURE})
    m = {"version": 1, "setup_cmd": "python3 -m py_compile tools/check.py tools/build.py tools/props.py && g++ --version >/dev/null", "checks": checks, "not_applicable": na,
         "notes": "Deterministic simulation with fault injection; see DESIGN.md. Every check builds its simulator from /repo and decides by seeded search; tools/check.py --replay FILE replays a reported violation."}
    if HOOKS:
        m["hooks"] = HOOKS
    with open(VERIF + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
