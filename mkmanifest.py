#!/usr/bin/env python3
"""Writes MANIFEST.json (levels come from run.py, so that evidence and manifest agree)."""
import json, os
import run
T = {
 "C01": ("exhaustive capacity and argument-shape enumeration on the real code with page-guarded buffers and an address-sanitised build",
         "Every capacity byte by byte over the listed argument shapes; any stray access faults. Not covered: argument shapes outside the enumerated ones, negative capacities."),
 "C02": ("exhaustive enumeration of call shapes on the real code, every message judged by an independent block parser",
         "All configurations, counts and 16-bit field values listed; trusts the independent parser in mc/ref.h."),
 "C03": ("explicit-state model of the adaptive coder; every model transition replayed on the real coders and decoded by an independent decoder",
         "All transitions of the bounded coder model (kp x krp x bit phase x symbol) are toured on all four coders, plus all words, runs, levels and positions to the stated bounds. Trusts the independent decoder."),
 "C04": ("exhaustive differential exploration: portable vs SSE2 vs SSE4.1 vs no-SIMD build, all CPU feature answers enumerated",
         "All reported feature sets and listed picture spaces; equality of every coefficient and message byte. Both the amd64 and the i386 routines (the latter in a 32-bit process of their own) at transform level and in full sessions."),
 "C05": ("exhaustive exploration of bounded picture/quantisation spaces on the real encoder against a reference pipeline",
         "All impulses, extremal, two-level and periodic pictures, all colours, all quantisation values per band. Pictures outside those spaces are not covered; trusts the reference pipeline."),
 "C06": ("exhaustive exploration of bounded picture spaces through encoder and an independent decoder, pixel error bound on every pixel",
         "As C05/C16, end to end down to pixels; the error bound is derived from the synthesis filters."),
 "C07": ("exhaustive enumeration of tile rectangles, strides, positions and tile words on the real encoder against a source-rectangle model",
         "All 64x64 tile sizes per format, all positions and strides listed; surroundings hold unrelated data so any influence shows."),
 "C08": ("exhaustive enumeration of alpha planes (segment structures, values, sizes) on the real encoder, decoded by an independent decoder",
         "All two-level rows, all 1..4-segment rows, all runs and values, every size; trusts the independent alpha decoder."),
 "C09": ("explicit-state exploration: all operation words up to the depth on the real encoder, client models checked after every operation",
         "All words over the 16-operation alphabet to depth 3 (core alphabet to 5), all capacities, allocation failures and invalid tiles at every point; the client model is the RemoteFX Progressive decoder rule."),
 "C10": ("fault enumeration: every failing capacity, invalid tile and failing allocation after every enumerated history, compared with a fault-free twin",
         "Byte comparison of all later messages with the twin; trusts nothing but the twin encoder."),
 "C11": ("explicit-state model (header due, next number) checked against the real encoder on all operation sequences up to the depth",
         "All sequences to the stated depth, failures injected at every position, long sessions linearly."),
 "C12": ("exhaustive enumeration of disturbances and call-level interleavings of several encoders on the real code, compared with undisturbed runs",
         "Every byte value of prior buffer/heap contents, every alignment, all interleavings of two five-step programs over nine configurations."),
 "C13": ("stateless model checking of real threads under a controlled scheduler; every access to sharable memory is a scheduling point (preemption bound 2)",
         "Exhaustive: all call-level interleavings, and no access to memory shared between threads, hence all finer interleavings equivalent. When shared memory appears, preemption-bounded exploration with a time cap (reported as not exhaustive)."),
 "C14": ("enumeration of every output capacity, prefixes compared with the unlimited call; resubmission loops followed to the end",
         "Every capacity byte by byte for the listed calls, classic and progressive."),
 "C15": ("fault enumeration: every allocation of every enumerated call word fails in turn (and in pairs), counting allocator and sanitised build",
         "Every allocation point of all words to the depth; releases counted exactly."),
 "C16": ("exhaustive exploration of bounded picture/quantisation spaces on the real progressive encoder against a reduce-extrapolate reference",
         "As C05 for the progressive transform; trusts the reference pipeline."),
 "C17": ("exhaustive differential enumeration of colours, sizes and pictures across the five pixel formats",
         "All 2^24 colours, all sizes; equality of payload bytes."),
 "C18": ("exhaustive enumeration of creation arguments, flag combinations and entry points on the real code",
         "All flag words over the defined bits plus single undefined bits; entry points compared byte for byte."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(run.HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run.py --build",
     "checks": [{"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                 "technique": T[p][0], "level": run.LEVELS[p], "level_note": T[p][1]} for p in props if p in T],
     "not_applicable": [],
     "notes": "No hooks in /repo: allocation and CPUID are intercepted at link time (mc/shim.c). Replay a violation with: python3 run.py <id> --replay <file>."}
json.dump(m, open(os.path.join(run.HERE, "MANIFEST.json"), "w"), indent=1)
