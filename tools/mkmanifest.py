#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("TLC checks the design model exhaustively within its bounds; the code is bound to the specification by replaying the "
        "model's scenarios and generated inputs in the real crate and validating every recorded call against the trace specification "
        "in exact rational arithmetic. Trusted: TLC, the Java override of module Exact (compared with its TLA+ definitions by MCExact), "
        "the recording harness. ")
N = {
 "C01": ("interval programs as TLA+ state machine (registers); exact-set oracle", "Enclosure is decided exactly for every recorded operation; inputs are sampled (all sign/width classes exhaustively from the model, boundary and random floats, programs of several steps), so an error confined to unsampled operands is not excluded."),
 "C02": ("TLA+ enclosures of sin/cos/atan2 by certified series; trace validation", "Each recorded bound is compared with the true function through its defining inequality to 2^-140; arguments are sampled with all quadrant/extremum classes from the model."),
 "C03": ("intervals as sets in TLA+; relative positions enumerated by TLC, replayed", "All relative positions of two intervals on a small line are enumerated and replayed; random bounds besides."),
 "C04": ("exact result sets in TLA+, distance of each recorded bound in ulps", "Tightness is decided exactly per recorded call; inputs sampled."),
 "C05": ("float line as TLA+ transition system; complete walk of binary32 validated", "All 2^32 binary32 patterns are walked by the harness and summarised as segments the specification checks; binary64 is sampled at all binade boundaries and at random."),
 "C06": ("TLA+ order specification of scalars; trace validation", "Every type's operations at limits, zeros, equal operands and thresholds; sampled otherwise."),
 "C07": ("componentwise vector algebra in TLA+ over exact rationals; trace validation", "All kinds, dimensions and scalar types; component values sampled, small integer vectors enumerated by the model."),
 "C08": ("exact 4x4 linear algebra in TLA+; recorded products and inverses validated", "Products and inverses of sampled matrices are decided to a rounding bound computed from the exact matrix (residual bound for inverses)."),
 "C09": ("transform register machine in TLA+; programs enumerated by TLC and replayed", "All programs of the model's constructors up to the bound, plus random programs, with error bounds from exact majorants."),
 "C10": ("closed geometric definitions in TLA+; constructors validated against them", "Parameters sampled (model grid of exact rotations, random); images and inverse images compared with the exact geometry."),
 "C11": ("inverse-transpose law model-checked in TLA+; mapped normals validated", "Perpendicularity and round trip decided against exact values with a computed rounding bound; transforms and vectors sampled."),
 "C12": ("image hulls of interval objects in exact TLA+ arithmetic", "Containment of the exact image decided with no tolerance; inputs sampled."),
 "C13": ("boxes as closed point sets; histories of unions/intersections in TLA+", "All short histories over a lattice of boxes replayed, random ones besides; decided exactly."),
 "C14": ("exact hull of the image of a box in TLA+; trace validation", "Both bounds decided to a computed rounding bound; transforms and boxes sampled."),
 "C15": ("ray-box stay by slabs, proved equal to the definition on a lattice by TLC; replay", "Lattice rays are decided exactly (no tolerance); others within 8 rounding units, grazing cases open."),
 "C16": ("entry face and normal in TLA+; trace validation of the full query", "As C15. The origin-inside case is a recorded finding (C16-inside)."),
 "C17": ("patch membership of quadratic roots in TLA+, three-valued under rounding; replay of chords", "Chords through lattice points are enumerated by TLC and replayed, random patches and rays besides; candidates within the root's rounding error of a patch edge or of tangency are not decided."),
 "C18": ("exact surface parametrisation in TLA+ (certified acos/atan2); trace validation", "Normal, coordinates, tangents, polar limits and area of each recorded hit decided within computed rounding bounds."),
 "C19": ("scene graph state machine in TLA+ (insertion histories); histories replayed", "All histories up to the model's length replayed on real objects with known answers, random scenes besides; list answers compared exactly with members' answers."),
 "C20": ("placed objects in TLA+ scene graph; image relation in exact arithmetic", "As C19 for placements: answers compared with the original's answer to the carried ray and with the world ray."),
 "C21": ("thin-lens rules model-checked in TLA+; camera rays validated against the closed form", "Sampled cameras, views, film and lens samples; computed rounding bound."),
 "C23": ("interval-transform register machine in TLA+ with exact members; programs replayed", "Programs of the model replayed as they are, and random programs of all constructors; containment of several exact members per register decided with no tolerance (2^-80 where sines or roots occur); parameters sampled."),
 "C24": ("certified sin/cos/pi in TLA+; scalar functions validated by the defining inequality", "Every recorded value is compared with the true function to 2^-140; arguments sampled at multiples of pi/2 and neighbours, unit-interval ends, axes and quadrants of the model, and all magnitudes."),
 "C22": ("disk maps in exact polar form, area preservation model-checked; samples validated", "Grid of the model and random/edge samples; tolerance 64 rounding units, relative to the radius for the concentric map."),
}
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": k, "quick_cmd": "python3 tools/check.py %s" % k,
                 "thorough_cmd": "python3 tools/check.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k,
                 "technique": "TLA+/TLC: " + N[k][0], "level": "model_checking", "level_note": BASE + N[k][1]} for k in sorted(N)],
     "not_applicable": [],
     "notes": "No hooks in /repo: everything observed is public API. Known finding C16-inside and the list of repaired defects are in known_findings.json."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
