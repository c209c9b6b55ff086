#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Decided by an independent oracle watching executions of the real code, compiled with AddressSanitizer and UndefinedBehaviorSanitizer, on a seeded random workload; says nothing about inputs not generated. Trusts gcc, libc, libm and the oracle in harness/%s.cpp. "
T = {   # technique, note
"C01": ("exact-geometry oracle over randomized grids and points (runtime monitoring, ASan/UBSan)", "Oracle: signed distances to the cells' edges in long double; points within rounding of an edge may go to either side."),
"C02": ("exact-geometry and exhaustive-search oracle (runtime monitoring, ASan/UBSan)", "The completeness half is only asserted if the nearest node is a corner of the containing cell."),
"C03": ("round-trip monitor on conversions (runtime monitoring, ASan/UBSan)", "Tolerance 1e-7 of the cell size plus rounding of the coordinates."),
"C04": ("long-double bilinear reference at every conversion (runtime monitoring, ASan/UBSan)", "Includes non-finite, huge and boundary indices."),
"C05": ("history monitor: every answer compared with that of a fresh map (runtime monitoring, ASan/UBSan)", "Histories of queries, builds, derivations and destructions over several live objects."),
"C06": ("reference model of validation compared bit for bit (runtime monitoring, ASan/UBSan)", ""),
"C07": ("reference model of conversions (runtime monitoring, ASan/UBSan)", ""),
"C08": ("reference model of extrapolation from complete blocks (runtime monitoring, ASan/UBSan)", "Any of equidistant nearest blocks is accepted."),
"C09": ("reference model of masking compared bit for bit (runtime monitoring, ASan/UBSan)", ""),
"C10": ("edge-set monitor on boundary polygons (runtime monitoring, ASan/UBSan)", "The multiset of steps is compared with the edges having a valid cell on exactly one side."),
"C11": ("exact integer corner lists and shape equivalence (runtime monitoring, ASan/UBSan)", ""),
"C12": ("exact integer point-in-polygon oracle (runtime monitoring, ASan/UBSan)", ""),
"C13": ("model-based history monitor of polylines (runtime monitoring, ASan/UBSan)", ""),
"C14": ("exhaustive-search oracle on kd-tree histories (runtime monitoring, ASan/UBSan)", ""),
"C15": ("reference model of windows, library and tool (runtime monitoring, ASan/UBSan)", ""),
"C16": ("reference model of insertion, tool runs (runtime monitoring, ASan/UBSan)", ""),
"C17": ("line-filter model on tool runs (runtime monitoring, ASan/UBSan)", ""),
"C18": ("round-trip and line-by-line reading monitor (runtime monitoring, ASan/UBSan)", ""),
"C19": ("independent recomputation of every reported number (runtime monitoring, ASan/UBSan)", "Comparison up to the digits printed."),
"C20": ("AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer under structure-aware hostile workloads", "Violations of memory safety that stay inside one object are not visible to the sanitizers."),
"C21": ("write faults injected at every byte position of the output, and refusal of malformed input (fault injection)", "Faults: file size limit with SIGXFSZ ignored at each byte position (sampled for long outputs), full device, closed descriptor; programs built as shipped."),
"C22": ("conservation monitor with exact integer sums (runtime monitoring, ASan/UBSan)", ""),
"C23": ("reference model of gridbathy with logged stand-ins for the interpolation libraries (runtime monitoring, ASan/UBSan)", "The nn and csa libraries are not installed here; stand-ins with a distinct known function for each rule are linked instead."),
"C24": ("line-filter model with the library as reference per line (runtime monitoring, ASan/UBSan)", ""),
"C25": ("allocation and descriptor accounting around library histories (runtime monitoring, ASan allocator statistics)", ""),
"C26": ("differential runs under perturbed heap, environment and input channel, and MemorySanitizer", ""),
"C29": ("metamorphic monitor of command lines (runtime monitoring, ASan/UBSan)", "Text that starts like a number or range is taken for that number."),
"C28": ("exhaustive-search oracle on the program's output, with MemorySanitizer (runtime monitoring, ASan/UBSan/MSan)", "The program is compiled from kdtree.c with -DSTANDALONE."),
"C30": ("data race detection with ThreadSanitizer, results compared with those of a single thread, monitor of process state (runtime monitoring)", "Compiled with ThreadSanitizer instead of AddressSanitizer. Physical to index conversion on a map shared by threads is not claimed."),
"C31": ("work counted by compiler instrumentation at two resolutions and compared with the growth promised (runtime monitoring)", "Compiled with basic block tracing (-fsanitize-coverage=trace-pc) instead of AddressSanitizer; system time is not measured."),
"C32": ("monitor of the quit function and of the objects passed, around inadmissible calls (runtime monitoring, ASan/UBSan)", "Refusals of the tools are C21 and C29."),
"C33": ("operation history monitor with fresh-object oracle: every operation repeated on a newly made grid of the same nodes, plus model (runtime monitoring, ASan/UBSan)", "Direct changes through the arrays are followed by a validation, as the code has it."),
"C34": ("metamorphic monitor over pipelines of the sanitized tools: different routes to one result compared (runtime monitoring, ASan/UBSan)", "gridbathy with stand-ins for the interpolation libraries, as in C23."),
"C27": ("specification monitor on polar tweak runs (runtime monitoring, ASan/UBSan)", ""),
}
NA = {}
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": [], "not_applicable": []}
for p in props:
    if p in NA or not os.path.exists("%s/harness/%s.cpp" % (H, p.lower())):
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
        continue
    t, n = T[p]
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s --tier quick" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "fault_enumeration" if p == "C21" else "exploration",
                        "level_note": (NOTE % p.lower() + n).strip()})
m["notes"] = "run.py builds the sources of /repo/gridutils in a temporary directory with sanitizers, links them with harness/<id>.cpp and runs the seeded workload; see DESIGN.md. No hooks in /repo are needed."
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
