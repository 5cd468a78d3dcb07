"""Writes /verif/MANIFEST.json (python3 lib/make_manifest.py)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "ASan + UBSan + checked containers"
T = {
    "C01": ("differential runtime oracle: reference model of the metrics against the real tools' output", "Every printed value of thousands of runs of both tools is compared with an independent model (exact rational matching, printed precision), in a sanitized and in a release build."),
    "C02": ("online monitor over recorded scorer calls and results of the matcher, against a greedy model", "Conservation, one-to-one, greedy order and completeness checked on every result; holds on the histories generated."),
    "C03": ("runtime oracle (cell counting, 128-bit intervals, algebraic laws) under " + SAN, "Small coordinates are enumerated, large ones sampled around the limits, for six coordinate types."),
    "C04": ("runtime oracle with exact rational ratios on real scorer calls", "Ratios within single-precision rounding of the threshold are not judged."),
    "C05": ("runtime trichotomy, transitivity and consistency monitors against a tuple order", "Small domains enumerated, extremes sampled, for every type."),
    "C06": ("runtime oracle: tokenising model of the line grammar against the real reader and tools", "Generated and mutated files, through streams, files and both tools. One recorded finding: negative coordinates."),
    "C07": ("history monitor against a model of the set, under " + SAN, "Random operation histories checked after every operation."),
    "C08": ("runtime oracle in long double on the real statistics, with invariants", "Lists of any shape up to 10^5 entries; judged to relative rounding."),
    "C09": ("runtime oracle in long double on the real statistics, with invariants", "As C08, plus grouped, sorted and collapsed statistics and swap monotonicity."),
    "C10": ("metamorphic runtime monitor over pairs of tool runs", "Ten presentation changes composed at random; equality of the printed values."),
    "C11": ("differential runtime oracle: model and filtered-file runs against the tools", "Sets and groups of all shapes, including empty, overlapping, superseding and malformed ones."),
    "C12": ("provenance monitor on sampled matches plus loose statistical monitor", "Every sampled element is traced to its source; frequencies within bounds that a fair sampler misses with probability below 1e-9."),
    "C13": ("offline checker over the recorded sample values behind each interval, and paired tool runs", "Order statistics recomputed from what the statistic was seen to return. Three recorded findings."),
    "C14": ("runtime oracle: model of curve sampling against the files written", "Generated grids, option combinations and inputs without queries."),
    "C15": ("runtime oracle: grammar model against the real parser on random registries", "Random registries and command lines, all value types, plus the tools' own options."),
    "C16": ("history monitor against a dictionary model, under " + SAN, "Random histories, copies and assignments; 8- and 16-bit ranges exhausted completely."),
    "C17": ("sanitizers, libFuzzer and valgrind memcheck on hostile files and command lines", "Memory, undefined behaviour, leaks, uninitialised reads, aborts and hangs on the executions produced."),
    "C18": ("enumerated fault injection (LD_PRELOAD) into opens, reads and writes of real runs, with an outcome monitor", "Every open, read and write of each base run is failed in turn, in several ways; base runs are sampled."),
    "C19": ("shadow-state monitor over random object histories, under " + SAN + " and leak detection", "Holds on the histories generated."),
    "C20": ("ThreadSanitizer and equality monitors over reuse, repetition, environments and concurrency", "No data race or difference in the executions produced; scheduling is the system's, with injected delays."),
    "C21": ("offline checker over the dump of matches: conservation, order and recomputation of the metrics", "The dump of every run is parsed and accounted against the input files."),
    "C22": ("partition, permutation and conservation monitors on the real functions", "Random matches with all tie patterns, under sanitizers and in release."),
    "C23": ("runtime oracle: text model against the real help text and --help runs", "Random registries, every option type, both tools."),
    "C24": ("round-trip monitor with a token model, under " + SAN, "All coordinate types, extremes and several values per stream."),
    "C25": ("file-system state monitor (snapshots before and after) and recorded open/create/rename/remove calls (LD_PRELOAD) of real runs", "Valid and refused runs among earlier outputs and bystanders; calls are recorded in the release build, state is compared in both."),
    "C26": ("runtime oracle: counts of a model against the numbers reported on standard error", "Generated files, selections, repetitions and refused files, small and large."),
}
checks = []
for pid, (technique, note) in T.items():
    checks.append({
        "property": pid,
        "quick_cmd": "python3 run.py " + pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": technique,
        "level": "fault_enumeration" if pid == "C18" else "exploration",
        "level_note": note + " Assurance is limited to the executions observed, counted in the evidence file.",
    })
with open(VERIF + "/MANIFEST.json", "w") as f:
    json.dump({
        "version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
        "notes": "No hooks in /repo: the harnesses observe the public interface, the tools' outputs and the system calls. "
                 "Each check compiles /repo's working tree into a scratch directory it removes. Known findings: known_findings.txt.",
    }, f, indent=1)
    f.write("\n")
