"""Writes known_findings.txt from the fix: commits in /repo (property taken from the table)."""
import subprocess
P = [("load_imbalance raised", "C06", "load_imbalance raised TypeError on every trace"),
 ("idle_time(mpi", "C07,C12", "idle_time(mpi_events=True) appended to its default argument: later calls counted MPI functions too"),
 ("flat_profile rejected", "C05", "flat_profile(groupby_column=[...]) raised"),
 ("flat_profile listed", "C05,C11", "flat_profile listed names that are never entered"),
 ("from_csv reordered", "C13", "rows of a CSV trace with equal timestamps were reordered"),
 ("wrong parents after", "C02,C03", "a Leave that does not end the innermost call corrupted the parents of later calls"),
 ("create_cct merged", "C04", "call paths with equal joined names were merged into one node"),
 ("single-process Nsight", "C14", "no Process column for single-process reports, so analyses failed"),
 ("Nsight ranges with coinciding", "C14", "ranges with coinciding boundaries paired wrongly"),
 ("END_USER_EVENT_PAIR", "C15", "END_USER_EVENT_PAIR records made reading fail"),
 ("times and event ids", "C15", "times of user notes were strings"),
 ("multicast records", "C15", "multicast creation records had no attributes"),
 ("unfinished Projections", "C15", "an unfinished log was closed at 1000 times its end"),
 ("ids of non-array", "C15", "chare ids of non-array entries were misread"),
 ("Projections reader reordered", "C16", "simultaneous events of a PE were reordered"),
 ("OTF2 reader reordered", "C17", "simultaneous events of a location were reordered"),
 ("OTF2 thread numbers", "C17", "thread numbers were wrong when a process's locations are not contiguous"),
 ("only the last digit", "C19", "metric ids above 9 were attributed to the wrong column"),
 ("several metric classes", "C19", "archives with several metric classes could not be read"),
 ("HPCToolkit source lines", "C21", "source lines above 65535 were truncated"),
 ("without a NODE", "C21", "profiles without a NODE identifier raised KeyError"),
 ("anonymous HPCToolkit", "C21", "anonymous functions raised TypeError"),
 ("non-ASCII strings", "C21", "non-ASCII strings broke reading"),
 ("truncated HPCToolkit", "C22", "truncated databases were read as if complete, or without end"),
 ("from_csv read functions", "C13", "functions called null or NA became missing values"),
 ("Nsight ranges called", "C14", "ranges called null or NA became missing values"),
 ("deeply nested HPCToolkit", "C20,C21,C25", "deep contexts raised RecursionError"),
 ("empty (truncated) Projections", "C22", "an empty log was read as a PE without events"),
 ("Chrome export lost", "C23", "times since the epoch lost precision"),
 ("Chrome export rounded", "C23", "attribute values were rounded to 10 decimals"),
 ("export loops of HPCToolkit", "C27", "loops of HPCToolkit traces were exported with an invalid phase"),
 ("without ranks had no Process", "C27,C21", "databases of programs without MPI had no Process column, so every analysis failed"),
 ("detect_pattern raised KeyError", "C26,C12", "detect_pattern on a fresh trace raised KeyError"),
 ("sts files that were cut off", "C22", "an sts file that was cut off was read as if complete: PEs or names were missing"),
 ("detect_pattern returned", "C26", "patterns contained rows of other processes")]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines()]
out = ["# Defects of hpcgroup/pipit found by the checks. 'fixed:' lines suppress nothing; 'KNOWN-FINDING: property=<id> key=<key> <text>' lines",
       "# name unrepaired ones (described in DESIGN.md).",
       "KNOWN-FINDING: property=C27 key=hpctoolkit-profile-without-thread HPCToolkit profiles without a THREAD identifier"
       " (e.g. GPU streams) next to profiles with one have a missing Thread: their calls are never paired or counted"]
used = set()
for h, s in log:
    if not s.startswith("fix:"):
        continue
    m = [p for p in P if p[0] in s]
    assert len(m) == 1, (s, m)
    used.add(m[0])
    for i in m[0][1].split(","):
        out.append("fixed: property=%s %s %s" % (i, h, m[0][2]))
assert len(used) == len(P), set(P) - used
open("/verif/known_findings.txt", "w").write("\n".join(out) + "\n")
