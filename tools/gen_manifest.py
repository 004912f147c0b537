#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and the checks that exist."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT = "explicit enumeration on the real code"
T = {
 "C01": "exhaustive enumeration of the configurations of real searches, each result compared with the definitions",
 "C02": "exhaustive enumeration of real searches against an explicit-state enumeration of all valid quadruples up to equivalence",
 "C03": "exhaustive enumeration of real searches; complete class invariant computed for every listed sequence",
 "C04": "exhaustive enumeration of configurations, staging variants, orders and single-preemption schedules of the independent jobs of real searches",
 "C05": "exhaustive enumeration of lengths and integer quadruples on the real code",
 "C06": "exhaustive enumeration of lengths, rowsums and sequences on the real code",
 "C07": "explicit-state enumeration of all pairs of each decomposition, compared with the real pair files",
 "C08": "exhaustive enumeration of pairs of small sorted files given to the real join",
 "C09": "exhaustive enumeration of valid quadruples and operations on the real code against a model of the operations",
 "C10": "exhaustive enumeration of valid quadruples and of lists of them on the real code against explicit classes",
 "C11": "explicit-state closure of the equivalence operations compared with the real symmetry groups",
 "C12": "exhaustive enumeration of strings and quadruples on the real code",
 "C13": "exhaustive enumeration of quadruples and of single-entry deviations on the real predicates",
 "C14": "exhaustive enumeration of pairs of sequences, name pairs and histories of lengths on the real code",
 "C15": "enumeration of every fault point of real searches with every fault kind",
 "C16": "explicit-state breadth-first exploration of command histories, and single-preemption schedules of two searches, on the real scripts",
 "C17": "exhaustive enumeration of quadruples, small matrices and single-entry deviations on the real code",
 "C18": "exhaustive enumeration of elementary operations and output pairs, decided by an independent isomorphism search",
 "C19": "exhaustive enumeration of searches and class members, files compared with a model of the matrices",
 "C20": "exhaustive enumeration of pairs of perfect sequences and positions on the real code",
 "C21": "exhaustive enumeration of operators over a basis on the real code against exact arithmetic",
 "C22": "explicit-state enumeration of all sequences compared with the real finders under each thread count",
 "C23": "exhaustive enumeration of lengths: two independent real searches compared class by class",
 "C24": "exhaustive enumeration of subsets of completed steps and output formats on the real scripts",
 "C25": "exhaustive enumeration of bounded argument lists on the real scripts and program, each from the same state of results",
}
NOTE = {}
exec(open(V + "/tools/notes.py").read())
def main():
    ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    have = [i for i in ids if os.path.exists("%s/checks/%s.py" % (V, i.lower()))]
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE, text=True).stdout
    hooks = [l.split()[0] for l in hook.split("\n") if " Hook for verification" in l]
    m = dict(version=1, setup_cmd="python3 tools/setup.py",
             hooks=dict(guard="cfg(verif_harness)",
                        enable="cargo rustc ... -- --cfg verif_harness --cfg 'verif_check=\"C05\"' with VERIF_HARNESS=/verif/harness/hook.rs and VERIF_HARNESS_DIR=/verif/harness in the environment (lib/build.py)",
                        source_commits=hooks),
             checks=[dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                          technique=T[i], level="fault_enumeration" if i == "C15" else "model_checking", level_note=NOTE[i]) for i in have],
             not_applicable=[dict(property=i, reason="no check yet") for i in ids if i not in have])
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
main()
