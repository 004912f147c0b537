#!/usr/bin/env python3
"""Writes known_findings.jsonl (run by hand; no check runs it)."""
import json, os
F = [
 ("C01", "d656d87", "ws searches reduced with cyclic shifts: listed sequences that are not symmetric"),
 ("C10", "e1377a9", "reducing an empty list panicked or returned an entry"),
 ("C10", "88ad450", "reduce_to_equivalence_set_dif kept a wrong number of members of a class"),
 ("C08", "bb5d9f1", "join compared keys in another order than the sort: matches were missed when one key is a prefix of another"),
 ("C16", "1ea445a", "create_rowsum_dirs created .pair files under names that pair_single does not write (pairs WX, XW, ...)"),
 ("C07", "2c90989", "pairs whose PSD sum equals the bound 4n were filtered out by rounding errors"),
 ("C14", "b463f2a", "FFTW plan of the first length was used for all lengths in a process"),
 ("C07", "95ff02a", "generate_matching_table lost the first pair of each key"),
 ("C17", "26eb99c", "HM::dephased did not dephase rows and columns"),
 ("C17", "c23c4b8", "HM::verify overflowed for orders above 127"),
 ("C21", "5cb84a6", "HMUO::tensor recorded a wrong size"),
 ("C15", "10c949e", "results were written with write, which may write only a part"),
 ("C16", "a27e2a5", "sortpairs.sh failed in directories without .pair files"),
 ("C16", "0e6fa7e", "sortpairs.sh -s emptied the pair files when SLURM_TMPDIR is not set (sort took the file name as the directory)"),
 ("C15", "d60f60c", "sortpairs.sh ignored failed and interrupted sorts"),
 ("C15", "e0f4121", "scripts went on after a failed step and exited with status 0"),
 ("C15", "978b7e3", "read errors were taken as the end of the file"),
 ("C15", "5dbec75", "convert qhm exited with status 0 when result.seq could not be read"),
 ("C25", "9e86ce6", "unknown flags of driver.sh, pairs.sh and sortpairs.sh were ignored and the search went on"),
 ("C25", "8d7c03c", "pair_single with an unknown pair or pairing exited with status 0"),
 ("C25", "84ac107", "an unknown command exited with status 0"),
 ("C16", "bc3b0c8", "joining after a cleanup replaced the results by empty ones"),
 ("C08", "fe799f2", "join wrote invalid sequences for lengths of 32 and more (the i8 labels of the symmetry group overflow)"),
 ("C11", "fe799f2", "generate_symmetry_group returned wrong groups for lengths of 32 and more (i8 labels); it refuses these lengths, and the reductions do without it"),
]
K = [
 ("C21", "hmuo-not-unitary", "HMUO::from_qhm conjugates the entries without transposing the matrix: for a normalized quaternionic Hadamard matrix with non-commuting entries the result is not a multiple of a unitary"),
 ("C21", "mum-not-complete", "MUM::from_qhm: for a normalized quaternionic Hadamard matrix with non-commuting entries the measurement operators do not add up to a multiple of the identity"),
]
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.jsonl"
with open(p, "w") as f:
    for a, k, w in K:
        f.write(json.dumps(dict(property=a, status="known", key=k, what=w)) + "\n")
    for a, c, w in F:
        f.write(json.dumps(dict(property=a, status="fixed", key=c, what="fixed: property=%s %s %s" % (a, c, w))) + "\n")
