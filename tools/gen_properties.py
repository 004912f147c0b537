#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per entry below)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

S = "rust/src/sequences/"; F = "rust/src/find/"
CFG = "--cfg verif_harness hook in rust/src/main.rs (runs a harness inside the crate)"

prop("C01", "Every listed sequence is a valid sequence of the requested type",
 "Whatever the sequence type (wts, qts, ws), length, rowsum pairing and matching option, every line of result.seq (and of result-qts.seq) decodes with the README's table to a quadruple of +-1 sequences of exactly that length that satisfies the definition of its type: perfect (all off-peak quaternionic periodic autocorrelations zero) for qts and result-qts, complementary and pairwise amicable for wts, complementary and symmetric for ws. The .qseq file lists the same quadruples as the .seq file, in the same order.",
 ["inputs", "configurations"], "all types x lengths (bounded) x pairings WX/WY/WZ x psd/correlation matching",
 "The tests check the validity of a handful of hand-written sequences; nothing runs the search and validates its whole output, and the reduction step that runs after the last validity check is unchecked.",
 [F+"find_write.rs", F+"find_unique.rs", "rust/src/main.rs", S+"williamson.rs", S+"sequence.rs", S+"equivalence.rs"],
 [("validity check of each match before it is kept", F+"find_write.rs join_pairs_files"), ("reduction to class representatives", F+"find_unique.rs reduce_to_canonical_reps"), ("serialisation", "rust/src/main.rs find_write_quad_seq")],
 ["results/pairs/<type>/find_<n>/result.seq", "result.qseq", "result-qts.seq", "result-qts.qseq"])

prop("C02", "The search misses no equivalence class of sequences",
 "For every supported type and length and every rowsum pairing and matching option, every valid quadruple of +-1 sequences of that length is equivalent, under the documented equivalence operations of its type, to a quadruple listed in result.seq. In wts mode, result-qts.seq likewise contains an element of every QT equivalence class.",
 ["inputs", "configurations"], "all 16^n quadruples of each length (bounded), all types, pairings and matching options",
 "Exhaustiveness is the purpose of the tool, and tests can only compare a few counts; a lost pair, match or class is only visible against an independent enumeration of every quadruple.",
 [F+"find_write.rs", F+"find_unique.rs", S+"rowsum.rs", S+"fourier.rs", S+"matching.rs", "rust/driver.sh", "rust/sortpairs.sh"],
 [("rowsum decomposition", S+"rowsum.rs generate_rowsums"), ("pair generation with PSD filter", F+"find_write.rs write_seq_pairs"), ("sorted merge", F+"find_write.rs join_pairs_files")],
 ["result.seq", "result-qts.seq"])

prop("C03", "No equivalence class of sequences is listed twice",
 "No two lines of result.seq are equivalent under the documented equivalence operations of its type, and no two lines of result-qts.seq are equivalent under the QT equivalence operations, for every type, length, rowsum pairing and matching option. The counts reported in the log are the numbers of lines of these files.",
 ["inputs", "configurations"], "all types x lengths (bounded) x pairings x matching options; all pairs of listed sequences",
 "The tests compare single pairs of sequences; that a reduced list contains no two equivalent sequences is a statement on all pairs and all group elements.",
 [F+"find_unique.rs", S+"equivalence.rs", "rust/src/main.rs", F+"find_write.rs"],
 [("canonical forms and deduplication", F+"find_unique.rs reduce_to_canonical_reps"), ("negate/swap normal forms", S+"equivalence.rs ns_canonical, sn_ss_canonical")],
 ["result.seq", "result-qts.seq", "result.log"])

prop("C04", "The way a search is run does not change its result",
 "For a given type and length, the set of sequences written to result.seq (and result-qts.seq) is the same for every rowsum pairing, for PSD and correlation matching, and whether the search is run by driver.sh, by the staged scripts (pairs.sh, sortpairs.sh, join_pairs.sh), or by processing each rowsum decomposition or each single pair separately, in any order or at the same time; it also equals the published results in wts-results. The result.qhm file and the number of Hadamard matrices written to result.mat agree as well.",
 ["configurations", "histories"], "all configurations x staging variants x orders of the independent jobs, lengths bounded",
 "No test runs the scripts or more than one configuration; agreement is a relation between all pairs of configurations.",
 ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh", "rust/src/main.rs", F+"find_write.rs", "wts-results"],
 [("tag bookkeeping through file names and indices", F+"find_write.rs get_order_from_dir, get_sequences"), ("single-pair jobs", F+"find_write.rs write_pair_single_rowsum")],
 ["result.seq", "result-qts.seq", "result.qhm", "result.mat"])

prop("C05", "Rowsum decompositions cover every possible quadruple of rowsums",
 "For every type and length n, the list of rowsum decompositions (and the file written by the rowsums command) contains only quadruples of integers of the parity of n whose squares sum to 4n, ordered as documented, without repetition. Every quadruple of integers of that kind, in any order and with any signs, can be transformed into a listed one by the reorderings and negations allowed for the type (any for wts and ws; an even number of swaps and negations in total for qts).",
 ["inputs"], "all lengths up to a bound (hundreds) and all integer quadruples with squares summing to 4n",
 "The tests look at a few lengths; a missing decomposition silently removes whole families of sequences at the lengths not sampled.",
 [S+"rowsum.rs", F+"find_write.rs", "rust/src/main.rs"],
 [("enumeration of four-square sums", S+"rowsum.rs sum_of_four_squares"), ("sign variant for qts", S+"rowsum.rs generate_rowsums"), ("rowsums.quad", F+"find_write.rs write_rowsums")],
 ["rowsums.quad", "rowsum_w_x_y_z directories"], CFG)

prop("C06", "The sequences generated for a rowsum are exactly those with that rowsum",
 "For every length and every rowsum (positive, negative, zero, of the right or wrong parity, up to +-n), the generated list contains every +-1 sequence of that length whose entries sum to the rowsum, exactly once, and nothing else. The seq_W/X/Y/Z.seq files of a rowsum directory contain exactly these sequences (only the symmetric ones for ws), one per line, in the order that the indices of the .pair files refer to.",
 ["inputs"], "all lengths up to a bound and all rowsums; all rowsum directories of the explored searches",
 "The tests check counts for a few (length, rowsum) pairs; duplicates or omissions elsewhere would go unnoticed and would make the search incomplete.",
 [S+"rowsum.rs", F+"find_write.rs"],
 [("recursive generation", S+"rowsum.rs gen_seq_rec"), ("files", F+"find_write.rs write_sequences, file_to_sequences")],
 ["seq_?.seq files"], CFG)

prop("C07", "Pair files hold every extendable pair, keyed so that matches are complementary",
 "For every type, length, rowsum decomposition, pairing and matching option, the two pair files together contain every pair of sequences that is part of a valid quadruple, each exactly once and with indices that refer to the sequences it was computed from. Two lines of the two files have equal keys if and only if the sums of their autocorrelations (and, for qts, the differences of their cross-correlations for that pairing) cancel at every non-zero shift; for wts only amicable pairs occur.",
 ["inputs", "configurations"], "all pairs of sequences of every rowsum decomposition, all pairs of lines, bounded length, all pairings and matching options",
 "The keys come from floating point transforms that are filtered, rounded and negated depending on side and pairing; the tests compare a few pairs for one length per process.",
 [F+"find_write.rs", S+"fourier.rs", S+"matching.rs"],
 [("PSD filter", S+"fourier.rs iter_over_enumerate_filtered_couples_psds"), ("key computation", F+"find_write.rs write_seq_pairs"), ("cross-correlation signs per tags", S+"matching.rs compute_cross_psd_pair, compute_cross_correlations_dft")],
 ["pair_??.pair.sorted files"])

prop("C08", "Joining two sorted pair files finds exactly all the matches",
 "Given any two pair files sorted by the sort step, whatever the multiplicities of keys and the indices (all keys having the same number of entries), joining them tries exactly the combinations of a line of the first with a line of the second with equal keys, each once, assigns each index to the sequence its file is named after, and keeps exactly those that are valid for the requested type. Several rowsum directories are joined independently and their results united.",
 ["inputs", "configurations"], "all pairs of small sorted files over an alphabet of keys that includes prefixes of each other, negative numbers and repeated keys; all pairings",
 "The merge has several end-of-file and run-length cases and depends on the byte order of sort; no test exercises it at all.",
 [F+"find_write.rs", "rust/sortpairs.sh"],
 [("merge of sorted files", F+"find_write.rs join_pairs_files"), ("byte order", "rust/sortpairs.sh LC_ALL=C"), ("index to sequence resolution", F+"find_write.rs get_sequences")],
 ["join command output"], CFG)

prop("C09", "Equivalence operations preserve the type and are exactly the documented ones",
 "Applying any documented equivalence operation of a type (for wts: negate, cyclic shift, reorder, alternate negation for even lengths, automorphism, half shift for even lengths; for ws: the same without cyclic shift; for qts: shift, alternate negation, automorphism, negate-swap, dual half shift) to any valid sequence of that type yields a valid sequence of that type and length. Each operation returns exactly the images it documents together with its input, so that every image can be brought back by the same operation.",
 ["inputs"], "all valid quadruples of bounded length, all operations, and all lengths up to 100 for operations on formal sequences",
 "The tests apply operations to a few fixed sequences; debug assertions check images only in debug builds and only for the inputs that occur.",
 [S+"equivalence.rs", S+"symmetries.rs", S+"williamson.rs"],
 [("operations", S+"equivalence.rs equivalent_*"), ("lists per type", S+"symmetries.rs SequenceType::equivalences")],
 None, CFG)

prop("C10", "Canonical forms characterise equivalence and all reductions agree",
 "For every type, two valid quadruples have the same canonical representative if and only if they are equivalent; the representative is itself a member of the class and its own representative. All the reductions of a list (original, set difference, parallel, canonical) return exactly one member of each class of the input and nothing else, whatever the order and repetitions of the input, and return an empty list for an empty input.",
 ["inputs", "histories"], "all valid quadruples of bounded length and all lists (with orders and repetitions) of small size drawn from classes",
 "The tests compare two reductions on lists read from files that are not in the repository; canonicity is a statement over whole classes and pairs of classes.",
 [F+"find_unique.rs", S+"equivalence.rs"],
 [("canonical form", S+"equivalence.rs qt_canonical, ns_canonical, sn_ss_canonical"), ("reductions", F+"find_unique.rs reduce_to_*")],
 None, CFG)

prop("C11", "The symbolic symmetry group generates exactly the equivalence class",
 "For every type and length, the class of a quadruple computed with the precomputed symmetry group equals the closure of the quadruple under the equivalence operations, for every quadruple of +-1 sequences. The symmetry group has exactly as many elements as there are distinct compositions of the operations, and each element is a signed permutation of the positions. A length whose positions cannot be labelled is refused, never answered with a wrong group.",
 ["inputs"], "all lengths up to a bound, all generators sets used, all (or, for large lengths, a complete separating family of) quadruples",
 "The fast path encodes positions in small integers; the tests use it for one or two short lengths.",
 [S+"equivalence.rs"],
 [("position labels", S+"equivalence.rs generate_symmetry_group"), ("applying an element", S+"equivalence.rs generate_equivalence_class_fast"), ("closure", S+"equivalence.rs generate_equivalence_class")],
 None, CFG)

prop("C12", "Encodings are bijective and follow the documented table",
 "Every string over the documented alphabet decodes to the quaternions of the README's table and encodes back to itself, every quadruple of +-1 values corresponds to exactly one of the sixteen quaternions, and converting a quadruple of sequences to a quaternion sequence and back, or through its textual form, loses nothing, for every length. The correspondence turns quaternion products into the correlations of the quadruple: a quaternion sequence is perfect exactly when its quadruple satisfies the QT conditions.",
 ["inputs"], "all strings and quadruples of bounded length over the full alphabets (16 and 24 symbols), all positions for longer ones",
 "Tests convert a few random or fixed sequences; a swapped table entry can cancel out in a round trip.",
 [S+"sequence.rs", S+"williamson.rs", F+"find_write.rs", S+"rowsum.rs"],
 [("tables", S+"sequence.rs Q24, Q24_STRING, QPLUS"), ("conversions", S+"williamson.rs to_qs, from_pqs, QUADRUPLETS")],
 None, CFG)

prop("C13", "Validity predicates agree with their definitions on every quadruple",
 "On every quadruple of +-1 sequences, the validity tests (perfect, odd perfect, symmetric, complementary, amicable, QT cross-correlation condition, valid as qts/wts/ws) return true exactly when the corresponding definition holds at every shift and position. A sequence is perfect exactly when its quadruple is valid as qts, and all QT sequences found are amicable.",
 ["inputs"], "all quaternion sequences and quadruples up to a bounded length, and all single-entry deviations of valid ones at longer lengths",
 "The predicates only look at half of the shifts or positions; tests check a few positive and negative examples.",
 [S+"sequence.rs", S+"williamson.rs"],
 [("half-range checks", S+"sequence.rs is_perfect; williamson.rs is_symmetric, is_periodic_complementary, is_amicable, verify_cross_correlation")],
 None, CFG)

prop("C14", "Correlations computed by Fourier transforms equal the direct ones",
 "For every pair of +-1 sequences of the same length, the autocorrelations, cross-correlations, power spectral densities and cross spectral densities computed through Fourier transforms equal the values given by the definitions (exactly after rounding for the integers), with the documented signs for each pair of sequence names. The inverse transform inverts the transform, and results do not depend on which lengths were transformed earlier in the same process.",
 ["inputs", "histories"], "all pairs of sequences of bounded length, all tag pairs, all histories of lengths up to a bound; basis sequences for all lengths up to 60",
 "Transform plans are global state of the process, and the test suite deliberately runs one length per process.",
 [S+"fourier.rs", S+"matching.rs"],
 [("shared plans", S+"fourier.rs dft_sequence, inverse_dft"), ("correlations", S+"matching.rs compute_*")],
 None, CFG, [("FFTW plans", "one plan per length, shared by all callers", S+"fourier.rs")])

prop("C15", "A failed step never passes off incomplete results as complete",
 "If a write, read, file creation, sort or program step of a search fails, is cut short or is interrupted at any point, then either the script exits with a non-zero status, or all result files are complete and correct; a single step (pairs, sort, join, conversion) that exits with status 0 has written all of its own files completely. Rerunning the search with the option that deletes previous files afterwards succeeds and gives the same result as an undisturbed run.",
 ["fault_sequences", "crash_points"], "every single write, read, open, and process of a search as the point of failure, each with every fault kind (error, short write, kill)",
 "No test injects a fault; there are hundreds of fault points per search, and most of them are in shell scripts that no test runs.",
 ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh", "rust/convert_hm.sh", "rust/convert_qhm.sh", "rust/src/main.rs", F+"find_write.rs"],
 [("error propagation", "rust/*.sh"), ("writes of whole buffers", "rust/src/main.rs, "+F+"find_write.rs")],
 ["exit status of the scripts", "result.* files"])

prop("C16", "Search steps can be repeated, resumed and mixed without corrupting results",
 "Starting from any state reachable by running the scripts and single-step commands (pairs, sort, join, conversions, cleanup, driver with or without deletion, creation of rowsum directories, single pairs) in any order, a command either refuses with a message and a non-zero status and leaves existing results as they are, or succeeds. Whenever join succeeds after all pairs of the length were generated and sorted, the results are those of a fresh search; repeating a successful step changes nothing, and searches of different lengths or types do not affect each other, one after the other or at the same time.",
 ["histories"], "all sequences of commands up to a bounded depth over small lengths, deduplicated by the state of the results directory",
 "Histories of commands over a persistent results directory are not tested at all.",
 ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh", "rust/pair_file_cleanup.sh", "rust/countpairs.sh", "rust/src/main.rs", F+"find_write.rs"],
 [("overwrite protection", "rust/driver.sh, rust/pairs.sh"), ("file checks in join", F+"find_write.rs get_order_from_dir")],
 ["results directory after each command"])

prop("C17", "Sequences convert to genuine Hadamard and quaternionic Hadamard matrices",
 "The block-circulant matrix built from any valid qts, wts or ws quadruple is a Hadamard matrix of order 4n from which the quadruple can be read back, and the circulant matrix built from any perfect quaternion sequence is a quaternionic Hadamard matrix. The matrix verification functions return true exactly for such matrices, and dephasing (in place or copying) makes the first row and column all ones while keeping the matrix Hadamard.",
 ["inputs"], "all valid quadruples of bounded length, all +-1 matrices of order up to 4 and all single-entry deviations of Hadamard matrices up to orders above 256",
 "Tests build a few matrices; the verification functions themselves are only used on valid ones.",
 [S+"matrices.rs"],
 [("constructions", S+"matrices.rs HM::from_williamson, QHM::from_pqs"), ("verification", S+"matrices.rs verify"), ("dephasing", S+"matrices.rs dephase, dephased")],
 None, CFG)

prop("C18", "Hadamard reduction keeps exactly one matrix per equivalence class",
 "Two Hadamard matrices are identified by the reduction if and only if one becomes the other by permuting and negating rows and columns. For every search, result.mat contains Hadamard matrices only, no two of them equivalent, and one equivalent to the matrix of each listed sequence, whatever the number of threads used.",
 ["inputs", "configurations"], "all Hadamard matrices of order 1, 2 and 4, all elementary operations on the matrices of bounded searches, all pairs of output matrices, thread counts 1 to 8",
 "Tests check two or three matrices; a wrong graph encoding can merge inequivalent matrices only at specific orders.",
 [S+"matrix_equivalence.rs", S+"matrices.rs", "rust/convert_hm.sh"],
 [("graph encoding", S+"matrix_equivalence.rs graph_from_hm"), ("canonical labelling and deduplication", S+"matrix_equivalence.rs hadamard_equivalence_from_file, reduce_to_hadamard_equivalence")],
 ["result.mat"], CFG)

prop("C19", "Quaternionic matrix files match the listed sequences",
 "After conversion, result.qhm contains, for each line of result.seq and in the same order, the normalized (first row and first column all ones) quaternionic Hadamard matrix obtained from its circulant matrix, written with the documented symbols, and the log reports the number of matrices and how many contain non-commuting entries. The command that writes all matrices writes exactly one normalized matrix for each sequence equivalent to a listed one.",
 ["inputs", "configurations"], "all searches of bounded length and all types; all members of the listed classes",
 "No test runs the conversion; normalization is easy to get wrong on one side because quaternions do not commute.",
 ["rust/src/main.rs", S+"matrices.rs", S+"equivalence.rs", "rust/convert_qhm.sh"],
 [("conversion", "rust/src/main.rs convert_qs_to_matrices, qhm_write_all"), ("normalization", S+"matrices.rs QHM::dephase, dephased")],
 ["result.qhm", "qhm_all.mat", "result.log"])

prop("C20", "Products of perfect sequences are perfect",
 "The product of two perfect quaternion sequences of coprime lengths, when all products of their entries stay in the group of 24 unit quaternions, is a perfect sequence whose length is the product of the lengths and whose entry at position k is the product of the entries at k modulo each length. The product of two matrix sequences with the mutual unbiasedness structure has in each position the tensor product of the corresponding matrices, with the dimensions multiplied.",
 ["inputs"], "all pairs of perfect sequences of bounded coprime lengths, all positions",
 "Tests multiply a few sequences.",
 [S+"product.rs", S+"mum.rs"],
 [("index arithmetic", S+"product.rs sequence_product, mum_product")],
 None, CFG)

prop("C21", "Quaternion operators, measurements and unitaries are algebraically consistent",
 "The operator assigned to a quaternion respects sums, products and conjugates; tensor products, conjugate transposes and sums of operators satisfy their usual laws with the stated dimensions. The measurement operators and the unitary built from a quaternionic Hadamard matrix are those of its definition entry by entry, and the tensor product of two such unitaries has the product of the dimensions.",
 ["inputs"], "all products of the 24 unit quaternions, all small operators over a basis, all matrices of bounded searches",
 "Tests print or compare a few objects; laws quantify over all operands.",
 [S+"mum.rs"],
 [("operators", S+"mum.rs quaternion_to_operator, Operator"), ("MUM, HMUO", S+"mum.rs from_qhm, tensor")],
 None, CFG)

prop("C22", "The brute-force finders find exactly the valid sequences",
 "Each of the direct enumeration methods (naive, parallel, over the 16 or the 24 element alphabet, Williamson and Williamson-type, unique) reports exactly the sequences of the given length that satisfy its condition and its normalization of the first entry, each once, whatever the number of threads; the unique finder reports one sequence per class.",
 ["inputs", "configurations"], "all sequences of bounded length, thread counts 1 to 8",
 "The tests only count results of one method for a few lengths.",
 [F+"find_naive.rs", F+"find_optim.rs", F+"find_williamson.rs", F+"find_unique.rs"],
 [("recursion", F+"find_*.rs find_recursive"), ("parallel reduction", F+"find_optim.rs")],
 ["standard output", "returned counts"], CFG)

prop("C23", "The QT list derived from Williamson-type sequences is the full QT list",
 "In wts mode, the sequences of result-qts.seq represent exactly the same QT equivalence classes as a direct qts search of the same length, each class once, and they are identical to the representatives found by that search. Every listed QT sequence is also a Williamson-type sequence, so the amicability verification command succeeds on every qts result. It fails on a list that contains a sequence that is not Williamson-type.",
 ["inputs", "configurations"], "all lengths up to a bound; all QT classes",
 "The expansion by negations and half shifts is only correct because of a theorem; no test compares the two lists.",
 ["rust/src/main.rs", F+"find_unique.rs", S+"equivalence.rs"],
 [("expansion and reduction", "rust/src/main.rs find_write_quad_seq"), ("amicability check", "rust/src/main.rs verify_qts_eq_wts")],
 ["result-qts.seq", "result.seq of qts", "amicable command"])

prop("C24", "The summary table reports what the result files contain",
 "For every range of lengths, type and output format, the table printed by collect_results.py has one row per length with the numbers of sequences up to Williamson-type and QT equivalence, of Hadamard matrices, of pairs, the disk usage and the summed times that the files of that length contain, and -1 for what was not computed. The pair counting script counts the lines of all sorted pair files of the length, before and after cleanup.",
 ["inputs", "configurations"], "all subsets of completed steps and lengths of bounded searches, all formats",
 "The script parses logs by pattern and is not covered by any test.",
 ["rust/collect_results.py", "rust/countpairs.sh", "rust/src/main.rs", F+"find_write.rs"],
 [("log patterns", "rust/collect_results.py"), ("log messages", "rust/src/main.rs, "+F+"find_write.rs")],
 ["standard output of collect_results.py and countpairs.sh"])

prop("C25", "Invocations that cannot be carried out are refused and change nothing",
 "A command line that the scripts or the program cannot carry out (an unknown command, sequence type, match option, kind of matrix, pair or flag, a length or row sum that is not a number, a missing argument) ends with a nonzero status, and no result, pair file or other file is created, changed or removed by it (logs and the directories for them apart), except that pair files may already be gone when the flag to delete them came first. The help texts are printed without any effect and with status 0. Sorting, counting or cleaning up for a type or length that does not exist changes nothing.",
 ["inputs"], "all argument lists within two changes (thorough: more) of a correct one, over a list of tokens, on a directory with results of several types",
 "An unknown flag used to be ignored, so that a mistyped search replaced results; argument handling is not covered by any test.",
 ["rust/driver.sh", "rust/pairs.sh", "rust/sortpairs.sh", "rust/join_pairs.sh", "rust/convert_hm.sh", "rust/convert_qhm.sh", "rust/src/main.rs"],
 [("argument checks", "rust/driver.sh, rust/pairs.sh, rust/join_pairs.sh"), ("commands and arguments", "rust/src/main.rs")],
 ["exit status and the results directory after each invocation"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
