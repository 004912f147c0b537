B = "Exhaustive within the stated bounds on length; beyond them nothing is claimed. Trusted: the independent reference in harness/reference.rs (self-tested against brute force and explicit closures), rustc, the sandbox. "
NOTE.update({
 "C01": B + "Every configuration of driver.sh for wts up to 12, qts up to 10, ws up to 19 (14, 11, 20 thorough).",
 "C02": B + "Reference classes by meet in the middle over all normalised quadruples; same lengths as C01.",
 "C03": B + "Same lengths as C01; equivalence decided by a complete invariant of the group of the README.",
 "C04": B + "Same lengths as C01 for configurations; staging variants, job orders and schedules of concurrent jobs (one preemption, at the operations of the first job on files, pipes and processes) for shorter lengths.",
 "C05": B + "All lengths up to 60 and more (harness), all integer quadruples of the right parity and norm.",
 "C06": B + "All rowsums of all lengths up to the bound in the harness; all files of the real pairs step.",
 "C07": B + "All pairs of sequences of every decomposition; keys compared with exact integer correlations.",
 "C08": B + "All multisets of at most three (four) lines per file over four key alphabets, all orders of names and types.",
 "C09": B + "All valid quadruples of short lengths and all class members of representatives of longer ones.",
 "C10": B + "All valid quadruples of short lengths, all ordered lists of up to three members of small classes, whole reference lists.",
 "C11": B + "All ordered and unordered lists of one and two sequences at short lengths. Lengths 32 to 100 (labels are i8): refused or right, and the closure of quadruples without the group.",
 "C12": B + "All quadruples and symbol sequences of short lengths; all texts over a small alphabet.",
 "C13": B + "All quadruples of short lengths and all single deviations from valid ones of longer lengths.",
 "C14": B + "All pairs of sequences of short lengths; all histories of planner use up to the bound.",
 "C17": B + "All sequences of short lengths and reference representatives of longer ones; entry-by-entry comparison up to conjugation by a unit.",
 "C18": B + "The decider of Hadamard equivalence is a canonical form of the harness, validated on the known class numbers of orders up to 28.",
 "C19": B + "All searches up to the stated lengths, all short lists of perfect sequences of lengths up to 4 (5).",
 "C20": B + "All products of all short perfect sequences and of representatives of coprime lengths.",
 "C21": B + "All matrices of short sequences and their generators. Known findings: HMUO and MUM built from matrices that are orthogonal only in the convention of QHM::verify.",
 "C22": B + "The finders run to the end for every short length and type; outputs compared with brute force of the reference.",
 "C23": B + "Direct qts searches up to length 10 (11), wts searches up to length 12 (14) against them and the reference.",
 "C24": B + "All subsets of completed steps of short searches, all ranges, a grid of counts, times and sizes in real logs, all subsets of pair files of three directories. Times reported inside one log may be taken from any reduction of that log.",
 "C25": B + "Argument lists with one (thorough: two) places of a correct one left out, replaced or doubled, all lists of up to 2 (3) arguments and of up to 2 (3) flags over a list of tokens. Whether unusual but usable spellings are accepted is not judged.",
 "C16": "Explicit-state exploration on the real scripts: reachable states of the results directory (logs apart) and the history of the pair files, to a fixpoint for the script-level commands and to a bounded depth for the single-step and mixed commands; only small lengths. What counts as complete is decided by the history, so joins of partly generated pairs are not judged. Concurrent searches: two at a time, one preemption, at operations on files and at starts of programs.",
 "C15": "All fault points of the stated searches (file operations under results and tmp, pipes, process creation and execution) with single faults: error, short transfer, kill of the process before or in the middle of the write, kill of everything. Faults in reading the scripts themselves and in stat calls are not injected; faults come one at a time; tiny searches only.",
})
