From d656d87f5186455f8deacffe78689ccd9501da72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 01/24] fix: reduce Williamson sequences without cyclic shifts

reduce_to_canonical_reps applied uniform shifts to Williamson sequences; these
break their symmetry, so result.seq held quadruples that are not Williamson
sequences (e.g. n=3) and 'convert hm ws' failed its own verification.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..8d531c0 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // Cyclic shifts do not preserve the symmetry of Williamson sequences, so they are not an equivalence operation here
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From e1377a927b0515a4f8a9fb408c3ec1d6faaffba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 02/24] fix: reduce an empty list of sequences to an empty list

The reductions indexed sequences[0], so 'join' panicked instead of writing empty
results when matching found no sequences.
---
 rust/src/find/find_unique.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 8d531c0..24f91e5 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -121,6 +121,8 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {return vec![];}
+
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
@@ -140,6 +142,8 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
 
 // Algorithm 7
 pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {return vec![];}
+
     let mut res = HashSet::new();
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     let mut count = 0;
@@ -159,6 +163,8 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
 // Original algorithm
 pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     // This function reduces a set of QTS up to the Sequence equivalence defined in our paper
+
+    if sequences.is_empty() {return vec![];}
     
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
@@ -187,6 +193,8 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
+    if sequences.is_empty() {return vec![];}
+
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
-- 
2.43.0


From 88ad45052c6bb47e8c27eea001eb00c755e6893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 03/24] fix: keep one representative per class in
 reduce_to_equivalence_set_dif

Each sequence removed the rest of its class even when it had been removed itself,
so classes with two or more members in the input disappeared entirely.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 24f91e5..c69fe24 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -129,6 +129,9 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // Already removed, as it is equivalent to a sequence that was kept
+        if !res.contains(seq) {continue;}
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From bb5d9f1a8d4fbef14c07bb3acd257edf021a3275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 04/24] fix: compare keys in the order the .pair files are
 sorted

join_pairs_files compared keys without their final separator, which orders a key
before every key that extends its last value, while sort(1) orders it after.
Matches of such keys were skipped.
---
 rust/src/find/find_write.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..4080a95 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -763,7 +763,9 @@ pub fn get_line_from(seq : &Option<Result<String, Error>>) -> (String, (usize, u
     let s = seq.as_ref().unwrap().as_ref().expect("Error when reading file").clone();
     let mut s_parts = s.split("_:_");
 
-    let line = s_parts.next().expect("Expected something before ':' !").to_string();
+    // The final separator is kept so that comparing lines agrees with the order of the sorted files
+    // (without it, "2" comes before "23", but in the file "2_:_" comes after "23_:_")
+    let line = s_parts.next().expect("Expected something before ':' !").to_string() + "_";
     let mut indices_parts = s_parts.next().expect("Expected something after ':' !").split("_");
     let indices = (indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"), indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"));
 
-- 
2.43.0


From 1ea445a833231f4ad744c1f9249975a367155692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 05/24] fix: create the .pair files that pair_single will write

create_rowsum_dirs named the files after the rowsums in decreasing order (e.g.
pair_ZY), while the pairs are written as pair_WX etc. The leftover files made
'join' fail with too many .pair.sorted files.
---
 rust/src/find/find_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 4080a95..4fa6b64 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -348,8 +348,8 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    // The tags are in the same order as in write_pairs_rowsum and write_pair_single_rowsum, so that they write to the same files
+    let tags : Vec<SequenceTag> = vec![SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From 2c90989c8c0e91c67e1cc69afcea3f16c3f52e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 06/24] fix: do not filter out pairs whose PSD sum equals the
 bound

Rounding errors of the dft could push a PSD sum of exactly 4n above the bound, so
valid pairs were missing from the .pair files (e.g. ws, n=15, rowsums 1 3 5 5).
---
 rust/src/sequences/fourier.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..545bb87 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -43,13 +43,16 @@ pub fn inverse_dft(freq: &Vec<Complex<f64>>, n: usize) -> Vec<f64> {
 }
 
 
+// Tolerance for the rounding errors of the dft, so that values equal to the bound are not filtered out
+const BOUND_TOLERANCE : f64 = 1e-6;
+
 pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) -> impl std::iter::Iterator<Item = &'a Vec<i8>> {
     let bound_sqr = bound * bound;
     sequences.iter()
         .filter(move |seq| {
             let dft = dft_sequence(seq);
             for elm in dft {
-                if elm.norm_sqr() > bound_sqr {return false;}
+                if elm.norm_sqr() > bound_sqr + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -63,7 +66,7 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -78,7 +81,7 @@ pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, s
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {                
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -103,7 +106,7 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + BOUND_TOLERANCE);
 
         if bound_exceeded {
             None
-- 
2.43.0


From b463f2a5830656d940e87029e17ad433e6d9796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 07/24] fix: use one FFTW plan per length

The plan of the first length used in the process was applied to every length, so
a dft of a second length panicked and poisoned the mutex.
---
 rust/src/sequences/fourier.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index 545bb87..ca91fc8 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -4,17 +4,20 @@ use fftw::plan::*;
 use fftw::types::*;
 use itertools::iproduct;
 use num_complex::Complex;
+use std::collections::HashMap;
 use std::sync::{OnceLock, Mutex};
 
-static R2C_PLAN : OnceLock<Mutex<R2CPlan64>> = OnceLock::new();
-static C2R_PLAN : OnceLock<Mutex<C2RPlan64>> = OnceLock::new();
+// Plans are specific to a length, so we store one for each length
+static R2C_PLANS : OnceLock<Mutex<HashMap<usize, R2CPlan64>>> = OnceLock::new();
+static C2R_PLANS : OnceLock<Mutex<HashMap<usize, C2RPlan64>>> = OnceLock::new();
 
 pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
     // returns the dft of the sequence
     let n = seq.len();
     
-    let mutex = R2C_PLAN.get_or_init(|| Mutex::new(R2CPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create Mutex for FFTW plan")));
-    let mut plan = mutex.lock().unwrap();
+    let mutex = R2C_PLANS.get_or_init(|| Mutex::new(HashMap::new()));
+    let mut plans = mutex.lock().unwrap();
+    let plan = plans.entry(n).or_insert_with(|| R2CPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFTW plan"));
 
     let mut a = AlignedVec::new(n);
     let mut b = AlignedVec::new(n/2+1);
@@ -27,8 +30,9 @@ pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
 }
 
 pub fn inverse_dft(freq: &Vec<Complex<f64>>, n: usize) -> Vec<f64> {
-    let mutex = C2R_PLAN.get_or_init(|| Mutex::new(C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create Mutex for FFTW plan")));
-    let mut plan = mutex.lock().unwrap();
+    let mutex = C2R_PLANS.get_or_init(|| Mutex::new(HashMap::new()));
+    let mut plans = mutex.lock().unwrap();
+    let plan = plans.entry(n).or_insert_with(|| C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFTW plan"));
     
     //let plan = C2R_PLAN.get_or_init(|| C2RPlan::aligned(&[n], Flag::MEASURE).expect("Failed to create FFT plan"));
     let mut a = AlignedVec::new(n / 2 + 1);
-- 
2.43.0


From 95ff02a3b82b9b5102de3396f9fbbc2e3cb16569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 08/24] fix: store the first pair of each key in
 generate_matching_table

A new key was inserted with an empty list, dropping the pair that created it.
---
 rust/src/sequences/matching.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/src/sequences/matching.rs b/rust/src/sequences/matching.rs
index c8e3c2a..d542150 100644
--- a/rust/src/sequences/matching.rs
+++ b/rust/src/sequences/matching.rs
@@ -269,10 +269,7 @@ pub fn generate_matching_table<'a, 'b>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
         let match_data = MatchData::from(seq1, seq2, tags);
 
-        match match_table.get_mut(&match_data) {
-            Some(list) => {list.push((seq1, seq2))}
-            None => {match_table.insert(match_data, vec![]);}
-        }
+        match_table.entry(match_data).or_default().push((seq1, seq2));
     }
 
     match_table
-- 
2.43.0


From 26eb99ce9de9ffba53282ad33b46aff263b2c9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 09/24] fix: make HM::dephased dephase both rows and columns

The second pass started again from the original matrix, so the first row of the
result was not all ones.
---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..7104669 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From c23c4b8a1bb4ea19f1e097e22645d05385439c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 10/24] fix: do not overflow in HM::verify

The inner products were summed in an i8, so for orders of 128 and above they
overflowed (256 equal entries counted as orthogonal).
---
 rust/src/sequences/matrices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index 7104669..ffcc732 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -457,9 +457,9 @@ impl HM {
                 let row2_vec = self.row(row2);
 
                 // Perform inner product
-                let mut result = 0;
+                let mut result : isize = 0;
                 for i in 0..n {
-                    result += row1_vec[i] * row2_vec[i];
+                    result += (row1_vec[i] * row2_vec[i]) as isize;
                 }
 
                 if result != 0 {
-- 
2.43.0


From 5cb84a6e1300f5d7aa97ce5ccea1869bc8169f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 11/24] fix: size of the tensor product of two HMUO

The operator has the product of the sizes, not the sum.
---
 rust/src/sequences/mum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/mum.rs b/rust/src/sequences/mum.rs
index 83c8070..bdfdfdb 100644
--- a/rust/src/sequences/mum.rs
+++ b/rust/src/sequences/mum.rs
@@ -240,7 +240,7 @@ impl HMUO {
 
 
     pub fn tensor(&self, other : &HMUO) -> HMUO {
-        HMUO {matrix_size : self.matrix_size + other.matrix_size, operator : self.operator.tensor(&other.operator)}
+        HMUO {matrix_size : self.matrix_size * other.matrix_size, operator : self.operator.tensor(&other.operator)}
     }
 
     pub fn to_string(&self) -> String {
-- 
2.43.0


From 10c949eaa3a22a42318f80f625ea5beb8d0ad4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 12/24] fix: write results with write_all

write may write only a part of the data (e.g. when the disk is nearly full) and
reports success, so output files could be truncated silently.
---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 14 +++++++-------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 4fa6b64..3e5f94b 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..0aeb0d0 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From a27e2a5d9c420e924b38fe5b2018cf7b938e0cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 13/24] fix: skip directories without .pair files in
 sortpairs.sh

The unexpanded pattern was sorted as a file, leaving an empty '*.pair.sorted'
behind that made 'join' fail, e.g. when sortpairs.sh was run twice.
---
 rust/sortpairs.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index b12c1e0..2db9e29 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -43,6 +43,12 @@ do
 	then
 		for filename in $dirname/*.pair;
 		do
+			# The pattern is left as is when there are no .pair files (e.g. if they are already sorted)
+			if [ ! -e "$filename" ]
+			then
+				continue
+			fi
+
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
-- 
2.43.0


From d60f60c91f600f35630f632122adf3dedd0f9f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 14/24] fix: report failed and interrupted sorts in
 sortpairs.sh

The script always exited with the status of its last printf, so driver.sh went on
to join partially sorted files and reported incomplete results as a success.
---
 rust/sortpairs.sh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 2db9e29..5ad60e8 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -36,6 +36,7 @@ done
 
 export LC_ALL=C
 
+failed=false
 start=`date +%s.%N`
 for dirname in results/pairs/$type/find_$n/*;
 do
@@ -52,16 +53,19 @@ do
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
-				sort --parallel=1 -S 1G -T $SLURM_TMPDIR $filename > $filename.sorted
+				sort --parallel=1 -S 1G -T $SLURM_TMPDIR $filename > $filename.sorted.tmp
 				status=$?
 			else
-				sort --parallel=1 -S 1G -T tmp/ $filename > $filename.sorted
+				sort --parallel=1 -S 1G -T tmp/ $filename > $filename.sorted.tmp
 				status=$?
 			fi
 
 			# If sort was successful, remove .pair files
-			if [ $status -eq 0 ]; then
+			# The sorted file only gets its final name once it is complete, so that an interrupted sort is never joined
+			if [ $status -eq 0 ] && mv $filename.sorted.tmp $filename.sorted; then
 				rm $filename
+			else
+				failed=true
 			fi
 		done
 	fi
@@ -70,3 +74,8 @@ done
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
 printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a
+
+if [ "$failed" = true ]; then
+	echo "ERROR: some .pair files could not be sorted"
+	exit 1
+fi
-- 
2.43.0


From e0f41219c94758f46d26a69b0b05b660d58c2657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:09 +0000
Subject: [PATCH 15/24] fix: let the scripts fail when a step fails

The status tested after 'command | tee' was that of tee (and in join_pairs.sh that
of date), so a step that crashed was reported as a success and the following steps
ran on missing or incomplete files.
---
 rust/convert_hm.sh  |  8 ++++++++
 rust/convert_qhm.sh |  8 ++++++++
 rust/driver.sh      | 19 +++++++++++++++++++
 rust/join_pairs.sh  |  4 +++-
 rust/pairs.sh       | 14 ++++++++++++++
 5 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/rust/convert_hm.sh b/rust/convert_hm.sh
index ccd7fc6..ce794d2 100755
--- a/rust/convert_hm.sh
+++ b/rust/convert_hm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A command piped into tee fails if the command itself fails
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert hm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed
diff --git a/rust/convert_qhm.sh b/rust/convert_qhm.sh
index 83c1e8d..1bcaab0 100755
--- a/rust/convert_qhm.sh
+++ b/rust/convert_qhm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A command piped into tee fails if the command itself fails
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert qhm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to PQS to QHM took %.2f seconds\n" $elapsed | tee -a $filename
diff --git a/rust/driver.sh b/rust/driver.sh
index b68e9d4..9dde224 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -25,6 +25,9 @@ then
 	exit 0
 fi
 
+# A command piped into tee fails if the command itself fails
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -78,8 +81,14 @@ release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
 	cargo build --release
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -123,6 +132,11 @@ fi
 if [ $hadamard = true ]; then
 	start2=`date +%s.%N`
 	./target/release/rust convert hm $type $n | tee $filename -a
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+		exit 1
+	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
 	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
@@ -134,6 +148,11 @@ fi
 
 echo "Converting PQS to QHM ..." | tee $filename -a
 ./convert_qhm.sh $type $n
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index b197c72..b97e1b1 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -19,8 +19,10 @@ filename="$foldername/result.log"
 # sorting the files
 start2=`date +%s`
 ./target/release/rust join $type $n &>> $filename
+status=$?
 end2=`date +%s`
-if [[ $? -eq 0 ]]; then
+if [[ $status -eq 0 ]]; then
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
 
+exit $status
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 156cba3..a371361 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -12,6 +12,9 @@ then
 	exit 0
 fi
 
+# A command piped into tee fails if the command itself fails
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -64,8 +67,14 @@ release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
 	cargo build --release
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -79,6 +88,11 @@ fi
 # Call rust code
 start=`date +%s`
 ./target/release/rust pairs $type $n $match_option $rowsum_pairing | tee $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: pairs exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end=`date +%s`
 echo Generating the .pair files took `expr $end - $start` seconds. 
 echo -e Generating the .pair files took `expr $end - $start` seconds. "\n \n" >> $filename
-- 
2.43.0


From 978b7e38cb35ed1f78fef321c029393261adf618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 16/24] fix: stop on errors when reading sequences

Lines that could not be read were skipped, so sequences went missing silently (or
the loop never ended, if the error persisted).
---
 rust/src/find/find_write.rs |  4 +---
 rust/src/main.rs            | 19 +++++++++----------
 2 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 3e5f94b..5d27cb4 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -586,9 +586,7 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        seq.push(string_to_sequence(&line.expect("Error when reading file")));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 0aeb0d0..4bdf055 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -188,19 +188,18 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
 
         let mut result = "".to_string();
         for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
+            let pqs = line.expect("Error reading line");
+            num_seq += 1;
 
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
+            let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+            qhm.dephase();
 
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
-
-                result += &qhm.to_string();
-                result += &"\n";
+            if qhm.contains_non_commuting_elements() {
+                num_non_commutative += 1;
             }
+
+            result += &qhm.to_string();
+            result += &"\n";
         }
         f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
-- 
2.43.0


From 59d53bb2fc07317b5f8a1e2006bca56e2bb4cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 17/24] Hook for verification harnesses, guarded by
 cfg(verif_harness)

---
 rust/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 4bdf055..991e570 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #[macro_use]
 extern crate lazy_static;
 
@@ -19,6 +20,10 @@ use crate::sequences::equivalence::generate_equivalent_quad_seqs;
 use crate::sequences::{williamson::*, sequence::*, symmetries::*, equivalence::{negated, half_shift}};
 use sequences::matrix_equivalence::hadamard_equivalence_from_file;
 
+// Checks of the internal functions, only compiled with --cfg verif_harness
+#[cfg(verif_harness)]
+include!(env!("VERIF_HARNESS"));
+
 fn find_pqs(symmetry : Option<Symmetry>){
     for i in 1..18{
         find_pqs_of_type(i, &symmetry);
@@ -332,6 +337,9 @@ fn str_to_isize(source : &str) -> isize {
 }
 
 fn main() {
+    #[cfg(verif_harness)]
+    if verif_harness::run() {return;}
+
     let args : Vec<String> = std::env::args().collect();
 
     if args.len() == 1 {
-- 
2.43.0


From 5dbec75b0498c602d35c432e4487dde9da6b497c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 18/24] fix: fail when the sequences to convert cannot be read

---
 rust/src/main.rs | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 991e570..c9cb8a4 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -185,31 +185,30 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
     let mut num_non_commutative = 0;
 
     println!("{}", &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq"));
-    if let Ok(lines) = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")) {
-        // Consumes the iterator, returns an (Optional) String
-        let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
-        let path = Path::new(s);
-        let mut f = File::create(path).expect("Invalid file ?");
-
-        let mut result = "".to_string();
-        for line in lines {
-            let pqs = line.expect("Error reading line");
-            num_seq += 1;
-
-            let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-            qhm.dephase();
-
-            if qhm.contains_non_commuting_elements() {
-                num_non_commutative += 1;
-            }
+    let lines = read_lines(&("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.seq")).expect("Error reading result.seq. Make sure sequences have already been generated for this length");
+    // Consumes the iterator, returns an (Optional) String
+    let s = &("./results/pairs/".to_string() + &seqtype.to_string() + &"/find_".to_string() + &len.to_string() + &"/result.qhm");
+    let path = Path::new(s);
+    let mut f = File::create(path).expect("Invalid file ?");
+
+    let mut result = "".to_string();
+    for line in lines {
+        let pqs = line.expect("Error reading line");
+        num_seq += 1;
 
-            result += &qhm.to_string();
-            result += &"\n";
+        let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+        qhm.dephase();
+
+        if qhm.contains_non_commuting_elements() {
+            num_non_commutative += 1;
         }
-        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
-        println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
+        result += &qhm.to_string();
+        result += &"\n";
     }
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
+
+    println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
 }
 
 // Write all found QHM of a given order to qhm.mat, using the expanded list including equivalent matrices
-- 
2.43.0


From bc3b0c8ce4b55303701ba643dcd09ead73b18cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 19/24] fix: do not replace results when there are no pairs to
 join

---
 rust/src/find/find_write.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 5d27cb4..9934beb 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -496,11 +496,13 @@ pub fn join_pairs(p : usize, seqtype : SequenceType) -> Vec<QuadSeq>{
     let folder = seqtype.to_string();
 
     let find_i = fs::read_dir("./results/pairs/".to_string() + &folder + &"/find_".to_string() + &p.to_string()).unwrap();
+    let mut directories = 0;
 
     for rowsum_x_y in find_i {
         let directory = rowsum_x_y.unwrap();
 
         if directory.metadata().unwrap().is_dir() {
+            directories += 1;
             // We read the files in the directory to get back our 4 sets of sequences
             let sequences = get_sequences_from_dir(&directory);
     
@@ -511,6 +513,9 @@ pub fn join_pairs(p : usize, seqtype : SequenceType) -> Vec<QuadSeq>{
         }
     }
 
+    // Without any pairs (e.g. after a cleanup) there is nothing to match, and existing results should not be replaced by empty ones
+    assert!(directories > 0, "no rowsum directories found !");
+
     let elapsed = time.elapsed().as_secs_f32();
     println!("Matching took: {:.2} seconds.", elapsed);
 
-- 
2.43.0


From 0e6fa7ed65bcfce6a8584de846fb7a5c6f3c5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:49 +0000
Subject: [PATCH 20/24] fix: sort the pair files when SLURM_TMPDIR is not set

---
 rust/sortpairs.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 5ad60e8..234c503 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -53,7 +53,7 @@ do
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
-				sort --parallel=1 -S 1G -T $SLURM_TMPDIR $filename > $filename.sorted.tmp
+				sort --parallel=1 -S 1G -T "${SLURM_TMPDIR:-tmp/}" $filename > $filename.sorted.tmp
 				status=$?
 			else
 				sort --parallel=1 -S 1G -T tmp/ $filename > $filename.sorted.tmp
-- 
2.43.0


From 9e86ce6a355d7b02ac0dccfde519990603173bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 21/24] fix: refuse unknown flags instead of ignoring them

---
 rust/driver.sh    | 2 +-
 rust/pairs.sh     | 2 +-
 rust/sortpairs.sh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index 9dde224..155c2ae 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -62,7 +62,7 @@ while getopts "chsdp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/pairs.sh b/rust/pairs.sh
index a371361..97b9507 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -47,7 +47,7 @@ while getopts "cdsp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 234c503..0c9cf6c 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -27,7 +27,7 @@ while getopts "s" flag; do
 		s)
 		use_slurm=true
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
-- 
2.43.0


From 8d7c03c88e47488754be39f285df870c8abf08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 22/24] fix: fail when the pair to generate is unknown

---
 rust/src/find/find_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 9934beb..3d4c7a8 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -297,8 +297,8 @@ pub fn write_pair_single_rowsum(folder : String, rs : (isize, isize, isize, isiz
     match get_indices(pairing, pair) {
         Some(s) => {pair_indices = s},
         None => {
-            println!("ERROR: get_indices() returned None");
-            return;
+            eprintln!("ERROR: get_indices() returned None");
+            std::process::exit(1);
         }
     }
 
-- 
2.43.0


From 84ac107e2aa947b3bee1a4963d44d630d9fa9ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:54 +0000
Subject: [PATCH 23/24] fix: fail on an unknown command

---
 rust/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index c9cb8a4..90fcb00 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -458,6 +458,9 @@ fn main() {
         }
 
 
-        _ => {println!("Unrecognized arg '{}'", args[1])}
+        _ => {
+            eprintln!("Unrecognized arg '{}'", args[1]);
+            std::process::exit(1);
+        }
     }
 }
-- 
2.43.0


From fe799f2a83a119d55692e750f8fff7464eda1c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:52 +0000
Subject: [PATCH 24/24] fix: reduce sequences of length 32 and more without the
 symbolic symmetry group

The symbolic group labels the 4*len entries with i8 values. From length 32 on
the labels overflow: the canonical forms written by join were not equivalent
to the sequences found, and not even valid. The classes of such sequences are
now computed by applying the operations to them, and generate_symmetry_group
refuses these lengths.
---
 rust/src/find/find_unique.rs      | 41 ++++++++++++++++++++++---------
 rust/src/sequences/equivalence.rs | 16 +++++++++---
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index c69fe24..d8ce6d4 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -5,7 +5,7 @@ use std::collections::HashSet;
 
 use itertools::Itertools;
 
-use crate::sequences::{equivalence::{equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift, equivalent_uniform_half_shift, generate_equivalence_class, generate_equivalence_class_fast, generate_symmetry_group, qt_canonical, will_less_than}, symmetries::SequenceType, williamson::{QuadSeq, QUADRUPLETS}};
+use crate::sequences::{equivalence::{equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift, equivalent_uniform_half_shift, canonical_in_class, generate_equivalence_class, generate_equivalence_class_fast, generate_symmetry_group, will_less_than, MAX_SYMBOLIC_LEN}, symmetries::SequenceType, williamson::{QuadSeq, QUADRUPLETS}};
 
 
 
@@ -119,6 +119,21 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 }
 
 
+// Symbolic symmetry group of the sequences, if their entries can be labelled
+fn find_symmetry_group(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Option<HashSet<QuadSeq>> {
+    let len = sequences[0].size();
+    if len <= MAX_SYMBOLIC_LEN {Some(generate_symmetry_group(len, seqtype, equivalences))} else {None}
+}
+
+// Equivalence class of a sequence, computed from the symmetry group if there is one
+fn find_equivalence_class(seq : &QuadSeq, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>, symmetry_group : &Option<HashSet<QuadSeq>>) -> HashSet<QuadSeq> {
+    match symmetry_group {
+        Some(group) => generate_equivalence_class_fast(seq, group),
+        None => generate_equivalence_class(seq, seqtype, equivalences, false)
+    }
+}
+
+
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     if sequences.is_empty() {return vec![];}
@@ -126,13 +141,13 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
-    let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
+    let symmetry_group = find_symmetry_group(sequences, seqtype, equivalences);
     
     for seq in sequences {
         // Already removed, as it is equivalent to a sequence that was kept
         if !res.contains(seq) {continue;}
 
-        let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
+        let mut new_class = find_equivalence_class(seq, seqtype, equivalences, &symmetry_group);
         new_class.remove(seq);
 
         for elm in new_class {
@@ -148,11 +163,11 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
     if sequences.is_empty() {return vec![];}
 
     let mut res = HashSet::new();
-    let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
+    let symmetry_group = find_symmetry_group(sequences, seqtype, equivalences);
     let mut count = 0;
 
     for seq in sequences {
-        let new_class = generate_equivalence_class_fast(seq, &symmetry_group);
+        let new_class = find_equivalence_class(seq, seqtype, equivalences, &symmetry_group);
         if res.insert(find_minimum(&new_class)) {
             count += new_class.len();
         }
@@ -170,7 +185,7 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
     if sequences.is_empty() {return vec![];}
     
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
-    let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
+    let symmetry_group = find_symmetry_group(sequences, seqtype, equivalences);
 
     for seq in sequences {
         let mut new_seq = true;
@@ -181,7 +196,7 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
             }
         }
         if new_seq {
-            let new_class = generate_equivalence_class_fast(seq, &symmetry_group);
+            let new_class = find_equivalence_class(seq, seqtype, equivalences, &symmetry_group);
             debug_assert_eq!(new_class, generate_equivalence_class(seq, seqtype, equivalences, false));
             classes.push(new_class);
         }
@@ -198,15 +213,17 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
     if sequences.is_empty() {return vec![];}
 
-    let symmetries;
+    let equivalences : Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>;
     if matches!(seqtype, SequenceType::QuaternionType) {
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift];
     } else if matches!(seqtype, SequenceType::Williamson) {
         // Cyclic shifts do not preserve the symmetry of Williamson sequences, so they are not an equivalence operation here
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift];
     } else {
-        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
+        equivalences = vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift];
     }
 
-    sequences.iter().map(|seq| qt_canonical(seq, &symmetries, seqtype)).unique().collect()
+    let symmetry_group = find_symmetry_group(sequences, seqtype, &equivalences);
+
+    sequences.iter().map(|seq| canonical_in_class(find_equivalence_class(seq, seqtype, &equivalences, &symmetry_group), seqtype)).unique().collect()
 }
diff --git a/rust/src/sequences/equivalence.rs b/rust/src/sequences/equivalence.rs
index aa4b659..dfde827 100644
--- a/rust/src/sequences/equivalence.rs
+++ b/rust/src/sequences/equivalence.rs
@@ -186,8 +186,13 @@ pub fn generate_equivalence_class(seq : &QuadSeq, seqtype : SequenceType, equiva
     class
 }
 
-// Generates symbolic symmetry group for sequences of a given length and type
+// The symbolic symmetry groups label the 4*len entries with distinct positive i8 values
+pub const MAX_SYMBOLIC_LEN : usize = i8::MAX as usize / 4;
+
+// Generates symbolic symmetry group for sequences of a given length (at most MAX_SYMBOLIC_LEN) and type
 pub fn generate_symmetry_group(len : usize, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> HashSet<QuadSeq> {
+    assert!(len <= MAX_SYMBOLIC_LEN, "no symbolic symmetry group for length {len}, the maximum is {MAX_SYMBOLIC_LEN}");
+
     let w1 : Vec<i8> = vec![0; len].into_iter().enumerate().map(|(ind, _)| (ind + 1) as i8).collect();
     let w2 : Vec<i8> = vec![0; len].into_iter().enumerate().map(|(ind, _)| (ind + len + 1) as i8).collect();
     let w3 : Vec<i8> = vec![0; len].into_iter().enumerate().map(|(ind, _)| (ind + (2 * len) + 1) as i8).collect();
@@ -286,14 +291,19 @@ fn swap(will : &mut QuadSeq, seqtag1 : SequenceTag, seqtag2 : SequenceTag) {
 
 // Should be called with a symmetry group generated by {DE, AN, CS}
 pub fn qt_canonical(seq : &QuadSeq, symmetries : &HashSet<QuadSeq>, seqtype : SequenceType) -> QuadSeq {
+    canonical_in_class(generate_equivalence_class_fast(seq, symmetries), seqtype)
+}
+
+// Should be called with the class of a sequence under {DE, AN, CS}
+pub fn canonical_in_class(class : HashSet<QuadSeq>, seqtype : SequenceType) -> QuadSeq {
     let ns_canonical_forms : HashSet<QuadSeq>;
 
     match seqtype {
         SequenceType::QuaternionType => {
-            ns_canonical_forms = generate_equivalence_class_fast(seq, symmetries).into_iter().map(|s| ns_canonical(&s)).collect();
+            ns_canonical_forms = class.into_iter().map(|s| ns_canonical(&s)).collect();
         },
         SequenceType::WilliamsonType | SequenceType::Williamson => {
-            ns_canonical_forms = generate_equivalence_class_fast(seq, symmetries).into_iter().map(|s| sn_ss_canonical(&s)).collect();
+            ns_canonical_forms = class.into_iter().map(|s| sn_ss_canonical(&s)).collect();
         },
         _ => {panic!("Not implemented yet")}
     }
-- 
2.43.0

