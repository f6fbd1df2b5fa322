From 461d9760c15b4aa587e070c077d7473d55230269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:27 +0000
Subject: [PATCH 01/16] fix: validate input data before building the tree

check_data ran on another thread while the builder already used the
unchecked values as NotNan, so a NaN could reach unwrap_unchecked and abort
or corrupt the process before the error was returned. The builder also
unwrapped the checker's join result unchecked.
---
 src/lib.rs | 411 +++++++++++++++++++++++++----------------------------
 1 file changed, 197 insertions(+), 214 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cfe4ef2..542bf5c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -146,121 +146,113 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::ZeroLengthInputData);
         }
         // Perform checks for valid data
-        std::thread::scope(|s| {
-            let handle = s.spawn(|| check_data(input));
-
-            // This is used to determine the size several allocations
-            let data_len = input.len();
-            let height_hint = data_len.ilog2() as usize;
-
-            // Initialize variables for recursive function
-            let split_level: usize = 0;
-            #[cfg(feature = "timing")]
-            let timer = std::time::Instant::now();
-            let mut data: Vec<Point<T, D>> =
-                unsafe { std::mem::transmute::<&[[T; D]], &[[NotNan<T>; D]]>(input) }
-                    .into_iter()
-                    .map(|ptr| Point { ptr })
-                    .collect();
-            let vec_ref: &mut [Point<T, D>] = &mut data;
-            #[cfg(feature = "timing")]
-            let initial_vec_ref = timer.elapsed().as_nanos();
-            let nodes = Arc::new(RwLock::new(Vec::with_capacity(size_of_tree(
-                data_len, leafsize,
-            ))));
-
-            // Run recursive build
-            Tree::<'t, T, D>::build_nodes_parallel::<FIRST, true>(
-                vec_ref,
-                split_level,
-                leafsize,
-                Arc::clone(&nodes),
-                None,
-                None,
-                par_split_level,
+        check_data(input)?;
+
+        // This is used to determine the size several allocations
+        let data_len = input.len();
+        let height_hint = data_len.ilog2() as usize;
+
+        // Initialize variables for recursive function
+        let split_level: usize = 0;
+        #[cfg(feature = "timing")]
+        let timer = std::time::Instant::now();
+        let mut data: Vec<Point<T, D>> =
+            unsafe { std::mem::transmute::<&[[T; D]], &[[NotNan<T>; D]]>(input) }
+                .into_iter()
+                .map(|ptr| Point { ptr })
+                .collect();
+        let vec_ref: &mut [Point<T, D>] = &mut data;
+        #[cfg(feature = "timing")]
+        let initial_vec_ref = timer.elapsed().as_nanos();
+        let nodes = Arc::new(RwLock::new(Vec::with_capacity(size_of_tree(
+            data_len, leafsize,
+        ))));
+
+        // Run recursive build
+        Tree::<'t, T, D>::build_nodes_parallel::<FIRST, true>(
+            vec_ref,
+            split_level,
+            leafsize,
+            Arc::clone(&nodes),
+            None,
+            None,
+            par_split_level,
+        );
+
+        #[cfg(feature = "timing")]
+        {
+            TOTAL.store(
+                initial_vec_ref as usize
+                    + LEAF_VEC_ALLOC.load(Ordering::SeqCst)
+                    + LEAF_WRITE.load(Ordering::SeqCst)
+                    + STEM_MEDIAN.load(Ordering::SeqCst)
+                    + STEM_WRITE.load(Ordering::SeqCst),
+                Ordering::Relaxed,
             );
 
-            #[cfg(feature = "timing")]
-            {
-                TOTAL.store(
-                    initial_vec_ref as usize
-                        + LEAF_VEC_ALLOC.load(Ordering::SeqCst)
-                        + LEAF_WRITE.load(Ordering::SeqCst)
-                        + STEM_MEDIAN.load(Ordering::SeqCst)
-                        + STEM_WRITE.load(Ordering::SeqCst),
-                    Ordering::Relaxed,
-                );
-
-                // Load atomics
-                let total = TOTAL.load(Ordering::SeqCst);
-                let leaf_write = LEAF_WRITE.load(Ordering::SeqCst);
-                let leaf_vec_alloc = LEAF_VEC_ALLOC.load(Ordering::SeqCst);
-                let stem_median = STEM_MEDIAN.load(Ordering::SeqCst);
-                let stem_write = STEM_WRITE.load(Ordering::SeqCst);
-
-                // Time elapsed strs
-                let total_str = total.to_formatted_string(&Locale::en);
-                let ivr_str = initial_vec_ref.to_formatted_string(&Locale::en);
-                let leaf_write_str = leaf_write.to_formatted_string(&Locale::en);
-                let leaf_vec_alloc_str = leaf_vec_alloc.to_formatted_string(&Locale::en);
-                let stem_median_str = stem_median.to_formatted_string(&Locale::en);
-                let stem_write_str = stem_write.to_formatted_string(&Locale::en);
-
-                // Frac strs
-                let ivr_frac_str = format!("{:.2}", 100.0 * initial_vec_ref as f64 / total as f64);
-                let leaf_write_frac_str =
-                    format!("{:.2}", 100.0 * leaf_write as f64 / total as f64);
-                let leaf_vec_alloc_frac_str =
-                    format!("{:.2}", 100.0 * leaf_vec_alloc as f64 / total as f64);
-                let stem_median_frac_str =
-                    format!("{:.2}", 100.0 * stem_median as f64 / total as f64);
-                let stem_write_frac_str =
-                    format!("{:.2}", 100.0 * stem_write as f64 / total as f64);
-
-                println!("\nINITIAL_VEC_REF = {} nanos, {}%", ivr_str, ivr_frac_str);
-                println!(
-                    "LEAF_VEC_ALLOC = {} nanos, {}%",
-                    leaf_vec_alloc_str, leaf_vec_alloc_frac_str
-                );
-                println!(
-                    "LEAF_WRITE = {} nanos {}%",
-                    leaf_write_str, leaf_write_frac_str
-                );
-                println!(
-                    "STEM_MEDIAN = {} nanos, {}%",
-                    stem_median_str, stem_median_frac_str
-                );
-                println!(
-                    "STEM_WRITE = {} nanos, {}%",
-                    stem_write_str, stem_write_frac_str
-                );
-                println!("TOTAL = {}\n", total_str);
-            }
-
-            // Unwrap the Arc
-            let mut nodes = unsafe {
-                Arc::try_unwrap(nodes)
-                    .unwrap_unchecked()
-                    .into_inner()
-                    .unwrap_unchecked()
-            };
-            let root_node = unsafe { nodes.pop().unwrap_unchecked() };
-
-            // Ensure we've checked data before returning
-            unsafe { handle.join().unwrap_unchecked()? };
-
-            let start = input.as_ptr() as *const [NotNan<T>; D];
+            // Load atomics
+            let total = TOTAL.load(Ordering::SeqCst);
+            let leaf_write = LEAF_WRITE.load(Ordering::SeqCst);
+            let leaf_vec_alloc = LEAF_VEC_ALLOC.load(Ordering::SeqCst);
+            let stem_median = STEM_MEDIAN.load(Ordering::SeqCst);
+            let stem_write = STEM_WRITE.load(Ordering::SeqCst);
+
+            // Time elapsed strs
+            let total_str = total.to_formatted_string(&Locale::en);
+            let ivr_str = initial_vec_ref.to_formatted_string(&Locale::en);
+            let leaf_write_str = leaf_write.to_formatted_string(&Locale::en);
+            let leaf_vec_alloc_str = leaf_vec_alloc.to_formatted_string(&Locale::en);
+            let stem_median_str = stem_median.to_formatted_string(&Locale::en);
+            let stem_write_str = stem_write.to_formatted_string(&Locale::en);
+
+            // Frac strs
+            let ivr_frac_str = format!("{:.2}", 100.0 * initial_vec_ref as f64 / total as f64);
+            let leaf_write_frac_str = format!("{:.2}", 100.0 * leaf_write as f64 / total as f64);
+            let leaf_vec_alloc_frac_str =
+                format!("{:.2}", 100.0 * leaf_vec_alloc as f64 / total as f64);
+            let stem_median_frac_str = format!("{:.2}", 100.0 * stem_median as f64 / total as f64);
+            let stem_write_frac_str = format!("{:.2}", 100.0 * stem_write as f64 / total as f64);
+
+            println!("\nINITIAL_VEC_REF = {} nanos, {}%", ivr_str, ivr_frac_str);
+            println!(
+                "LEAF_VEC_ALLOC = {} nanos, {}%",
+                leaf_vec_alloc_str, leaf_vec_alloc_frac_str
+            );
+            println!(
+                "LEAF_WRITE = {} nanos {}%",
+                leaf_write_str, leaf_write_frac_str
+            );
+            println!(
+                "STEM_MEDIAN = {} nanos, {}%",
+                stem_median_str, stem_median_frac_str
+            );
+            println!(
+                "STEM_WRITE = {} nanos, {}%",
+                stem_write_str, stem_write_frac_str
+            );
+            println!("TOTAL = {}\n", total_str);
+        }
 
-            Ok(Tree {
-                data,
-                input,
-                start,
-                leafsize,
-                nodes,
-                height_hint,
-                root_node,
-                boxsize: None,
-            })
+        // Unwrap the Arc
+        let mut nodes = unsafe {
+            Arc::try_unwrap(nodes)
+                .unwrap_unchecked()
+                .into_inner()
+                .unwrap_unchecked()
+        };
+        let root_node = unsafe { nodes.pop().unwrap_unchecked() };
+
+        let start = input.as_ptr() as *const [NotNan<T>; D];
+
+        Ok(Tree {
+            data,
+            input,
+            start,
+            leafsize,
+            nodes,
+            height_hint,
+            root_node,
+            boxsize: None,
         })
     }
 
@@ -466,113 +458,104 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
         if input.len() == 0 {
             return Err(FnntwError::ZeroLengthInputData);
         }
-        std::thread::scope(|s| {
-            // SAFETY: the thread is joined within this
-            let handle = s.spawn(|| check_data(input));
-
-            // This is used to determine the size several allocations
-            let data_len = input.len();
-            let height_hint = data_len.ilog2() as usize;
-
-            // Initialize variables for recursive function
-            let split_level: usize = 0;
-            #[cfg(feature = "timing")]
-            let timer = std::time::Instant::now();
-            let mut data: Vec<Point<T, D>> =
-                unsafe { std::mem::transmute::<&'t [[T; D]], &'t [[NotNan<T>; D]]>(input) }
-                    .into_iter()
-                    .map(|ptr| Point { ptr })
-                    .collect();
-            let vec_ref: &mut [Point<T, D>] = data.as_mut_slice();
-
-            #[cfg(feature = "timing")]
-            let initial_vec_ref = timer.elapsed().as_nanos();
-            let mut nodes = Vec::with_capacity(size_of_tree(data_len, leafsize));
-
-            // Run recursive build
-            Tree::<'t, T, D>::build_nodes::<FIRST, true>(
-                vec_ref,
-                split_level,
-                leafsize,
-                &mut nodes,
-                None,
-                None,
+        check_data(input)?;
+
+        // This is used to determine the size several allocations
+        let data_len = input.len();
+        let height_hint = data_len.ilog2() as usize;
+
+        // Initialize variables for recursive function
+        let split_level: usize = 0;
+        #[cfg(feature = "timing")]
+        let timer = std::time::Instant::now();
+        let mut data: Vec<Point<T, D>> =
+            unsafe { std::mem::transmute::<&'t [[T; D]], &'t [[NotNan<T>; D]]>(input) }
+                .into_iter()
+                .map(|ptr| Point { ptr })
+                .collect();
+        let vec_ref: &mut [Point<T, D>] = data.as_mut_slice();
+
+        #[cfg(feature = "timing")]
+        let initial_vec_ref = timer.elapsed().as_nanos();
+        let mut nodes = Vec::with_capacity(size_of_tree(data_len, leafsize));
+
+        // Run recursive build
+        Tree::<'t, T, D>::build_nodes::<FIRST, true>(
+            vec_ref,
+            split_level,
+            leafsize,
+            &mut nodes,
+            None,
+            None,
+        );
+
+        #[cfg(feature = "timing")]
+        {
+            TOTAL.store(
+                initial_vec_ref as usize
+                    + LEAF_VEC_ALLOC.load(Ordering::SeqCst)
+                    + LEAF_WRITE.load(Ordering::SeqCst)
+                    + STEM_MEDIAN.load(Ordering::SeqCst)
+                    + STEM_WRITE.load(Ordering::SeqCst),
+                Ordering::Relaxed,
             );
 
-            #[cfg(feature = "timing")]
-            {
-                TOTAL.store(
-                    initial_vec_ref as usize
-                        + LEAF_VEC_ALLOC.load(Ordering::SeqCst)
-                        + LEAF_WRITE.load(Ordering::SeqCst)
-                        + STEM_MEDIAN.load(Ordering::SeqCst)
-                        + STEM_WRITE.load(Ordering::SeqCst),
-                    Ordering::Relaxed,
-                );
-
-                // Load atomics
-                let total = TOTAL.load(Ordering::SeqCst);
-                let leaf_write = LEAF_WRITE.load(Ordering::SeqCst);
-                let leaf_vec_alloc = LEAF_VEC_ALLOC.load(Ordering::SeqCst);
-                let stem_median = STEM_MEDIAN.load(Ordering::SeqCst);
-                let stem_write = STEM_WRITE.load(Ordering::SeqCst);
-
-                // Time elapsed strs
-                let total_str = total.to_formatted_string(&Locale::en);
-                let ivr_str = initial_vec_ref.to_formatted_string(&Locale::en);
-                let leaf_write_str = leaf_write.to_formatted_string(&Locale::en);
-                let leaf_vec_alloc_str = leaf_vec_alloc.to_formatted_string(&Locale::en);
-                let stem_median_str = stem_median.to_formatted_string(&Locale::en);
-                let stem_write_str = stem_write.to_formatted_string(&Locale::en);
-
-                // Frac strs
-                let ivr_frac_str = format!("{:.2}", 100.0 * initial_vec_ref as f64 / total as f64);
-                let leaf_write_frac_str =
-                    format!("{:.2}", 100.0 * leaf_write as f64 / total as f64);
-                let leaf_vec_alloc_frac_str =
-                    format!("{:.2}", 100.0 * leaf_vec_alloc as f64 / total as f64);
-                let stem_median_frac_str =
-                    format!("{:.2}", 100.0 * stem_median as f64 / total as f64);
-                let stem_write_frac_str =
-                    format!("{:.2}", 100.0 * stem_write as f64 / total as f64);
-
-                println!("\nINITIAL_VEC_REF = {} nanos, {}%", ivr_str, ivr_frac_str);
-                println!(
-                    "LEAF_VEC_ALLOC = {} nanos, {}%",
-                    leaf_vec_alloc_str, leaf_vec_alloc_frac_str
-                );
-                println!(
-                    "LEAF_WRITE = {} nanos {}%",
-                    leaf_write_str, leaf_write_frac_str
-                );
-                println!(
-                    "STEM_MEDIAN = {} nanos, {}%",
-                    stem_median_str, stem_median_frac_str
-                );
-                println!(
-                    "STEM_WRITE = {} nanos, {}%",
-                    stem_write_str, stem_write_frac_str
-                );
-                println!("TOTAL = {}\n", total_str);
-            }
-
-            let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
+            // Load atomics
+            let total = TOTAL.load(Ordering::SeqCst);
+            let leaf_write = LEAF_WRITE.load(Ordering::SeqCst);
+            let leaf_vec_alloc = LEAF_VEC_ALLOC.load(Ordering::SeqCst);
+            let stem_median = STEM_MEDIAN.load(Ordering::SeqCst);
+            let stem_write = STEM_WRITE.load(Ordering::SeqCst);
+
+            // Time elapsed strs
+            let total_str = total.to_formatted_string(&Locale::en);
+            let ivr_str = initial_vec_ref.to_formatted_string(&Locale::en);
+            let leaf_write_str = leaf_write.to_formatted_string(&Locale::en);
+            let leaf_vec_alloc_str = leaf_vec_alloc.to_formatted_string(&Locale::en);
+            let stem_median_str = stem_median.to_formatted_string(&Locale::en);
+            let stem_write_str = stem_write.to_formatted_string(&Locale::en);
+
+            // Frac strs
+            let ivr_frac_str = format!("{:.2}", 100.0 * initial_vec_ref as f64 / total as f64);
+            let leaf_write_frac_str = format!("{:.2}", 100.0 * leaf_write as f64 / total as f64);
+            let leaf_vec_alloc_frac_str =
+                format!("{:.2}", 100.0 * leaf_vec_alloc as f64 / total as f64);
+            let stem_median_frac_str = format!("{:.2}", 100.0 * stem_median as f64 / total as f64);
+            let stem_write_frac_str = format!("{:.2}", 100.0 * stem_write as f64 / total as f64);
+
+            println!("\nINITIAL_VEC_REF = {} nanos, {}%", ivr_str, ivr_frac_str);
+            println!(
+                "LEAF_VEC_ALLOC = {} nanos, {}%",
+                leaf_vec_alloc_str, leaf_vec_alloc_frac_str
+            );
+            println!(
+                "LEAF_WRITE = {} nanos {}%",
+                leaf_write_str, leaf_write_frac_str
+            );
+            println!(
+                "STEM_MEDIAN = {} nanos, {}%",
+                stem_median_str, stem_median_frac_str
+            );
+            println!(
+                "STEM_WRITE = {} nanos, {}%",
+                stem_write_str, stem_write_frac_str
+            );
+            println!("TOTAL = {}\n", total_str);
+        }
 
-            // ensure we've checked data before returning
-            handle.join().unwrap()?;
+        let root_node: Node<T, D> = nodes.pop().expect("root node should exist");
 
-            let start = input.as_ptr() as *const [NotNan<T>; D];
+        let start = input.as_ptr() as *const [NotNan<T>; D];
 
-            Ok(Tree {
-                data,
-                input,
-                start,
-                leafsize,
-                nodes,
-                height_hint,
-                root_node,
-                boxsize: None,
-            })
+        Ok(Tree {
+            data,
+            input,
+            start,
+            leafsize,
+            nodes,
+            height_hint,
+            root_node,
+            boxsize: None,
         })
     }
 
-- 
2.43.0


From 7880293cedb0b29585d3c23fe176050a56c31435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 02/16] fix: query trees whose root is a leaf

Queries on a tree with at most leafsize points panicked, because the dummy
candidate was only taken from stems.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 542bf5c..df52e0b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -110,10 +110,13 @@ impl<T: Float, const D: usize> Node<T, D> {
         }
     }
 
+    /// A point of this node, used as the initial dummy candidate of a query.
+    /// This is the splitting point of a stem, and the first point of a leaf
+    /// (the root is a leaf when all of the data fits in one).
     fn stem<'a>(&'a self) -> &'a Point<T, D> {
         match self {
             Node::Stem { point, .. } => point,
-            _ => unreachable!("only to be used on stems"),
+            Node::Leaf { points, .. } => &points[0],
         }
     }
 
-- 
2.43.0


From 69176e3d6c46872830bc33219ab045f9207b6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:43 +0000
Subject: [PATCH 03/16] fix: leafsize 0 underflowed the estimated size of the
 tree

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index df52e0b..5fd137c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -806,8 +806,8 @@ mod tests {
 
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
-        let left = datalen / 2 - 1;
-        let right = datalen / 2 - datalen % 2;
+        let left = (datalen / 2).saturating_sub(1);
+        let right = (datalen / 2).saturating_sub(datalen % 2);
         1 + size_of_tree(left, leafsize) + size_of_tree(right, leafsize)
     } else if datalen == 0 {
         0
-- 
2.43.0


From 283bce44fabb98f2452f0ee0a3ba57c0f4a397dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:56 +0000
Subject: [PATCH 04/16] fix: batch queries for more neighbors than there are
 points

The rows of the result were written with a stride of the number of points
but its length was set from the requested k, which exposed uninitialized
memory.
---
 src/query_k/parallel.rs      | 3 +++
 src/query_k/parallel_axis.rs | 3 +++
 src/query_k/parallel_with.rs | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 25bb3e5..e6173f4 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -19,6 +19,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
     ) -> FnntwResult<QueryKResult<'t, T, D>, T> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
 
+        // There are at most this many neighbors, and this is the length of a row of the result
+        let k = k.min(self.data.len());
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 781ff13..c489b94 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -26,6 +26,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             return Err(FnntwError::InvalidAxis);
         }
 
+        // There are at most this many neighbors, and this is the length of a row of the result
+        let k = k.min(self.data.len());
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 4822629..c451e75 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -20,6 +20,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         use rayon::prelude::{IndexedParallelIterator, IntoParallelIterator, ParallelIterator};
         use sync_unsafe_cell::SyncUnsafeCell;
 
+        // There are at most this many neighbors, and this is the length of a row of the result
+        let k = k.min(self.data.len());
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
-- 
2.43.0


From 57b9e667922067abff8e2fd2676621fccea20915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 05/16] fix: k-nearest queries with k = 0

The candidate heap of capacity 0 was peeked with unwrap_unchecked while
empty, which is undefined behavior. Return no neighbors instead.
---
 src/query_k.rs               |  5 +++++
 src/query_k/parallel.rs      |  8 +++++++-
 src/query_k/parallel_axis.rs | 13 ++++++++++++-
 src/query_k/parallel_with.rs |  8 +++++++-
 4 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/query_k.rs b/src/query_k.rs
index ea50d65..0f81039 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -25,6 +25,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // Check for valid query point
         let query: &[NotNan<T>; D] = check_point_return(query)?;
 
+        // No neighbors requested
+        if k == 0 {
+            return Ok(Container::new(0).index(self.start()));
+        }
+
         if let Some(ref boxsize) = self.boxsize {
             // Periodic query
             Ok(self.query_nearest_k_periodic(query, k, boxsize))
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index e6173f4..6950cf3 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -22,6 +22,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // There are at most this many neighbors, and this is the length of a row of the result
         let k = k.min(self.data.len());
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((Vec::new(), Vec::new()));
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index c489b94..e2e4488 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -5,7 +5,7 @@ use std::fmt::Debug;
 use crate::{
     distance::{calc_dist_sq_to_space, new_best_kth_axis},
     point::{Float, Point},
-    utils::{check_point_return, FnntwError, FnntwResult},
+    utils::{check_data, check_point_return, FnntwError, FnntwResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -29,6 +29,17 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // There are at most this many neighbors, and this is the length of a row of the result
         let k = k.min(self.data.len());
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((
+                Vec::new(),
+                Vec::new(),
+                #[cfg(not(feature = "no-index"))]
+                Vec::new(),
+            ));
+        }
+
         let mut axes = Vec::with_capacity(queries.len() * k);
         let mut nonaxes = Vec::with_capacity(queries.len() * k);
         #[cfg(not(feature = "no-index"))]
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index c451e75..d55886b 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -4,7 +4,7 @@ use std::fmt::Debug;
 
 use crate::{
     point::{Float, Point},
-    utils::{check_point_return, FnntwResult, QueryKResult},
+    utils::{check_data, check_point_return, FnntwResult, QueryKResult},
     Node, Tree,
 };
 use ordered_float::NotNan;
@@ -23,6 +23,12 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // There are at most this many neighbors, and this is the length of a row of the result
         let k = k.min(self.data.len());
 
+        // No neighbors requested
+        if k == 0 {
+            check_data(queries)?;
+            return Ok((Vec::new(), Vec::new()));
+        }
+
         #[cfg(feature = "timing")]
         let alloc_timer = std::time::Instant::now();
 
-- 
2.43.0


From 01cfe61a41331c361c156deedfc26833b55144de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 06/16] fix: unbounded recursion of queries that visit much of
 the tree

A nested traversal drained the candidates of its callers as well, so the
recursion was as deep as the number of stems visited rather than the height
of the tree, and large queries overflowed the stack. Drain only the
candidates pushed by this traversal; the order of visits is unchanged.
---
 src/query.rs                 | 8 ++++++--
 src/query_k.rs               | 8 ++++++--
 src/query_k/parallel_axis.rs | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index db1b8d2..677f7c5 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -252,6 +252,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         'i: 'o,
         't: 'i,
     {
+        // Candidates below this one are left to the caller
+        let base = points_to_check.len();
+
         // Navigate down the stems until we reach a leaf
         let mut current_node = stem;
 
@@ -311,8 +314,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
             current_best_neighbor,
         );
 
-        // Now we empty out the queue
-        while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
+        // Now we empty out our part of the queue
+        while points_to_check.len() > base {
+            let (sibling, parent, dist_sq_to_space) = points_to_check.pop().unwrap();
             if dist_sq_to_space < *current_best_dist_sq {
                 self.check_child(
                     query,
diff --git a/src/query_k.rs b/src/query_k.rs
index 0f81039..ba70faf 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -252,6 +252,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         'i: 'o,
         't: 'i,
     {
+        // Candidates below this one are left to the caller
+        let base = points_to_check.len();
+
         // Navigate down the stems until we reach a leaf
         let mut current_node = stem;
 
@@ -306,8 +309,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // We are now at a leaf; check it
         self.check_leaf_k(query, current_node.iter(), container);
 
-        // Now we empty out the queue
-        while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
+        // Now we empty out our part of the queue
+        while points_to_check.len() > base {
+            let (sibling, parent, dist_sq_to_space) = points_to_check.pop().unwrap();
             let better_dist2 = dist_sq_to_space < *container.best_dist2();
             if better_dist2 {
                 self.check_child_k(query, sibling, parent, container, points_to_check);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index e2e4488..15ea8eb 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -357,6 +357,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         'i: 'o,
         't: 'i,
     {
+        // Candidates below this one are left to the caller
+        let base = points_to_check.len();
+
         // Navigate down the stems until we reach a leaf
         let mut current_node = stem;
 
@@ -407,8 +410,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
         // We are now at a leaf; check it
         self.check_leaf_k_axis(query, current_node.iter(), container, axis);
 
-        // Now we empty out the queue
-        while let Some((sibling, parent, dist_sq_to_space)) = points_to_check.pop() {
+        // Now we empty out our part of the queue
+        while points_to_check.len() > base {
+            let (sibling, parent, dist_sq_to_space) = points_to_check.pop().unwrap();
             let better_dist2 = dist_sq_to_space < *container.best_dist2();
             if better_dist2 {
                 self.check_child_k_axis(query, sibling, parent, container, points_to_check, axis);
-- 
2.43.0


From b11b487f33fbd128fd7678d70a0d1b1e30018a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 07/16] fix: degenerate splits of large data with duplicates

Building a tree of 100k or more points with many equal coordinates split off
one point at a time, which took quadratic time and overflowed the stack.
---
 src/moms.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/moms.rs b/src/moms.rs
index 90295f0..d4077cf 100644
--- a/src/moms.rs
+++ b/src/moms.rs
@@ -296,7 +296,10 @@ pub fn moms_seq<T: Float, const D: usize>(
         right_timer.elapsed().as_micros()
     );
 
-    let (left, remainder) = slice.split_at_mut(left);
+    // Any of the equal points can be the median. Choose the one that makes the
+    // most even split, as otherwise many duplicates make for a very deep tree.
+    let split = (slice.len() / 2).clamp(left, left + equal - 1);
+    let (left, remainder) = slice.split_at_mut(split);
     let (approx_median, right) = remainder.split_first_mut().unwrap();
 
     (left, approx_median, right)
-- 
2.43.0


From 3587d7e20cd6d9d823d0075c9e6227246b4447de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:26 +0000
Subject: [PATCH 08/16] fix: deadlock of parallel builds of large trees on
 rayon workers

new_parallel blocked the calling thread on scoped threads, which wait for
the rayon pool when they take the median of 100k points or more. When all
workers were building trees, none was left to serve the pool.
---
 src/lib.rs | 59 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5fd137c..6dad067 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -375,17 +375,17 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
             #[cfg(feature = "timing")]
             STEM_MEDIAN.fetch_add(stem_median as usize, Ordering::SeqCst);
 
-            let mut left_idx = 0;
-            let mut right_idx = 0;
+            let left_idx;
+            let right_idx;
             if split_level < par_split_level {
                 //&& par_split_level > 0 {
                 // We are at a level over which user has specified
-                // we should parallelize the build. Handle in scoped threads
+                // we should parallelize the build.
                 let left_arc = Arc::clone(&nodes);
                 let right_arc = Arc::clone(&nodes);
 
-                std::thread::scope(|s| {
-                    let left_handle = s.spawn(|| {
+                (left_idx, right_idx) = fork_join(
+                    || {
                         Tree::build_nodes_parallel::<NOT_FIRST, IS_LEFT>(
                             left,
                             split_level,
@@ -395,20 +395,19 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
                             Some(split_val),
                             par_split_level,
                         )
-                    });
-
-                    right_idx = Tree::build_nodes_parallel::<NOT_FIRST, IS_RIGHT>(
-                        right,
-                        split_level,
-                        leafsize,
-                        right_arc,
-                        Some((lower, upper)),
-                        Some(split_val),
-                        par_split_level,
-                    );
-
-                    left_idx = left_handle.join().unwrap();
-                });
+                    },
+                    || {
+                        Tree::build_nodes_parallel::<NOT_FIRST, IS_RIGHT>(
+                            right,
+                            split_level,
+                            leafsize,
+                            right_arc,
+                            Some((lower, upper)),
+                            Some(split_val),
+                            par_split_level,
+                        )
+                    },
+                );
             } else {
                 left_idx = Tree::build_nodes_parallel::<NOT_FIRST, IS_LEFT>(
                     left,
@@ -804,6 +803,28 @@ mod tests {
     }
 }
 
+/// Run two closures in parallel, the first one in a scoped thread.
+fn fork_join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
+where
+    A: FnOnce() -> RA + Send,
+    B: FnOnce() -> RB + Send,
+    RA: Send,
+    RB: Send,
+{
+    // A rayon worker must not block on a thread that may itself need the pool
+    // (for medians, say): with all of the workers blocked, none is left to serve it.
+    #[cfg(feature = "parallel")]
+    if rayon::current_thread_index().is_some() {
+        return rayon::join(a, b);
+    }
+
+    std::thread::scope(|s| {
+        let a = s.spawn(a);
+        let b = b();
+        (a.join().unwrap(), b)
+    })
+}
+
 fn size_of_tree(datalen: usize, leafsize: usize) -> usize {
     if likely(datalen > leafsize) {
         let left = (datalen / 2).saturating_sub(1);
-- 
2.43.0


From 0f486b232c2056d507fc46dfbdbd8898553c1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 09/16] fix: Treef64 reports build errors as ValueError like
 Treef32

Invalid or empty data panicked.
---
 pyfnntw/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index c7c9526..e8bdae2 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -226,10 +226,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 2>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 2] = boxsize.as_slice()?.try_into()?;
@@ -262,10 +261,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                                 Box<dyn std::error::Error>,
                             > {
                                 let tree = if let Some(psl) = par_split_level {
-                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)
-                                        .unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new_parallel(data, leafsize, psl)?
                                 } else {
-                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize).unwrap()
+                                    FNNTWTree::<'_, f64, 3>::new(data, leafsize)?
                                 };
                                 if let Some(boxsize) = boxsize {
                                     let boxsize: [f64; 3] = boxsize.as_slice()?.try_into()?;
-- 
2.43.0


From 25291a716c08e7fa29b285a2595bf37ca4f180d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 10/16] fix: invalid 1-NN query raises ValueError like the
 other queries

A NaN in the query panicked.
---
 pyfnntw/src/lib.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index e8bdae2..d9df3d2 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -481,17 +481,15 @@ macro_rules! tree_impl {
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
 
                     let kdtree = self.borrow_tree();
-                    let query_size = query.len();
-                    let mut distances = Vec::with_capacity(query_size);
-                    let mut indices = Vec::with_capacity(query_size);
-                    query
+                    let results = query
                         .into_par_iter()
-                        .map_with(kdtree, |t, q| {
-                            t.query_nearest(q).expect("you likely have a nan")
-                        })
-                        .unzip_into_vecs(&mut distances, &mut indices);
+                        .map_with(kdtree, |t, q| t.query_nearest(q))
+                        .collect::<FnntwResult<Vec<_>, $float>>()
+                        .map_err(|e| {
+                            PyValueError::new_err(format!("query failed {e}"))
+                        })?;
 
-                    Ok((distances, indices))
+                    Ok(results.into_iter().unzip())
                 }
 
                 fn query_k(
-- 
2.43.0


From c13c5528242a378db18916d04cd469cdf3df0c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 11/16] fix: Python queries for more neighbors than there are
 points

The rows of the result are only as long as the number of points; reading k
values of each went out of bounds.
---
 pyfnntw/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index d9df3d2..fa6be9f 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -137,7 +137,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             axis: Option<usize>,
         ) -> PyResult<(PyObject, PyObject)> {
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -157,7 +157,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are at most this many neighbors per query
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -323,7 +324,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // }
 
             if let Some(axis) = axis {
-                let k = k.unwrap_or(1);
+                let k = k.unwrap_or(1).min(slf.0.len());
                 let (axis, nonaxis) = slf.0.query_k_axis(query.as_array(), k, axis)?;
                 let distances =
                     unsafe { Array2::from_shape_vec_unchecked((query.shape()[0], k), axis) };
@@ -343,7 +344,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         indices.into_pyarray(slf.py()).into(),
                     ))
                 } else {
-                    let k = k.unwrap();
+                    // There are at most this many neighbors per query
+                    let k = k.unwrap().min(slf.0.len());
                     let (distances, indices) = slf.0.query_k(query.as_array(), k)?;
                     // SAFETY: the shape has been checked aldready
                     let distances = unsafe {
@@ -450,6 +452,8 @@ struct Tree3<'a, T: Float> {
 // }
 
 trait FNTree<T: Float> {
+    /// Number of points in the tree
+    fn len(&self) -> usize;
     fn query(&self, query: ArrayView2<T>) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k(&self, query: ArrayView2<T>, k: usize) -> PyResult<(Vec<T>, Vec<u64>)>;
     fn query_k_axis(
@@ -464,6 +468,10 @@ macro_rules! tree_impl {
     ($float:ty, $dim:literal) => {
         concat_idents::concat_idents!(tree = Tree, $dim {
             impl<'a> FNTree<$float> for tree<'a, $float> {
+                fn len(&self) -> usize {
+                    self.borrow_data().len()
+                }
+
                 fn query(&self, query: ArrayView2<$float>) -> PyResult<(Vec<$float>, Vec<u64>)> {
                     // Check dimensions of data
                     let dims: [usize; 2] = query
-- 
2.43.0


From 33ecd7559e152502e8f4c8c0823edcb43c6ad6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 12/16] fix: small batches given to
 query_nearest_k_parallel_with outside a pool

A batch of at most one query is not split, so it runs on the calling thread,
which has no index in the pool when it is not a worker.
---
 src/query_k/parallel_with.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index d55886b..6b5551e 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -53,9 +53,11 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
                     // Check for valid query point
                     let query: &[NotNan<T>; D] = check_point_return(query)?;
 
-                    // Get pre-allocated buffers if available
-                    let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                    // Get pre-allocated buffers. A batch too small to be split runs
+                    // entirely on the calling thread, which may not be a worker.
+                    let (ref mut container, ref mut point_vec) = unsafe {
+                        &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get()
+                    };
 
                     // Periodic query
                     self.query_nearest_k_periodic_into_with(
@@ -83,8 +85,9 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
                     // Get pre-allocated buffers if available
                     // let (ref tx, ref rx) = tx_rx_vec[rayon::current_thread_index().unwrap() / 4];
-                    let (ref mut container, ref mut point_vec) =
-                        unsafe { &mut *tx_rx_vec[rayon::current_thread_index().unwrap()].get() };
+                    let (ref mut container, ref mut point_vec) = unsafe {
+                        &mut *tx_rx_vec[rayon::current_thread_index().unwrap_or(0)].get()
+                    };
                     // let (mut container, mut point_vec) = rx.try_recv().unwrap_or_else(|_| {
                     //     (Container::new(k), Vec::with_capacity(self.height_hint))
                     // });
-- 
2.43.0


From c97ec8c4765f47aed6664558e07ee89e97b33a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:56 +0000
Subject: [PATCH 13/16] fix: keep the numpy array alive as long as the tree
 that borrows its memory

The tree refers to the memory of the array it was built from, but nothing kept
the array alive: pyfnntw.Treef64(np.random.uniform(size=(n, 3)), 32) left a tree
that read freed memory. Treef32 and Treef64 now hold a reference to the array.
---
 pyfnntw/src/lib.rs | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index fa6be9f..82ce74e 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -15,9 +15,17 @@ use rayon::prelude::*;
 #[pymodule]
 fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
     #[pyclass]
-    struct Treef32(Box<dyn FNTree<f32> + Send + Sync + 'static>);
+    struct Treef32(
+        Box<dyn FNTree<f32> + Send + Sync + 'static>,
+        // The tree refers to the memory of this array
+        #[allow(dead_code)] Py<PyArray2<f32>>,
+    );
     #[pyclass]
-    struct Treef64(Box<dyn FNTree<f64> + Send + Sync + 'static>);
+    struct Treef64(
+        Box<dyn FNTree<f64> + Send + Sync + 'static>,
+        // The tree refers to the memory of this array
+        #[allow(dead_code)] Py<PyArray2<f64>>,
+    );
 
     #[pymethods]
     impl Treef32 {
@@ -45,6 +53,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree borrows the data, so the array has to live as long as the tree
+            let array: Py<PyArray2<f32>> = (&*data).into();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -54,9 +65,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the array that owns it is kept alive by the returned object.
+                    // Note that python can still modify it.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -86,12 +96,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), array))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the array that owns it is kept alive by the returned object.
+                    // Note that python can still modify it.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -120,7 +129,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         }
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
-                    Ok(Treef32(Box::new(tree)))
+                    Ok(Treef32(Box::new(tree), array))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
@@ -201,6 +210,9 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                 }
             }
 
+            // The tree borrows the data, so the array has to live as long as the tree
+            let array: Py<PyArray2<f64>> = (&*data).into();
+
             // Check dimensions of data
             let dims: [usize; 2] = data
                 .shape()
@@ -210,9 +222,8 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
             // Check dimensionality is as expected
             match dims[1] {
                 2 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the array that owns it is kept alive by the returned object.
+                    // Note that python can still modify it.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
                             data.as_array().as_slice().unwrap(),
@@ -242,12 +253,11 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), array))
                 }
                 3 => {
-                    // SAFETY: this data is owned by python and so the reference will remain valid for longer than this scope.
-                    // Note that it is still very possible to use-after-free but there's not much we can do about it without making
-                    // a copy of the data
+                    // SAFETY: this data is owned by python, and the array that owns it is kept alive by the returned object.
+                    // Note that python can still modify it.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
                             data.as_array().as_slice().unwrap(),
@@ -277,7 +287,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                         .try_build()
                         .map_err(|e| PyValueError::new_err(format!("failed to build tree: {e}")))?;
 
-                    Ok(Treef64(Box::new(tree)))
+                    Ok(Treef64(Box::new(tree), array))
                 }
                 _ => {
                     return Err(PyErr::new::<exceptions::PyTypeError, _>(
-- 
2.43.0


From 8c842afb3c09d30a265028991509a68bf50910f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:24 +0000
Subject: [PATCH 14/16] fix: raise ValueError for arrays that are not
 C-contiguous

as_slice().unwrap() made the constructor and query panic (a PanicException, which
is not an Exception) for Fortran-ordered or strided arrays.
---
 pyfnntw/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pyfnntw/src/lib.rs b/pyfnntw/src/lib.rs
index 82ce74e..7245f71 100644
--- a/pyfnntw/src/lib.rs
+++ b/pyfnntw/src/lib.rs
@@ -69,7 +69,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // Note that python can still modify it.
                     let data: &[[f32; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -103,7 +103,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // Note that python can still modify it.
                     let data: &[[f32; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f32, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -226,7 +226,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // Note that python can still modify it.
                     let data: &[[f64; 2]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 2>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -260,7 +260,7 @@ fn pyfnntw(_py: Python, m: &PyModule) -> PyResult<()> {
                     // Note that python can still modify it.
                     let data: &[[f64; 3]] = unsafe {
                         std::mem::transmute(slice_as_chunks::<f64, 3>(
-                            data.as_array().as_slice().unwrap(),
+                            data.as_array().as_slice().ok_or_else(not_contiguous)?,
                         ))
                     };
 
@@ -461,6 +461,11 @@ struct Tree3<'a, T: Float> {
 //     }
 // }
 
+/// The arrays are read as they lie in memory
+fn not_contiguous() -> PyErr {
+    PyValueError::new_err("the array must be C-contiguous, see numpy.ascontiguousarray")
+}
+
 trait FNTree<T: Float> {
     /// Number of points in the tree
     fn len(&self) -> usize;
@@ -496,7 +501,7 @@ macro_rules! tree_impl {
                         ));
                     }
 
-                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().unwrap());
+                    let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query.as_slice().ok_or_else(not_contiguous)?);
 
                     let kdtree = self.borrow_tree();
                     let results = query
@@ -530,7 +535,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     {
@@ -611,7 +616,7 @@ macro_rules! tree_impl {
                     // Transform slice of floats into slice of arrays
                     let query: &[[$float; $dim]] = slice_as_chunks::<$float, $dim>(query
                         .as_slice()
-                        .unwrap()
+                        .ok_or_else(not_contiguous)?
                     );
 
                     self.borrow_tree().query_nearest_k_parallel_axis(query, k, axis).map_err(|e| {
-- 
2.43.0


From a41eca533a08c9632c8a4fcaf0bec344788bf554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:24 +0000
Subject: [PATCH 15/16] fix: accept data with a negative zero in a periodic box

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6dad067..95f880a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -730,7 +730,7 @@ impl<'t, T: Float + Send + Debug, const D: usize> Tree<'t, T, D> {
 
         // Check that the data bounding box is in R_+^n
         for component in lower {
-            if component.is_sign_negative() {
+            if **component < T::zero() {
                 return Err(FnntwError::NegativeDataPeriodicQuery);
             } else if component.is_infinite() || component.is_nan() {
                 return Err(FnntwError::InvalidBoxsize);
-- 
2.43.0


From 001b9187a384949b483e58d5eb4a859f6aab342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 16/16] fix: a periodic query with a component of -0.0 failed a
 debug assertion

---
 src/query.rs                 | 2 +-
 src/query_k.rs               | 2 +-
 src/query_k/parallel.rs      | 2 +-
 src/query_k/parallel_axis.rs | 2 +-
 src/query_k/parallel_with.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/query.rs b/src/query.rs
index 677f7c5..447903e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -83,7 +83,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // !negative includes zero
             debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k.rs b/src/query_k.rs
index ba70faf..8513e86 100644
--- a/src/query_k.rs
+++ b/src/query_k.rs
@@ -110,7 +110,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // !negative includes zero
             debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel.rs b/src/query_k/parallel.rs
index 6950cf3..965bb88 100644
--- a/src/query_k/parallel.rs
+++ b/src/query_k/parallel.rs
@@ -163,7 +163,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // !negative includes zero
             debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_axis.rs b/src/query_k/parallel_axis.rs
index 15ea8eb..0e4c3d4 100644
--- a/src/query_k/parallel_axis.rs
+++ b/src/query_k/parallel_axis.rs
@@ -202,7 +202,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // !negative includes zero
             debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
diff --git a/src/query_k/parallel_with.rs b/src/query_k/parallel_with.rs
index 6b5551e..25faa6f 100644
--- a/src/query_k/parallel_with.rs
+++ b/src/query_k/parallel_with.rs
@@ -181,7 +181,7 @@ impl<'t, T: Float + Debug, const D: usize> Tree<'t, T, D> {
 
             // !negative includes zero
             debug_assert!(!upper.is_sign_negative());
-            debug_assert!(!query_component.is_sign_negative());
+            debug_assert!(**query_component >= T::zero());
 
             // Choose lesser of two and then square
             closest_side_dist2[side] = upper.min(*query_component).powi(2);
-- 
2.43.0

