From e2fdac05cdb63463576b8df8ae8a3f808769a1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 01/82] fix: keep node metadata attached to its node in
 canonicalize_nodes

---
 hugr-core/src/hugr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index d5d62c6..41ab14b 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -383,6 +383,7 @@ impl Hugr {
             if pg_target != pg_source {
                 self.graph.swap_nodes(pg_target, pg_source);
                 self.op_types.swap(pg_target, pg_source);
+                self.metadata.swap(pg_target, pg_source);
                 self.hierarchy.swap_nodes(pg_target, pg_source);
                 rekey(source, pg_target.into());
             }
-- 
2.43.0


From 4ccf6b532da205bde2dd5db1f3e3d3bfac923f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 02/82] fix: drop the metadata of a removed node

---
 hugr-core/src/hugr/hugrmut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 3a1564c..7dced65 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,6 +486,7 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
+        self.metadata.take(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
-- 
2.43.0


From 1146b09d00b4af48cf131f4bc151bd92c896f9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 03/82] fix: insert_view_forest leaves nodes without a copied
 parent detached, as documented

---
 hugr-core/src/hugr/hugrmut.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index 7dced65..ba1a924 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -724,9 +724,10 @@ fn insert_forest_internal<H: HugrView>(
     for old in other_nodes {
         let new = node_map[&old];
         if hugr.get_parent(new).is_none() {
-            let old_parent = other.get_parent(old).unwrap();
-            let new_parent = node_map[&old_parent];
-            hugr.set_parent(new, new_parent);
+            let new_parent = other.get_parent(old).and_then(|p| node_map.get(&p));
+            if let Some(&new_parent) = new_parent {
+                hugr.set_parent(new, new_parent);
+            }
         }
     }
     Ok(InsertedForest { node_map })
-- 
2.43.0


From 7c3c6f57b0aa7bde0b426acb90631fb9b10bd346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:04 +0000
Subject: [PATCH 04/82] fix: copy_descendants into one of the copied nodes no
 longer panics

---
 hugr-core/src/hugr/hugrmut.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/hugr/hugrmut.rs b/hugr-core/src/hugr/hugrmut.rs
index ba1a924..5a01f06 100644
--- a/hugr-core/src/hugr/hugrmut.rs
+++ b/hugr-core/src/hugr/hugrmut.rs
@@ -486,7 +486,7 @@ impl HugrMut for Hugr {
         panic_invalid_non_entrypoint(self, node);
         self.hierarchy.remove(node.into_portgraph());
         self.graph.remove_node(node.into_portgraph());
-        self.metadata.take(node.into_portgraph());
+        let _ = self.metadata.take(node.into_portgraph());
         self.op_types.take(node.into_portgraph())
     }
 
@@ -624,15 +624,18 @@ impl HugrMut for Hugr {
         let node_map =
             translate_indices(Into::into, Into::into, node_map).collect::<BTreeMap<_, _>>();
 
-        for node in self.children(root).collect::<Vec<_>>() {
-            self.set_parent(*node_map.get(&node).unwrap(), new_parent);
+        // Collect the moves before attaching any copy, as `new_parent` may itself be
+        // one of the copied nodes.
+        let moves = std::iter::once((root, new_parent))
+            .chain(node_map.iter().map(|(&node, &new_node)| (node, new_node)))
+            .flat_map(|(node, new_node)| self.children(node).map(move |ch| (ch, new_node)))
+            .collect::<Vec<_>>();
+        for (ch, new_parent) in moves {
+            self.set_parent(*node_map.get(&ch).unwrap(), new_parent);
         }
 
-        // Copy the optypes, metadata, and hierarchy
+        // Copy the optypes and metadata
         for (&node, &new_node) in &node_map {
-            for ch in self.children(node).collect::<Vec<_>>() {
-                self.set_parent(*node_map.get(&ch).unwrap(), new_node);
-            }
             let new_optype = match (&subst, self.get_optype(node)) {
                 (None, op) => op.clone(),
                 (Some(subst), op) => op.substitute(subst),
-- 
2.43.0


From a48a48bcf2e3901b1cd4cd1dc85611fc6b142f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 05/82] fix: dropping a port with several links leaves the
 remaining links intact

---
 hugr-core/src/hugr/internal.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/internal.rs b/hugr-core/src/hugr/internal.rs
index bb1a77f..62ab3f4 100644
--- a/hugr-core/src/hugr/internal.rs
+++ b/hugr-core/src/hugr/internal.rs
@@ -282,8 +282,7 @@ impl HugrMutInternals for Hugr {
     #[inline]
     fn set_num_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
         panic_invalid_node(self, node);
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
     }
 
     fn add_ports(&mut self, node: Node, direction: Direction, amount: isize) -> Range<usize> {
@@ -300,8 +299,7 @@ impl HugrMutInternals for Hugr {
             Direction::Incoming => increment(&mut incoming),
             Direction::Outgoing => increment(&mut outgoing),
         };
-        self.graph
-            .set_num_ports(node.into_portgraph(), incoming, outgoing, |_, _| {});
+        self.resize_ports(node, incoming, outgoing);
         range
     }
 
@@ -391,6 +389,21 @@ impl HugrMutInternals for Hugr {
 }
 
 impl Hugr {
+    /// Resizes the ports of a node, disconnecting any port that is dropped.
+    fn resize_ports(&mut self, node: Node, incoming: usize, outgoing: usize) {
+        let node = node.into_portgraph();
+        // The multigraph does not keep its copy nodes consistent when it drops
+        // a port with multiple links, so unlink those first.
+        let dropped = (self.graph.inputs(node).skip(incoming))
+            .chain(self.graph.outputs(node).skip(outgoing))
+            .collect_vec();
+        for port in dropped {
+            self.graph.unlink_port(port);
+        }
+        self.graph
+            .set_num_ports(node, incoming, outgoing, |_, _| {});
+    }
+
     /// Consumes the HUGR and return a flat portgraph view of the region rooted
     /// at `parent`.
     #[inline]
-- 
2.43.0


From 2e2c6613ca24e9ea97eee59b5b8418d8b7403d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:51 +0000
Subject: [PATCH 06/82] fix: reject ports of nodes that are not in the graph
 even if the index is used internally

---
 hugr-core/src/hugr/views.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index ff53ca0..474eea2 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -853,10 +853,11 @@ pub(super) fn panic_invalid_non_entrypoint<H: HugrView + ?Sized>(hugr: &H, node:
 #[track_caller]
 pub(super) fn panic_invalid_port(hugr: &Hugr, node: Node, port: impl Into<Port>) {
     let port = port.into();
-    if hugr
-        .graph
-        .port_index(node.into_portgraph(), port.pg_offset())
-        .is_none()
+    if !hugr.contains_node(node)
+        || hugr
+            .graph
+            .port_index(node.into_portgraph(), port.pg_offset())
+            .is_none()
     {
         panic!("Received an invalid {port} for {node} while mutating a HUGR");
     }
-- 
2.43.0


From 8c18a7c781fa83b7d0d8a8b19d8c4b16efbcdc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 07/82] fix: check type arguments against the parameters before
 running a custom signature validator

---
 hugr-core/src/extension/op_def.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index c1e19b5..70b7156 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -231,6 +231,8 @@ impl SignatureFunc {
         let temp: PolyFuncTypeRV; // to keep alive
         let (pf, args) = match &self {
             SignatureFunc::CustomValidator(custom) => {
+                // The custom validator may rely on the arguments fitting the parameters.
+                check_term_types(args, custom.poly_func.params())?;
                 custom.validate.validate(args, def)?;
                 (&custom.poly_func, args)
             }
-- 
2.43.0


From 42b9f6290a094fe3319d696cdc2a6ffc6e62ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 08/82] fix: fold inarrow_u/inarrow_s to a 64-bit integer
 correctly

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index faad176..d83ff51 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -128,7 +128,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: u64 = n0.value_u();
-                    let out_const: Value = if n0val >> (1 << logwidth1) != 0 {
+                    let out_const: Value = if n0val > bitmask_from_logwidth(logwidth1) {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_u(logwidth1, n0val).map(Into::into))
@@ -155,8 +155,9 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             .unwrap_or_else(|e| panic!("Invalid computed sum, {e}"))
                     };
                     let n0val: i64 = n0.value_s();
-                    let ub = 1i64 << ((1 << logwidth1) - 1);
-                    let out_const: Value = if n0val >= ub || n0val < -ub {
+                    // Largest value that fits; the smallest is its complement.
+                    let max_val = (bitmask_from_logwidth(logwidth1) >> 1) as i64;
+                    let out_const: Value = if n0val > max_val || n0val < !max_val {
                         mk_out_const(0, Ok(INARROW_ERROR_VALUE.clone()))
                     } else {
                         mk_out_const(1, ConstInt::new_s(logwidth1, n0val).map(Into::into))
-- 
2.43.0


From a478675992906e2c04422a61a3094ced894bd2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 09/82] fix: fold successful checked divisions to the success
 variant of their output type

---
 .../arithmetic/int_ops/const_fold.rs          | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index d83ff51..e5331c8 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -7,7 +7,7 @@ use crate::{
     IncomingPort,
     extension::{
         ConstFoldResult, Folder, OpDef,
-        prelude::{ConstError, sum_with_error},
+        prelude::{ConstError, const_ok, error_type, sum_with_error},
     },
     ops::{
         Value,
@@ -602,10 +602,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         } else {
                             let qval = nval / mval;
                             let rval = nval % mval;
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_u(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -662,10 +665,13 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, rval) = divmod_s(nval, mval);
-                            Value::tuple(vec![
-                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
-                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
-                            ])
+                            const_ok(
+                                Value::tuple(vec![
+                                    Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                    Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                ]),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -719,7 +725,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval / mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -771,7 +780,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         let out_const: Value = if mval == 0 {
                             err_value()
                         } else {
-                            Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, nval % mval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -824,7 +836,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (qval, _) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_s(logwidth0, qval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_s(logwidth0, qval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
@@ -878,7 +893,10 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             err_value()
                         } else {
                             let (_, rval) = divmod_s(nval, mval);
-                            Value::extension(ConstInt::new_u(logwidth0, rval).unwrap())
+                            const_ok(
+                                Value::extension(ConstInt::new_u(logwidth0, rval).unwrap()),
+                                error_type(),
+                            )
                         };
                         Some(vec![(0.into(), out_const)])
                     }
-- 
2.43.0


From 05a44641943ef68a08f0ce2f95d4403d4cec6225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 10/82] fix: fold iabs of the most negative integer of every
 width

---
 .../src/std_extensions/arithmetic/int_ops/const_fold.rs   | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e5331c8..e1db81d 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -937,13 +937,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                if n0val == i64::MIN {
-                                    debug_assert!(logwidth == 6);
-                                    ConstInt::new_u(6, 1u64 << 63)
-                                } else {
-                                    ConstInt::new_s(logwidth, n0val.abs())
-                                }
-                                .unwrap(),
+                                ConstInt::new_u(logwidth, n0val.unsigned_abs()).unwrap(),
                             ),
                         )])
                     } else {
-- 
2.43.0


From 46cff966851da74c9d157d90f64fd46e50e16b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 11/82] fix: fold shifts and rotations by 64 or more without
 overflowing

---
 .../arithmetic/int_ops/const_fold.rs          | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index e1db81d..a47e12b 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -40,6 +40,16 @@ fn bitmask_from_logwidth(logwidth: u8) -> u64 {
     bitmask_from_width(1u64 << logwidth)
 }
 
+/// Logical shift left, dropping all bits if the shift amount is at least 64.
+fn shl(n: u64, k: u64) -> u64 {
+    if k < 64 { n << k } else { 0 }
+}
+
+/// Logical shift right, dropping all bits if the shift amount is at least 64.
+fn shr(n: u64, k: u64) -> u64 {
+    if k < 64 { n >> k } else { 0 }
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -1051,7 +1061,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    (n0.value_u() << n1.value_u())
+                                    shl(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth0),
                                 )
                                 .unwrap(),
@@ -1076,7 +1086,8 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                         Some(vec![(
                             0.into(),
                             Value::extension(
-                                ConstInt::new_u(logwidth0, n0.value_u() >> n1.value_u()).unwrap(),
+                                ConstInt::new_u(logwidth0, shr(n0.value_u(), n1.value_u()))
+                                    .unwrap(),
                             ),
                         )])
                     }
@@ -1103,7 +1114,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << k) & bitmask_from_width(w)) | (n >> (w - k)),
+                                    ((n << k) & bitmask_from_width(w)) | shr(n, w - k),
                                 )
                                 .unwrap(),
                             ),
@@ -1132,7 +1143,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth0,
-                                    ((n << (w - k)) & bitmask_from_width(w)) | (n >> k),
+                                    (shl(n, w - k) & bitmask_from_width(w)) | (n >> k),
                                 )
                                 .unwrap(),
                             ),
-- 
2.43.0


From b05a2535663cb9f388faed58b667832a6a251d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 12/82] fix: fold ipow with exponents of more than 32 bits
 correctly

---
 .../arithmetic/int_ops/const_fold.rs          | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index a47e12b..de99cd8 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -50,6 +50,19 @@ fn shr(n: u64, k: u64) -> u64 {
     if k < 64 { n >> k } else { 0 }
 }
 
+/// `base` to the power `exp`, modulo 2^64.
+fn wrapping_pow(mut base: u64, mut exp: u64) -> u64 {
+    let mut acc = 1u64;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            acc = acc.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    acc
+}
+
 // return q, r s.t. n = qm + r, 0 <= r < m
 fn divmod_s(n: i64, m: u64) -> (i64, u64) {
     // This is quite hairy.
@@ -570,11 +583,7 @@ pub(super) fn set_fold(op: &IntOpDef, def: &mut OpDef) {
                             Value::extension(
                                 ConstInt::new_u(
                                     logwidth,
-                                    n0.value_u()
-                                        .overflowing_pow(
-                                            n1.value_u().try_into().unwrap_or(u32::MAX),
-                                        )
-                                        .0
+                                    wrapping_pow(n0.value_u(), n1.value_u())
                                         & bitmask_from_logwidth(logwidth),
                                 )
                                 .unwrap(),
-- 
2.43.0


From 3542c1284538f2b9bcf937c8bada743cbd8d1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 13/82] fix: read pairs of constant inputs in port order

---
 hugr-core/src/ops/constant/custom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/ops/constant/custom.rs b/hugr-core/src/ops/constant/custom.rs
index ac4251b..3ea8f49 100644
--- a/hugr-core/src/ops/constant/custom.rs
+++ b/hugr-core/src/ops/constant/custom.rs
@@ -349,14 +349,15 @@ pub fn get_single_input_value<T: CustomConst>(consts: &[(IncomingPort, Value)])
     c.get_custom_value()
 }
 
-/// Given a list of two constant operations, return the values.
+/// Given a list of two constant operations, return the values in port order.
 #[must_use]
 pub fn get_pair_of_input_values<T: CustomConst>(
     consts: &[(IncomingPort, Value)],
 ) -> Option<(&T, &T)> {
-    let [(_, c0), (_, c1)] = consts else {
+    let [(p0, c0), (p1, c1)] = consts else {
         return None;
     };
+    let (c0, c1) = if p0 <= p1 { (c0, c1) } else { (c1, c0) };
     Some((c0.get_custom_value()?, c1.get_custom_value()?))
 }
 
-- 
2.43.0


From 603df1a598034a1e242618599199c0501e105fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 14/82] fix: do not fold logic.Eq when only one input is known

---
 hugr-core/src/std_extensions/logic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/std_extensions/logic.rs b/hugr-core/src/std_extensions/logic.rs
index 1e211f6..6dc8dea 100644
--- a/hugr-core/src/std_extensions/logic.rs
+++ b/hugr-core/src/std_extensions/logic.rs
@@ -43,10 +43,11 @@ impl ConstFold for LogicOp {
             }
             Self::Eq => {
                 let inps = read_inputs(consts)?;
-                let res = inps.iter().copied().reduce(|a, b| a == b)?;
-                // If we have only some inputs, we can still fold to false, but not to true
-                (!res || inps.len() as u64 == 2)
-                    .then_some(vec![(0.into(), ops::Value::from_bool(res))])
+                // Equality can only be decided once all the inputs are known.
+                let [a, b] = inps.as_slice() else {
+                    return None;
+                };
+                Some(vec![(0.into(), ops::Value::from_bool(a == b))])
             }
             Self::Not => {
                 let inps = read_inputs(consts)?;
-- 
2.43.0


From f89c3d6c3c8f1c3030439c0f7af6b893c05d0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:04 +0000
Subject: [PATCH 15/82] fix: do not fold MakeTuple when only some elements are
 known

---
 hugr-core/src/extension/prelude.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/extension/prelude.rs b/hugr-core/src/extension/prelude.rs
index e83287f..8c7fff7 100644
--- a/hugr-core/src/extension/prelude.rs
+++ b/hugr-core/src/extension/prelude.rs
@@ -618,11 +618,18 @@ pub enum TupleOpDef {
 impl ConstFold for TupleOpDef {
     fn fold(
         &self,
-        _type_args: &[TypeArg],
+        type_args: &[TypeArg],
         consts: &[(crate::IncomingPort, Value)],
     ) -> crate::extension::ConstFoldResult {
         match self {
             TupleOpDef::MakeTuple => {
+                // The tuple is only known if all of its elements are.
+                let [TypeArg::List(elems)] = type_args else {
+                    return None;
+                };
+                if consts.len() != elems.len() {
+                    return None;
+                }
                 fold_out_row([Value::tuple(sorted_consts(consts).into_iter().cloned())])
             }
             TupleOpDef::UnpackTuple => {
-- 
2.43.0


From 495f75a5e0c83e1cbe03601ecfbb09e976a9c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 16/82] fix: fold truncation of a float out of the integer
 range to an error

---
 .../arithmetic/conversions/const_fold.rs      | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
index 90615d7..6baeea9 100644
--- a/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/conversions/const_fold.rs
@@ -13,7 +13,6 @@ use crate::{
         float_types::ConstF64,
         int_types::{ConstInt, get_log_width},
     },
-    types::ConstTypeError,
 };
 
 use super::ConvertOpDef;
@@ -36,10 +35,13 @@ pub(super) fn set_fold(op: &ConvertOpDef, def: &mut OpDef) {
     }
 }
 
+const TWO_POW_63: f64 = (1u64 << 63) as f64;
+const TWO_POW_64: f64 = 2.0 * TWO_POW_63;
+
 fn fold_trunc(
     type_args: &[crate::types::TypeArg],
     consts: &[(IncomingPort, Value)],
-    convert: impl Fn(f64, u8) -> Result<Value, ConstTypeError>,
+    convert: impl Fn(f64, u8) -> Option<Value>,
 ) -> ConstFoldResult {
     let f: &ConstF64 = get_single_input_value(consts)?;
     let f = f.value();
@@ -57,7 +59,7 @@ fn fold_trunc(
     };
     let out_const: ops::Value = if f.is_finite() {
         let cv = convert(f, log_width);
-        if let Ok(cv) = cv {
+        if let Some(cv) = cv {
             const_ok(cv, error_type())
         } else {
             err_value()
@@ -78,7 +80,13 @@ impl ConstFold for TruncU {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_u(log_width, f.trunc() as u64).map(Into::into)
+            let t = f.trunc();
+            // `as` saturates, so check the range of u64 first.
+            (0.0..TWO_POW_64)
+                .contains(&t)
+                .then(|| ConstInt::new_u(log_width, t as u64).ok())
+                .flatten()
+                .map(Into::into)
         })
     }
 }
@@ -92,7 +100,13 @@ impl ConstFold for TruncS {
         consts: &[(IncomingPort, ops::Value)],
     ) -> ConstFoldResult {
         fold_trunc(type_args, consts, |f, log_width| {
-            ConstInt::new_s(log_width, f.trunc() as i64).map(Into::into)
+            let t = f.trunc();
+            // `as` saturates, so check the range of i64 first.
+            (-TWO_POW_63..TWO_POW_63)
+                .contains(&t)
+                .then(|| ConstInt::new_s(log_width, t as i64).ok())
+                .flatten()
+                .map(Into::into)
         })
     }
 }
-- 
2.43.0


From d6f429ae5008af5d1555aaa3995ecdd1ac7e6102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 17/82] fix: fold the remainder of dividing the least 64-bit
 integer correctly

---
 hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
index de99cd8..6bcbb90 100644
--- a/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
+++ b/hugr-core/src/std_extensions/arithmetic/int_ops/const_fold.rs
@@ -86,7 +86,7 @@ fn divmod_s(n: i64, m: u64) -> (i64, u64) {
         if r == 0 {
             (q, 0)
         } else {
-            (q - 1, (m_s - r) as u64)
+            (q - 1, (m_s + r) as u64)
         }
     } else {
         // n = -2^63, m >= 2^63
-- 
2.43.0


From df1dc5fee8d4985633be329f0c77a48c59d54837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 18/82] fix: instantiating pop_left/pop_right on an empty array
 no longer overflows

---
 hugr-core/src/std_extensions/collections/array/array_op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/std_extensions/collections/array/array_op.rs b/hugr-core/src/std_extensions/collections/array/array_op.rs
index 1eafb59..1c0236c 100644
--- a/hugr-core/src/std_extensions/collections/array/array_op.rs
+++ b/hugr-core/src/std_extensions/collections/array/array_op.rs
@@ -85,7 +85,7 @@ impl<AK: ArrayKind> SignatureFromArgs for GenericArrayOpDef<AK> {
                 FuncValueType::new(array_ty, vec![elem_ty_var.clone(); n as usize]),
             ),
             GenericArrayOpDef::pop_left | GenericArrayOpDef::pop_right => {
-                let popped_array_ty = AK::ty(n - 1, elem_ty_var.clone());
+                let popped_array_ty = AK::ty(n.saturating_sub(1), elem_ty_var.clone());
                 PolyFuncTypeRV::new(
                     params,
                     FuncValueType::new(
-- 
2.43.0


From 7df1f88807a01a831c2abe41eead826a6b7a1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 19/82] fix: InlineDFG only adds order edges within one region,
 and keeps those nonlocal edges need

---
 hugr-core/src/hugr/patch/inline_dfg.rs | 53 ++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_dfg.rs b/hugr-core/src/hugr/patch/inline_dfg.rs
index f5a3653..0201d36 100644
--- a/hugr-core/src/hugr/patch/inline_dfg.rs
+++ b/hugr-core/src/hugr/patch/inline_dfg.rs
@@ -73,15 +73,29 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
         };
         let parent = h.get_parent(n).unwrap();
         let [input, output] = h.get_io(n).unwrap();
-        for ch in h.children(n).skip(2).collect::<Vec<_>>() {
-            h.set_parent(ch, parent);
+        let children = h.children(n).skip(2).collect::<Vec<_>>();
+        for ch in &children {
+            h.set_parent(*ch, parent);
         }
         // DFG Inputs. Deal with Order inputs first
         for (src_n, src_p) in h.linked_outputs(n, oth_in).collect::<Vec<_>>() {
             // Order edge from src_n to DFG => add order edge to each successor of Input node
             debug_assert_eq!(Some(src_p), h.get_optype(src_n).other_output_port());
             for tgt_n in h.output_neighbours(input).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+                // The value may be used in a nested region
+                if let Some(tgt_n) = ancestor_in_region(h, tgt_n, parent) {
+                    h.add_other_edge(src_n, tgt_n);
+                }
+            }
+            // The order edge to the DFG also accounts for nonlocal edges from `src_n` into its
+            // nested regions, so the children containing those must come after `src_n`
+            for (tgt_n, _) in h.all_linked_inputs(src_n).collect::<Vec<_>>() {
+                match ancestor_in_region(h, tgt_n, parent) {
+                    Some(child) if child != tgt_n && children.contains(&child) => {
+                        h.add_other_edge(src_n, child);
+                    }
+                    _ => (),
+                }
             }
         }
         // And remaining (Value) inputs
@@ -103,15 +117,20 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
             }
             // Ensure order-successors of Input node execute after any node producing an input
-            for (tgt, _) in &input_ord_succs {
-                h.add_other_edge(src_n, *tgt);
+            // (a producer outside the region already has to precede the whole region)
+            if h.get_parent(src_n) == Some(parent) {
+                for (tgt, _) in &input_ord_succs {
+                    h.add_other_edge(src_n, *tgt);
+                }
             }
         }
         // DFG Outputs. Deal with Order outputs first.
         for (tgt_n, tgt_p) in h.linked_inputs(n, oth_out).collect::<Vec<_>>() {
             debug_assert_eq!(Some(tgt_p), h.get_optype(tgt_n).other_input_port());
             for src_n in h.input_neighbours(output).collect::<Vec<_>>() {
-                h.add_other_edge(src_n, tgt_n);
+                if h.get_parent(src_n) == Some(parent) {
+                    h.add_other_edge(src_n, tgt_n);
+                }
             }
         }
         // And remaining (Value) outputs
@@ -130,8 +149,11 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
             for (tgt_n, tgt_p) in h.linked_inputs(n, outport).collect::<Vec<_>>() {
                 h.connect(src_n, src_p, tgt_n, tgt_p);
                 // Ensure order-predecessors of Output node execute before any node consuming a DFG output
-                for (src, _) in &output_ord_preds {
-                    h.add_other_edge(*src, tgt_n);
+                // (perhaps in a nested region)
+                if let Some(tgt_n) = ancestor_in_region(h, tgt_n, parent) {
+                    for (src, _) in &output_ord_preds {
+                        h.add_other_edge(*src, tgt_n);
+                    }
                 }
             }
             h.disconnect(n, outport);
@@ -144,6 +166,21 @@ impl<N: HugrNode> PatchHugrMut for InlineDFG<N> {
     }
 }
 
+/// The ancestor of `node` (or itself) that is a child of `parent`, if any.
+fn ancestor_in_region<N: HugrNode>(
+    h: &impl HugrView<Node = N>,
+    mut node: N,
+    parent: N,
+) -> Option<N> {
+    loop {
+        let p = h.get_parent(node)?;
+        if p == parent {
+            return Some(node);
+        }
+        node = p;
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::collections::HashSet;
-- 
2.43.0


From a700e06fbd727d427487f9c8949c69035821b80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 20/82] fix: constant folding leaves wires of linear and of
 open types alone

---
 hugr-passes/src/const_fold.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 82caf3d..6c281a0 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -11,7 +11,7 @@ use hugr_core::{
     ops::{
         Const, DataflowOpTrait, ExtensionOp, LoadConstant, OpType, Value, constant::OpaqueValue,
     },
-    types::EdgeKind,
+    types::{EdgeKind, PolyFuncType, Signature, Type},
 };
 use value_handle::ValueHandle;
 
@@ -134,6 +134,14 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
             })
             .filter_map(|(n, ip)| {
                 let (src, outp) = hugr.single_linked_output(n, ip).unwrap();
+                // Taking the value from elsewhere would leave a linear output unconnected,
+                // and there are no constants of types that mention variables of a polymorphic
+                // function (even if all calls known so far instantiate them to the same types)
+                let sig = hugr.signature(n)?;
+                let ty = sig.in_port_type(ip)?;
+                if !ty.copyable() || !is_closed(ty) {
+                    return None;
+                }
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
                 // or from root input node (any "external inputs" provided will show up here
                 //   - potentially also in other places which this won't catch)
@@ -207,6 +215,13 @@ pub fn constant_fold_pass<H: HugrMut<Node = Node> + 'static>(mut h: impl AsMut<H
     validate_if_test(c, h).unwrap();
 }
 
+/// Whether a type is valid with no type variables in scope.
+fn is_closed(ty: &Type) -> bool {
+    PolyFuncType::new([], Signature::new(vec![], vec![ty.clone()]))
+        .validate()
+        .is_ok()
+}
+
 struct ConstFoldContext;
 
 impl ConstLoader<ValueHandle<Node>> for ConstFoldContext {
-- 
2.43.0


From 5547b34f85ac82e795f16608d3c3c40273aaa06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:08 +0000
Subject: [PATCH 21/82] fix: InlineCall gives the inlined body the signature of
 the call

---
 hugr-core/src/hugr/patch/inline_call.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index a4d8383..d880e0c 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -3,7 +3,7 @@
 use derive_more::{Display, Error};
 
 use crate::core::HugrNode;
-use crate::ops::{DFG, DataflowParent, OpType};
+use crate::ops::{DFG, OpType};
 use crate::types::Substitution;
 use crate::{Direction, HugrView, Node};
 
@@ -72,12 +72,8 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         h.disconnect(self.0, old_order_in); // PortGraph currently does this anyway
 
         let new_op = OpType::from(DFG {
-            signature: h
-                .get_optype(orig_func)
-                .as_func_defn()
-                .unwrap()
-                .inner_signature()
-                .into_owned(),
+            // (of the function body, with the type arguments of the call)
+            signature: h.get_optype(self.0).as_call().unwrap().instantiation.clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-- 
2.43.0


From 7b095f4b4e5eb8e76fdd977cb88c4e665179fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 22/82] fix: monomorphization leaves an entrypoint inside a
 polymorphic function alone

---
 hugr-passes/src/monomorphize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 2d5abd5..328a9ef 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -205,8 +205,11 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for MonomorphizePass {
 
     fn run(&self, h: &mut H) -> Result<(), Self::Error> {
         let root = h.entrypoint();
-        // If the root is a polymorphic function, then there are no external calls, so nothing to do
-        if !is_polymorphic_funcdefn(h.get_optype(root)) {
+        // If the root is (or is inside) a polymorphic function, then there are no external calls,
+        // so nothing to do: the type arguments of calls may mention the function's type variables
+        let in_polymorphic = std::iter::successors(Some(root), |n| h.get_parent(*n))
+            .any(|n| is_polymorphic_funcdefn(h.get_optype(n)));
+        if !in_polymorphic {
             mono_scan(h, root, None, &mut HashMap::new());
         }
         Ok(())
-- 
2.43.0


From 8ed25721435e82fc8b5ae8bc02e4117274caa2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 23/82] fix: UntuplePass handles unused results, several other
 users of a tuple, and polymorphic functions

---
 hugr-passes/src/untuple.rs | 69 ++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 27a1f1f..9c02b5f 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -2,15 +2,17 @@
 
 use std::collections::VecDeque;
 
-use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
+#[cfg(test)]
+use hugr_core::builder::DFGBuilder;
+use hugr_core::builder::{Dataflow, DataflowHugr, FunctionBuilder};
 use hugr_core::extension::prelude::{MakeTuple, UnpackTuple};
 use hugr_core::hugr::SimpleReplacementError;
 use hugr_core::hugr::hugrmut::HugrMut;
 use hugr_core::hugr::views::SiblingSubgraph;
 use hugr_core::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr_core::ops::{OpTrait, OpType};
-use hugr_core::types::Type;
-use hugr_core::{HugrView, Node, SimpleReplacement};
+use hugr_core::types::{PolyFuncType, Type};
+use hugr_core::{HugrView, Node, PortIndex, SimpleReplacement};
 use itertools::Itertools;
 
 use crate::ComposablePass;
@@ -188,29 +190,27 @@ fn make_rewrite<'h, T: HugrView>(
     }
 
     // Remove all unpack operations, and remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
+    let has_other_links = links.len() > unpack_nodes.len();
     Some(remove_pack_unpack(
         hugr,
         convex_checker,
         &tuple_types,
         node,
         unpack_nodes,
-        num_other_outputs,
+        has_other_links,
     ))
 }
 
 /// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// and perhaps other operations (if `has_other_links`).
 fn remove_pack_unpack<'h, T: HugrView>(
     hugr: &'h T,
     convex_checker: &mut Option<TopoConvexChecker<'h, T>>,
     tuple_types: &[Type],
     pack_node: T::Node,
     unpack_nodes: Vec<T::Node>,
-    num_other_outputs: usize,
+    has_other_links: bool,
 ) -> SimpleReplacement<T::Node> {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let parent = hugr.get_parent(pack_node).expect("pack_node has no parent");
     let checker = convex_checker.get_or_insert_with(|| TopoConvexChecker::new(hugr, parent));
 
@@ -219,38 +219,35 @@ fn remove_pack_unpack<'h, T: HugrView>(
     let subcirc = SiblingSubgraph::try_from_nodes_with_checker(nodes, hugr, checker).unwrap();
     let subcirc_signature = subcirc.signature(hugr);
 
-    // The output port order in `SiblingSubgraph::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
-                .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
-
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
+    // The types may mention the type variables of the enclosing function.
+    let type_params = std::iter::successors(Some(parent), |n| hugr.get_parent(*n))
+        .find_map(|n| Some(hugr.get_optype(n).as_func_defn()?.signature().params().to_vec()))
+        .unwrap_or_default();
+    let mut replacement =
+        FunctionBuilder::new("", PolyFuncType::new(type_params, subcirc_signature)).unwrap();
+
+    // If needed, re-add the tuple pack node.
+    let tuple = if has_other_links {
         let op = MakeTuple::new(tuple_types.to_vec().into());
         let [tuple] = replacement
             .add_dataflow_op(op, replacement.input_wires())
             .unwrap()
             .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs));
-    }
+        Some(tuple)
+    } else {
+        None
+    };
+    // The boundary has one output for each *used* port of the nodes.
+    // Wire the inputs directly to the unpack outputs, and the tuple to any other users.
+    let inputs = replacement.input_wires().collect_vec();
+    let outputs = subcirc
+        .outgoing_ports()
+        .iter()
+        .map(|&(node, port)| match tuple {
+            Some(tuple) if node == pack_node => tuple,
+            _ => inputs[port.index()],
+        })
+        .collect_vec();
 
     // These should never fail, as we are defining the replacement ourselves.
     let replacement = replacement
-- 
2.43.0


From 4aca258aa563f65941f3b1fcf92b036aefad9874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:27 +0000
Subject: [PATCH 24/82] fix: LocalizeEdges keeps track of shifted ports, order
 of cases, and polymorphic and unreachable regions

---
 hugr-core/src/hugr/patch/inline_call.rs |   7 +-
 hugr-passes/src/non_local.rs            |   8 +-
 hugr-passes/src/non_local/localize.rs   | 176 +++++++++++++++---------
 hugr-passes/src/untuple.rs              |  10 +-
 4 files changed, 128 insertions(+), 73 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index d880e0c..339cf8f 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -73,7 +73,12 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
 
         let new_op = OpType::from(DFG {
             // (of the function body, with the type arguments of the call)
-            signature: h.get_optype(self.0).as_call().unwrap().instantiation.clone(),
+            signature: h
+                .get_optype(self.0)
+                .as_call()
+                .unwrap()
+                .instantiation
+                .clone(),
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
diff --git a/hugr-passes/src/non_local.rs b/hugr-passes/src/non_local.rs
index c8f5e85..8520256 100644
--- a/hugr-passes/src/non_local.rs
+++ b/hugr-passes/src/non_local.rs
@@ -108,13 +108,9 @@ pub fn remove_nonlocal_edges<H: HugrMut>(hugr: &mut H) -> Result<(), LocalizeEdg
         bnsm
     };
 
+    // (Ancestors need the source too, except of blocks not reachable from the entry of their CFG)
     debug_assert!(nonlocal_edges.iter().all(|(n, (source, _))| {
-        let source_parent = hugr.get_parent(source.node()).unwrap();
-        let source_gp = hugr.get_parent(source_parent);
-        ancestors(*n, hugr)
-            .skip(1)
-            .take_while(|&a| a != source_parent && source_gp.is_none_or(|gp| a != gp))
-            .all(|parent| needs_sources_map.parent_needs(parent, *source))
+        needs_sources_map.parent_needs(hugr.get_parent(*n).unwrap(), *source)
     }));
 
     needs_sources_map.thread_hugr(hugr);
diff --git a/hugr-passes/src/non_local/localize.rs b/hugr-passes/src/non_local/localize.rs
index 15f5ded..fc6be9f 100644
--- a/hugr-passes/src/non_local/localize.rs
+++ b/hugr-passes/src/non_local/localize.rs
@@ -4,16 +4,20 @@ use std::collections::{BTreeMap, HashMap};
 
 use hugr_core::{
     Direction, HugrView, IncomingPort, Wire,
-    builder::{ConditionalBuilder, Dataflow, DataflowSubContainer, HugrBuilder},
     core::HugrNode,
     hugr::hugrmut::HugrMut,
-    ops::{DataflowOpTrait, OpType, Tag, TailLoop},
-    types::{EdgeKind, Type, TypeRow},
+    ops::{
+        Case, Conditional, DataflowOpTrait, Input, OpType, Output, Tag, TailLoop, dataflow::IOTrait,
+    },
+    types::{EdgeKind, Signature, Type, TypeRow},
 };
 use itertools::Itertools as _;
 
 use super::just_types;
 
+/// For each non-local edge, the source it had before any ports were added
+type OrigSources<N> = HashMap<(N, IncomingPort), Wire<N>>;
+
 #[derive(Debug, Clone)]
 // For each parent/container node, a map from the source Wires that need to be added
 // as extra inputs to that container, to the Type of each.
@@ -86,20 +90,34 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
 
     /// Threads the extra connections required throughout the Hugr
     pub(super) fn thread_hugr(&self, hugr: &mut impl HugrMut<Node = N>) {
-        self.thread_node(hugr, hugr.entrypoint(), &HashMap::new())
+        // Adding ports changes the indices of others, so look up edges by their original sources
+        let orig_sources = super::nonlocal_edges(hugr)
+            .map(|(node, inport)| {
+                let (src, outport) = hugr.single_linked_output(node, inport).unwrap();
+                ((node, inport), Wire::new(src, outport))
+            })
+            .collect();
+        self.thread_node(hugr, hugr.entrypoint(), &HashMap::new(), &orig_sources)
     }
 
-    // keys of `locals` are the *original* sources of the non-local edges, in self.0.
+    // keys of `locals` (and values of `orig_sources`) are the *original* sources
+    // of the non-local edges, in self.0.
     fn thread_node(
         &self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         locals: &HashMap<Wire<N>, Wire<N>>,
+        orig_sources: &OrigSources<N>,
     ) {
         if self.get(node).next().is_none() {
             // No edges incoming into this subtree, but there could still be nonlocal edges internal to it
-            for ch in hugr.children(node).collect::<Vec<_>>() {
-                self.thread_node(hugr, ch, &HashMap::new())
+            if hugr.get_optype(node).is_cfg() {
+                // ...perhaps between the blocks
+                self.thread_blocks(hugr, node, orig_sources);
+            } else {
+                for ch in hugr.children(node).collect::<Vec<_>>() {
+                    self.thread_node(hugr, ch, &HashMap::new(), orig_sources)
+                }
             }
             return;
         }
@@ -114,19 +132,25 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                 let start_new_port_index = ins.len();
                 ins.extend(just_types(&sources));
 
-                self.thread_dataflow_parent(hugr, node, start_new_port_index, sources);
+                self.thread_dataflow_parent(
+                    hugr,
+                    node,
+                    start_new_port_index,
+                    sources,
+                    orig_sources,
+                );
                 start_new_port_index
             }
             OpType::Conditional(cond) => {
                 let start_new_port_index = cond.signature().input.len();
                 cond.other_inputs.to_mut().extend(just_types(&sources));
 
-                self.thread_conditional(hugr, node, sources);
+                self.thread_conditional(hugr, node, sources, orig_sources);
                 start_new_port_index
             }
             OpType::TailLoop(tail_op) => {
                 vec_prepend(tail_op.just_inputs.to_mut(), just_types(&sources));
-                self.thread_tailloop(hugr, node, sources);
+                self.thread_tailloop(hugr, node, sources, orig_sources);
                 0
             }
             OpType::CFG(cfg) => {
@@ -136,11 +160,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
                     self.get(hugr.children(node).next().unwrap())
                         .collect::<Vec<_>>()
                 ); // Entry node
-                for bb in hugr.children(node).collect::<Vec<_>>() {
-                    if hugr.get_optype(bb).is_dataflow_block() {
-                        self.thread_bb(hugr, bb);
-                    }
-                }
+                self.thread_blocks(hugr, node, orig_sources);
                 0
             }
             _ => panic!(
@@ -161,13 +181,29 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         }
     }
 
+    // Add to all the basic blocks of a CFG; assume CFG itself already updated.
+    fn thread_blocks(
+        &self,
+        hugr: &mut impl HugrMut<Node = N>,
+        cfg: N,
+        orig_sources: &OrigSources<N>,
+    ) {
+        for bb in hugr.children(cfg).collect::<Vec<_>>() {
+            if hugr.get_optype(bb).is_dataflow_block() {
+                self.thread_bb(hugr, bb, orig_sources);
+            }
+        }
+    }
+
     // Add to Input node; assume container type already updated.
+    // Returns where to find each of the `srcs` and each (original) output of the Input node.
     fn thread_dataflow_parent(
         &self,
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         start_new_port_index: usize,
         srcs: Vec<(Wire<N>, Type)>,
+        orig_sources: &OrigSources<N>,
     ) -> HashMap<Wire<N>, Wire<N>> {
         let nlocals = if srcs.is_empty() {
             HashMap::new()
@@ -177,26 +213,27 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             let OpType::Input(in_op) = hugr.optype_mut(inp) else {
                 panic!("Expected Input node")
             };
+            let shifted_ports = start_new_port_index..in_op.types.len();
             vec_insert(in_op.types.to_mut(), tys, start_new_port_index);
+            let num_new = srcs.len();
             let new_outports =
-                hugr.insert_ports(inp, Direction::Outgoing, start_new_port_index, srcs.len());
+                hugr.insert_ports(inp, Direction::Outgoing, start_new_port_index, num_new);
 
             srcs.into_iter()
                 .zip_eq(new_outports)
                 .map(|(w, p)| (w, Wire::new(inp, p)))
+                .chain(shifted_ports.map(|i| (Wire::new(inp, i), Wire::new(inp, i + num_new))))
                 .collect()
         };
         for ch in hugr.children(node).collect::<Vec<_>>() {
             for (inp, _) in hugr.in_value_types(ch).collect::<Vec<_>>() {
-                if let Some((src_n, src_p)) = hugr.single_linked_output(ch, inp) {
-                    if hugr.get_parent(src_n) != Some(node) {
-                        hugr.disconnect(ch, inp);
-                        let new_p = nlocals.get(&Wire::new(src_n, src_p)).unwrap();
-                        hugr.connect(new_p.node(), new_p.source(), ch, inp);
-                    }
+                if let Some(orig_source) = orig_sources.get(&(ch, inp)) {
+                    hugr.disconnect(ch, inp);
+                    let new_p = nlocals.get(orig_source).unwrap();
+                    hugr.connect(new_p.node(), new_p.source(), ch, inp);
                 }
             }
-            self.thread_node(hugr, ch, &nlocals);
+            self.thread_node(hugr, ch, &nlocals, orig_sources);
         }
         nlocals
     }
@@ -207,6 +244,7 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
+        orig_sources: &OrigSources<N>,
     ) {
         for case in hugr.children(node).collect::<Vec<_>>() {
             let OpType::Case(case_op) = hugr.optype_mut(case) else {
@@ -215,7 +253,13 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
             let ins = case_op.signature.input.to_mut();
             let start_case_port_index = ins.len();
             ins.extend(just_types(&srcs));
-            self.thread_dataflow_parent(hugr, case, start_case_port_index, srcs.clone());
+            self.thread_dataflow_parent(
+                hugr,
+                case,
+                start_case_port_index,
+                srcs.clone(),
+                orig_sources,
+            );
         }
     }
 
@@ -225,39 +269,37 @@ impl<N: HugrNode> ExtraSourceReqs<N> {
         hugr: &mut impl HugrMut<Node = N>,
         node: N,
         srcs: Vec<(Wire<N>, Type)>,
+        orig_sources: &OrigSources<N>,
     ) {
         let [_, o] = hugr.get_io(node).unwrap();
+        let locals = self.thread_dataflow_parent(hugr, node, 0, srcs.clone(), orig_sources);
         let new_sum_row_prefixes = {
             let mut v = vec![vec![]; 2];
-            v[TailLoop::CONTINUE_TAG] = srcs.clone();
+            v[TailLoop::CONTINUE_TAG] = srcs.into_iter().map(|(w, ty)| (locals[&w], ty)).collect();
             v
         };
         add_control_prefixes(hugr, o, new_sum_row_prefixes);
-        self.thread_dataflow_parent(hugr, node, 0, srcs);
     }
 
     // Add to DataflowBlock *and* inner dataflow sibling subgraph
-    fn thread_bb(&self, hugr: &mut impl HugrMut<Node = N>, node: N) {
+    fn thread_bb(&self, hugr: &mut impl HugrMut<Node = N>, node: N, orig_sources: &OrigSources<N>) {
         let OpType::DataflowBlock(this_dfb) = hugr.optype_mut(node) else {
             panic!("Expected dataflow block")
         };
         let my_inputs: Vec<_> = self.get(node).map(|(w, t)| (*w, t.clone())).collect();
         vec_prepend(this_dfb.inputs.to_mut(), just_types(&my_inputs));
-        let locals = self.thread_dataflow_parent(hugr, node, 0, my_inputs);
+        let locals = self.thread_dataflow_parent(hugr, node, 0, my_inputs, orig_sources);
         let variant_source_prefixes: Vec<Vec<(Wire<N>, Type)>> = hugr
             .output_neighbours(node)
             .map(|succ| {
                 // The wires required for each successor block, should be available in the predecessor
                 self.get(succ)
                     .map(|(w, ty)| {
-                        (
-                            if hugr.get_parent(w.node()) == Some(node) {
-                                *w
-                            } else {
-                                *locals.get(w).unwrap()
-                            },
-                            ty.clone(),
-                        )
+                        let local = locals.get(w).copied().unwrap_or_else(|| {
+                            debug_assert_eq!(hugr.get_parent(w.node()), Some(node));
+                            *w
+                        });
+                        (local, ty.clone())
                     })
                     .collect()
             })
@@ -286,7 +328,7 @@ fn add_control_prefixes<H: HugrMut>(
     debug_assert!(hugr.get_optype(output_node).is_output()); // Just to fail fast
     let parent = hugr.get_parent(output_node).unwrap();
     let mut needed_sources = BTreeMap::new();
-    let (cond, new_control_type) = {
+    let (cond_node, new_control_type) = {
         let Some(EdgeKind::Value(control_type)) = hugr
             .get_optype(output_node)
             .port_kind(IncomingPort::from(0))
@@ -320,39 +362,43 @@ fn add_control_prefixes<H: HugrMut>(
                 .collect_vec();
 
         let new_control_type = Type::new_sum(new_sum_rows.clone());
-        let mut cond = ConditionalBuilder::new(
-            old_sum_rows.clone(),
-            just_types(needed_sources.values()).collect_vec(),
-            new_control_type.clone(),
-        )
-        .unwrap();
+        // (Not using a builder: the types may mention variables of the enclosing function)
+        let other_inputs = just_types(needed_sources.values()).collect_vec();
+        let cond_node = hugr.add_node_with_parent(
+            parent,
+            Conditional {
+                sum_rows: old_sum_rows.clone(),
+                other_inputs: other_inputs.clone().into(),
+                outputs: new_control_type.clone().into(),
+            },
+        );
         for (i, new_sources) in variant_source_prefixes.into_iter().enumerate() {
-            let mut case = cond.case_builder(i).unwrap();
-            let case_inputs = case.input_wires().collect_vec();
-            let mut args = new_sources
-                .into_iter()
-                .map(|(s, _ty)| {
-                    case_inputs[old_sum_rows[i].len()
-                        + needed_sources
-                            .iter()
-                            .find_position(|(w, _)| **w == s)
-                            .unwrap()
-                            .0]
-                })
-                .collect_vec();
-            args.extend(&case_inputs[..old_sum_rows[i].len()]);
-            let case_outputs = case
-                .add_dataflow_op(Tag::new(i, new_sum_rows.clone()), args)
-                .unwrap()
-                .outputs();
-            case.finish_with_outputs(case_outputs).unwrap();
+            let num_old = old_sum_rows[i].len();
+            let inputs = old_sum_rows[i].iter().chain(&other_inputs).cloned();
+            let signature = Signature::new(inputs.collect_vec(), new_control_type.clone());
+            let input = Input::new(signature.input.clone());
+            let output = Output::new(signature.output.clone());
+            let case = hugr.add_node_with_parent(cond_node, Case { signature });
+            let input = hugr.add_node_with_parent(case, input);
+            let output = hugr.add_node_with_parent(case, output);
+            let tag = hugr.add_node_with_parent(case, Tag::new(i, new_sum_rows.clone()));
+            let new_args = new_sources.into_iter().map(|(s, _ty)| {
+                num_old
+                    + needed_sources
+                        .iter()
+                        .find_position(|(w, _)| **w == s)
+                        .unwrap()
+                        .0
+            });
+            for (p, arg) in new_args.chain(0..num_old).enumerate() {
+                hugr.connect(input, arg, tag, p);
+            }
+            hugr.connect(tag, 0, output, 0);
         }
-        (cond.finish_hugr().unwrap(), new_control_type)
+        (cond_node, new_control_type)
     };
-    let cond_node = hugr.insert_hugr(parent, cond).inserted_entrypoint;
     let (old_output_source_node, old_output_source_port) =
         hugr.single_linked_output(output_node, 0).unwrap();
-    debug_assert_eq!(hugr.get_parent(old_output_source_node).unwrap(), parent);
     hugr.connect(old_output_source_node, old_output_source_port, cond_node, 0);
     for (i, &(w, _)) in needed_sources.values().enumerate() {
         hugr.connect(w.node(), w.source(), cond_node, i + 1);
diff --git a/hugr-passes/src/untuple.rs b/hugr-passes/src/untuple.rs
index 9c02b5f..4ade312 100644
--- a/hugr-passes/src/untuple.rs
+++ b/hugr-passes/src/untuple.rs
@@ -221,7 +221,15 @@ fn remove_pack_unpack<'h, T: HugrView>(
 
     // The types may mention the type variables of the enclosing function.
     let type_params = std::iter::successors(Some(parent), |n| hugr.get_parent(*n))
-        .find_map(|n| Some(hugr.get_optype(n).as_func_defn()?.signature().params().to_vec()))
+        .find_map(|n| {
+            Some(
+                hugr.get_optype(n)
+                    .as_func_defn()?
+                    .signature()
+                    .params()
+                    .to_vec(),
+            )
+        })
         .unwrap_or_default();
     let mut replacement =
         FunctionBuilder::new("", PolyFuncType::new(type_params, subcirc_signature)).unwrap();
-- 
2.43.0


From d03c1112c337094f855014477a0bd702ddd6775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 25/82] fix: CFG normalization keeps output wires and required
 order edges, and handles unreachable blocks

---
 hugr-passes/src/normalize_cfgs.rs | 65 +++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/hugr-passes/src/normalize_cfgs.rs b/hugr-passes/src/normalize_cfgs.rs
index 20d2494..8441827 100644
--- a/hugr-passes/src/normalize_cfgs.rs
+++ b/hugr-passes/src/normalize_cfgs.rs
@@ -42,8 +42,8 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
         let Ok(succ) = cfg.output_neighbours(n).exactly_one() else {
             continue;
         };
-        if cfg.input_neighbours(succ).count() != 1 {
-            continue;
+        if succ == n || cfg.input_neighbours(succ).count() != 1 {
+            continue; // (n may be an unreachable block that loops to itself)
         }
         if cfg.children(cfg.entrypoint()).take(2).contains(&succ) {
             // If succ is...
@@ -59,6 +59,11 @@ pub fn merge_basic_blocks<H: HugrMut>(cfg: &mut H) -> Result<usize, NormalizeCFG
             let n_id = *node_map.get(&dfg_id).unwrap();
             cfg.apply_patch(InlineDFG(n_id.into())).unwrap();
         }
+        // `Dom` edges into containers in `succ` are now `Ext` edges, so require an Order edge
+        for ch in cfg.children(merged_bb).collect::<Vec<_>>() {
+            add_ext_order_edges(cfg, ch);
+        }
+        worklist.retain(|m| *m != succ); // Removed (the index may even be in use again)
         worklist.push(merged_bb);
     }
     Ok(num_merged)
@@ -247,6 +252,11 @@ pub fn normalize_cfg<H: HugrMut>(
         unpack_before_output(h, entry_output, new_cfg_inputs.clone());
 
         // Inputs to CFG go directly to DFG
+        let order_port = h.get_optype(cfg_node).other_input_port();
+        let order_srcs = order_port
+            .into_iter()
+            .flat_map(|p| h.linked_outputs(cfg_node, p).collect::<Vec<_>>())
+            .collect::<Vec<_>>();
         for inp in h.node_inputs(cfg_node).collect::<Vec<_>>() {
             for src in h.linked_outputs(cfg_node, inp).collect::<Vec<_>>() {
                 h.connect(src.0, src.1, dfg, inp.index());
@@ -260,6 +270,11 @@ pub fn normalize_cfg<H: HugrMut>(
         cfg_ty.signature.input = new_cfg_inputs;
         h.add_ports(cfg_node, Direction::Incoming, inputs_to_add);
 
+        // The remaining blocks must still come after (and may have `Ext` edges from) the same nodes
+        for (src, _) in order_srcs {
+            h.add_other_edge(src, cfg_node);
+        }
+
         // Wire outputs of DFG directly to CFG
         for src in h.node_outputs(dfg).collect::<Vec<_>>() {
             h.connect(dfg, src, cfg_node, src.index());
@@ -276,8 +291,13 @@ pub fn normalize_cfg<H: HugrMut>(
     let mut exit_dfg = None;
     if let Some(pred) = h.input_neighbours(exit).exactly_one().ok().filter(|pred| {
         // Allow only if there are no `Dom` edges into `pred`. (Ignore `Ext` edges.)
-        let src_nodes = h.children(*pred).flat_map(|ch| h.input_neighbours(ch));
-        h.output_neighbours(*pred).count() == 1
+        let src_nodes = h
+            .descendants(*pred)
+            .skip(1)
+            .flat_map(|n| h.input_neighbours(n));
+        // (The entry block may be `pred` only if there are edges to it from unreachable blocks.)
+        h.children(cfg_node).next() != Some(*pred)
+            && h.output_neighbours(*pred).count() == 1
             && src_nodes.dedup().all(|src| {
                 ancestor_block(h, src).is_none_or(|src| src == *pred) // Nones are `Ext` edges.
             })
@@ -291,6 +311,14 @@ pub fn normalize_cfg<H: HugrMut>(
         // new CFG result type and exit block
         let cfg_ty = cfg_ty_mut(h, cfg_node);
         let result_tys = std::mem::replace(&mut cfg_ty.signature.output, new_cfg_outs.clone());
+        // Disconnect all outputs before changing the number of ports
+        let output_edges = h
+            .node_outputs(cfg_node)
+            .map(|p| (p, h.linked_inputs(cfg_node, p).collect_vec()))
+            .collect_vec();
+        for (p, _) in &output_edges {
+            h.disconnect(cfg_node, *p);
+        }
         h.add_ports(
             cfg_node,
             Direction::Outgoing,
@@ -319,9 +347,7 @@ pub fn normalize_cfg<H: HugrMut>(
         unpack_before_output(h, output, result_tys);
 
         // Move output edges.
-        for p in h.node_outputs(cfg_node).collect_vec() {
-            let tgts = h.linked_inputs(cfg_node, p).collect_vec();
-            h.disconnect(cfg_node, p);
+        for (p, tgts) in output_edges {
             for tgt in tgts {
                 h.connect(dfg, p, tgt.0, tgt.1)
             }
@@ -329,6 +355,8 @@ pub fn normalize_cfg<H: HugrMut>(
         for p in h.node_inputs(dfg).collect_vec() {
             h.connect(cfg_node, p.index(), dfg, p);
         }
+        // `Ext` edges into the DFG from siblings of the CFG require an Order edge
+        add_ext_order_edges(h, dfg);
         exit_dfg = Some(dfg);
     }
     Ok(NormalizeCFGResult::CFGPreserved {
@@ -338,6 +366,29 @@ pub fn normalize_cfg<H: HugrMut>(
     })
 }
 
+/// Ensure there are Order edges to `container` from all those of its siblings
+/// that have `Ext` edges to strict descendants of it.
+fn add_ext_order_edges<H: HugrMut>(h: &mut H, container: H::Node) {
+    let Some(parent) = h.get_parent(container) else {
+        return;
+    };
+    let mut srcs = h
+        .descendants(container)
+        .skip(1)
+        .flat_map(|n| h.in_value_types(n).map(move |(p, _)| (n, p)))
+        .filter_map(|(n, p)| h.single_linked_output(n, p))
+        .map(|(src, _)| src)
+        .filter(|src| h.get_parent(*src) == Some(parent))
+        .unique()
+        .collect_vec();
+    if let Some(p) = h.get_optype(container).other_input_port() {
+        srcs.retain(|src| !h.linked_outputs(container, p).any(|(s, _)| s == *src));
+    }
+    for src in srcs {
+        h.add_other_edge(src, container);
+    }
+}
+
 fn mk_rep<H: HugrView>(
     cfg: &H,
     pred: H::Node,
-- 
2.43.0


From edff6467ca27541cab45f55e7f0da598989ed3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 26/82] fix: CFG nesting handles loops, parallel edges,
 unreachable blocks and edges that cannot be nested

---
 hugr-core/src/hugr/patch/outline_cfg.rs | 19 +++++++
 hugr-passes/src/nest_cfgs.rs            | 71 ++++++++++++++++++++++---
 2 files changed, 84 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/hugr/patch/outline_cfg.rs b/hugr-core/src/hugr/patch/outline_cfg.rs
index 081ba24..d39ffc8 100644
--- a/hugr-core/src/hugr/patch/outline_cfg.rs
+++ b/hugr-core/src/hugr/patch/outline_cfg.rs
@@ -67,6 +67,19 @@ impl OutlineCfg {
                     }
                 }
             }
+            if let OpType::ExitBlock(_) = h.get_optype(n) {
+                return Err(OutlineCfgError::ExitBlock(n));
+            }
+            // Nodes in the new CFG cannot have edges to blocks outside it
+            for ch in h.children(n) {
+                for tgt in h.output_neighbours(ch) {
+                    let tgt_block = std::iter::successors(Some(tgt), |a| h.get_parent(*a))
+                        .find(|a| h.get_parent(*a) == Some(cfg_n));
+                    if tgt_block.is_some_and(|b| !self.blocks.contains(&b)) {
+                        return Err(OutlineCfgError::DomEdge(ch, tgt));
+                    }
+                }
+            }
             let external_succs = h.output_neighbours(n).filter(|s| !self.blocks.contains(s));
             match external_succs.at_most_one() {
                 Ok(None) => (), // No external successors
@@ -232,6 +245,12 @@ pub enum OutlineCfgError {
     /// No block was found with an edge leaving the set (so, must be an infinite loop)
     #[error("No block had a successor outside the set")]
     NoExitNode,
+    /// The exit block of the CFG was in the set
+    #[error("{0} is the exit block of the CFG")]
+    ExitBlock(Node),
+    /// A nonlocal edge leaves the set
+    #[error("There is a nonlocal edge from {0} inside the set to {1} outside it")]
+    DomEdge(Node, Node),
 }
 
 #[cfg(test)]
diff --git a/hugr-passes/src/nest_cfgs.rs b/hugr-passes/src/nest_cfgs.rs
index 7f456f8..aa451d9 100644
--- a/hugr-passes/src/nest_cfgs.rs
+++ b/hugr-passes/src/nest_cfgs.rs
@@ -46,7 +46,7 @@ use thiserror::Error;
 
 use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
 use hugr_core::hugr::views::HugrView;
-use hugr_core::hugr::{Patch, hugrmut::HugrMut};
+use hugr_core::hugr::{Patch, hugrmut::HugrMut, patch::PatchVerification};
 use hugr_core::ops::OpTag;
 use hugr_core::ops::OpTrait;
 use hugr_core::{Direction, Hugr, Node};
@@ -81,6 +81,19 @@ pub trait CfgNester<T>: CfgNodeMap<T> {
     /// # Panics
     /// May panic if the two edges do not constitute a SESE region.
     fn nest_sese_region(&mut self, entry_edge: (T, T), exit_edge: (T, T)) -> T;
+
+    /// Whether the region between two cycle-equivalent edges can be nested
+    /// (via [Self::nest_sese_region]). If not, it is left as it is.
+    ///
+    /// The default is to check there are no other edges in or out, which
+    /// blocks not on any path from the entry to the exit may have.
+    fn can_nest_sese_region(&self, entry_edge: (T, T), exit_edge: (T, T)) -> bool
+    where
+        Self: Sized,
+        T: Copy + Eq + Hash + std::fmt::Debug,
+    {
+        is_closed_region(self, entry_edge, exit_edge)
+    }
 }
 
 /// Transforms a CFG into as much-nested a form as possible.
@@ -111,6 +124,7 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
             }
             let (exit, rest): (Vec<_>, Vec<_>) = view
                 .successors(n)
+                .unique() // There may be several branches to the same successor
                 .map(|s| (n, s))
                 .partition(|e| stop_at.is_some() && edge_classes.get(e).copied() == stop_at);
             exit_edges.extend(exit.into_iter().at_most_one().unwrap());
@@ -127,7 +141,9 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
                         assert!(rem_edges.get_mut(cls).unwrap().remove(&e));
                         // Skip trivial regions of a single node, unless the node has other edges
                         // (non-exiting, but e.g. a backedge to a loop header, ending that loop)
-                        if prev_e.1 != e.0 || view.successors(e.0).count() > 1 {
+                        if (prev_e.1 != e.0 || view.successors(e.0).count() > 1)
+                            && view.can_nest_sese_region(prev_e, e)
+                        {
                             // Traversal and nesting of the subregion's *contents* were completed in the
                             // recursive call above, so only processed nodes are moved into descendant CFGs
                             e = (view.nest_sese_region(prev_e, e), e.1);
@@ -145,6 +161,23 @@ pub fn transform_cfg_to_nested<T: Copy + Eq + Hash + std::fmt::Debug>(
     // and thus convert CF dependencies into (parallelizable) dataflow.
 }
 
+/// Checks there are no other edges, either in or out, between the region bounded by two
+/// (cycle-equivalent) edges and the rest of the CFG. (There may be some from/to blocks that
+/// are not on any path from the entry to the exit, as these do not affect cycle equivalence.)
+fn is_closed_region<T: Copy + Eq + Hash + std::fmt::Debug>(
+    v: &impl CfgNodeMap<T>,
+    entry_edge: (T, T),
+    exit_edge: (T, T),
+) -> bool {
+    region_blocks(v, entry_edge, exit_edge).is_ok_and(|blocks| {
+        !blocks.contains(&exit_edge.1)
+            && blocks
+                .iter()
+                .filter(|b| **b != entry_edge.1)
+                .all(|b| *b != v.entry_node() && v.predecessors(*b).all(|p| blocks.contains(&p)))
+    })
+}
+
 /// Search the entire Hugr looking for CFGs, and transform each
 /// into as deeply-nested form as possible (as per [`transform_cfg_to_nested`]).
 ///
@@ -194,6 +227,7 @@ fn all_edges<'a, T: Copy + Clone + PartialEq + Eq + Hash + 'a>(
         .chain(extra)
         .map(EdgeDest::Forward)
         .chain(cfg.predecessors(n).map(EdgeDest::Backward))
+        .filter(move |d| d.target() != n) // An edge to the same node is in no other cycle
         .unique()
 }
 
@@ -271,6 +305,16 @@ impl<H: HugrMut<Node = Node>> CfgNester<H::Node> for IdentityCfgMap<H> {
         );
         new_block
     }
+
+    fn can_nest_sese_region(
+        &self,
+        entry_edge: (H::Node, H::Node),
+        exit_edge: (H::Node, H::Node),
+    ) -> bool {
+        is_closed_region(self, entry_edge, exit_edge)
+            && region_blocks(self, entry_edge, exit_edge)
+                .is_ok_and(|blocks| OutlineCfg::new(blocks).verify(&self.h).is_ok())
+    }
 }
 
 /// An error trying to get the blocks of a SESE (single-entry-single-exit) region
@@ -355,13 +399,21 @@ struct UndirectedDFSTree<T> {
 
 impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
     fn new(cfg: &impl CfgNodeMap<T>) -> Self {
-        //1. Traverse backwards-only from exit building bitset of reachable nodes
+        //1. Find nodes on a path from the entry to the exit:
+        //   traverse forwards-only from entry, then backwards-only from exit among those.
+        let mut from_entry = HashSet::new();
         let mut reachable = HashSet::new();
         {
             let mut pending = VecDeque::new();
+            pending.push_back(cfg.entry_node());
+            while let Some(n) = pending.pop_front() {
+                if from_entry.insert(n) {
+                    pending.extend(cfg.successors(n));
+                }
+            }
             pending.push_back(cfg.exit_node());
             while let Some(n) = pending.pop_front() {
-                if reachable.insert(n) {
+                if from_entry.contains(&n) && reachable.insert(n) {
                     pending.extend(cfg.predecessors(n));
                 }
             }
@@ -381,7 +433,7 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> UndirectedDFSTree<T> {
                     }
                 }
             }
-            dfs_parents.remove(&cfg.entry_node()).unwrap();
+            dfs_parents.remove(&cfg.entry_node()); // None if there is no path to the exit
         }
         UndirectedDFSTree {
             dfs_num,
@@ -445,7 +497,8 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> BracketList<T> {
     }
 
     pub fn push(&mut self, e: Bracket<T>) {
-        self.items.push_back(e);
+        // Most recent first: lists of the same size are then equal iff `tag`s are
+        self.items.push_front(e);
         self.size += 1;
     }
 }
@@ -474,9 +527,15 @@ impl<T: Copy + Clone + PartialEq + Eq + Hash> EdgeClassifier<T> {
             capping_edges: HashMap::new(),
             edge_classes: HashMap::new(),
         };
+        if !tree.dfs_num.contains_key(&cfg.entry_node()) {
+            return HashMap::new(); // No path from entry to exit
+        }
         s.traverse(cfg, &tree, cfg.entry_node());
         assert!(s.capping_edges.is_empty());
         s.edge_classes.remove(&(cfg.exit_node(), cfg.entry_node()));
+        // Several edges between the same nodes are not equivalent to any others
+        s.edge_classes
+            .retain(|(src, tgt), _| cfg.successors(*src).filter(|n| n == tgt).count() == 1);
         let mut cycle_class_idxs = HashMap::new();
         s.edge_classes
             .into_iter()
-- 
2.43.0


From 0b12c6f7ab1a4a0b68ad8d54097be44dad81c4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 27/82] fix: RemoveDeadFuncs keeps what the function around the
 entrypoint uses

---
 hugr-passes/src/dead_funcs.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hugr-passes/src/dead_funcs.rs b/hugr-passes/src/dead_funcs.rs
index a77c19f..630a8f7 100644
--- a/hugr-passes/src/dead_funcs.rs
+++ b/hugr-passes/src/dead_funcs.rs
@@ -85,17 +85,18 @@ impl<H: HugrMut<Node = Node>> ComposablePass<H> for RemoveDeadFuncsPass {
             entry_points.push(hugr.entrypoint())
         }
 
-        let mut reachable =
-            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
-        // Also prevent removing the entrypoint itself
+        // Also prevent removing the function containing the entrypoint, or anything that uses
         let mut n = Some(hugr.entrypoint());
         while let Some(n2) = n {
             n = hugr.get_parent(n2);
-            if n == Some(hugr.module_root()) {
-                reachable.insert(n2);
+            if n == Some(hugr.module_root()) && hugr.get_optype(n2).is_func_defn() {
+                entry_points.push(n2);
             }
         }
 
+        let reachable =
+            reachable_funcs(&ModuleGraph::new(hugr), hugr, entry_points).collect::<HashSet<_>>();
+
         let unreachable = hugr
             .children(hugr.module_root())
             .filter(|n| {
-- 
2.43.0


From 8b0f8809f26d9fbd7570b9d2beaa99d95528f8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:48 +0000
Subject: [PATCH 28/82] fix: values prepopulated on a wire are part of the
 dataflow results for that wire

---
 hugr-passes/src/const_fold.rs       | 13 +++++++++----
 hugr-passes/src/dataflow/datalog.rs | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/hugr-passes/src/const_fold.rs b/hugr-passes/src/const_fold.rs
index 6c281a0..55e5877 100644
--- a/hugr-passes/src/const_fold.rs
+++ b/hugr-passes/src/const_fold.rs
@@ -2,7 +2,8 @@
 //! An (example) use of the [dataflow analysis framework](super::dataflow).
 
 pub mod value_handle;
-use std::{collections::HashMap, sync::Arc};
+use std::collections::{HashMap, HashSet};
+use std::sync::Arc;
 use thiserror::Error;
 
 use hugr_core::{
@@ -123,7 +124,11 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
         }
 
         let results = m.run(ConstFoldContext, []);
-        let mb_root_inp = hugr.get_io(hugr.entrypoint()).map(|[i, _]| i);
+        // Input nodes of the root and of any other entry points
+        let root_inps = std::iter::once(hugr.entrypoint())
+            .chain(self.inputs.keys().copied())
+            .filter_map(|n| hugr.get_io(n).map(|[i, _]| i))
+            .collect::<HashSet<_>>();
 
         let wires_to_break = hugr
             .entry_descendants()
@@ -143,9 +148,9 @@ impl<H: HugrMut<Node = Node> + 'static> ComposablePass<H> for ConstantFoldPass {
                     return None;
                 }
                 // Avoid breaking edges from existing LoadConstant (we'd only add another)
-                // or from root input node (any "external inputs" provided will show up here
+                // or from root input nodes (any "external inputs" provided will show up here
                 //   - potentially also in other places which this won't catch)
-                (!hugr.get_optype(src).is_load_constant() && Some(src) != mb_root_inp).then_some((
+                (!hugr.get_optype(src).is_load_constant() && !root_inps.contains(&src)).then_some((
                     n,
                     ip,
                     results
diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 0368f93..8ac6f93 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -28,12 +28,16 @@ type NodeInputs<V, N> = Vec<(IncomingPort, PV<V, N>)>;
 ///    [`Self::prepopulate_inputs`] can be used on each externally-callable
 ///    [`FuncDefn`](OpType::FuncDefn) to set all inputs to [`PartialValue::Top`].
 /// 3. Call [`Self::run`] to produce [`AnalysisResults`]
-pub struct Machine<H: HugrView, V: AbstractValue>(H, HashMap<H::Node, NodeInputs<V, H::Node>>);
+pub struct Machine<H: HugrView, V: AbstractValue>(
+    H,
+    HashMap<H::Node, NodeInputs<V, H::Node>>,
+    Vec<OutWire<V, H::Node>>,
+);
 
 impl<H: HugrView, V: AbstractValue> Machine<H, V> {
     /// Create a new Machine to analyse the given Hugr(View)
     pub fn new(hugr: H) -> Self {
-        Self(hugr, Default::default())
+        Self(hugr, Default::default(), Default::default())
     }
 }
 
@@ -44,6 +48,9 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
         for (n, inp) in self.0.linked_inputs(w.node(), w.source()) {
             self.1.entry(n).or_default().push((inp, v.clone()));
         }
+        // Also record the value at the source, so that results for the wire itself
+        // take it into account (besides values flowing from calls, if any).
+        self.2.push((w.node(), w.source(), v));
     }
 
     /// Provide initial values for the inputs to a container node
@@ -138,16 +145,19 @@ impl<H: HugrView, V: AbstractValue> Machine<H, V> {
                 .into_iter()
                 .flat_map(|(n, vals)| vals.into_iter().map(move |(ip, v)| (n, ip, v)))
                 .collect(),
+            self.2,
         )
     }
 }
 
 pub(super) type InWire<V, N> = (N, IncomingPort, PartialValue<V, N>);
+type OutWire<V, N> = (N, OutgoingPort, PartialValue<V, N>);
 
 pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
     mut ctx: impl DFContext<V, Node = H::Node>,
     hugr: H,
     in_wire_value_proto: Vec<InWire<V, H::Node>>,
+    out_wire_value_proto: Vec<OutWire<V, H::Node>>,
 ) -> AnalysisResults<V, H> {
     // ascent-(macro-)generated code generates a bunch of warnings,
     // keep code in here to a minimum.
@@ -188,6 +198,9 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
         // Initialize all wires to bottom
         out_wire_value(n, p, PV::bottom()) <-- out_wire(n, p);
 
+        // Prepopulate out_wire_value from out_wire_value_proto.
+        out_wire_value(n, p, v) <-- for (n, p, v) in &out_wire_value_proto, out_wire(n, p);
+
         // Outputs to inputs
         in_wire_value(n, ip, v) <-- in_wire(n, ip),
             if let Some((m, op)) = hugr.single_linked_output(*n, *ip),
-- 
2.43.0


From 840deb913fc5fb5dc581d0436a7bd75153b78c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 29/82] fix: inlining a recursive call keeps the call in the
 copied body

---
 hugr-core/src/hugr/patch/inline_call.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/hugr/patch/inline_call.rs b/hugr-core/src/hugr/patch/inline_call.rs
index 339cf8f..87f6a86 100644
--- a/hugr-core/src/hugr/patch/inline_call.rs
+++ b/hugr-core/src/hugr/patch/inline_call.rs
@@ -63,6 +63,15 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         self.verify(h)?; // Now we know we have a Call to a FuncDefn.
         let orig_func = h.static_source(self.0).unwrap();
 
+        // Copy the body before changing the call, as the call may be part of the
+        // body itself (recursion): the copy of it must be an (intact) call.
+        let ty_args = h.get_optype(self.0).as_call().unwrap().type_args.clone();
+        h.copy_descendants(
+            orig_func,
+            self.0,
+            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
+        );
+
         h.disconnect(self.0, h.get_optype(self.0).static_input_port().unwrap());
 
         // The order input port gets renumbered because the static input
@@ -82,25 +91,13 @@ impl<N: HugrNode> PatchHugrMut for InlineCall<N> {
         });
         let new_order_in = new_op.other_input_port().unwrap();
 
-        let ty_args = h
-            .replace_op(self.0, new_op)
-            .as_call()
-            .unwrap()
-            .type_args
-            .clone();
-
+        h.replace_op(self.0, new_op);
         h.add_ports(self.0, Direction::Incoming, -1);
 
         // Reconnect order predecessors
         for (src, srcp) in order_preds {
             h.connect(src, srcp, self.0, new_order_in);
         }
-
-        h.copy_descendants(
-            orig_func,
-            self.0,
-            (!ty_args.is_empty()).then_some(Substitution::new(&ty_args)),
-        );
         Ok(())
     }
 
-- 
2.43.0


From 26bc1f26584d5541f96503649be47eaefbe234d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 30/82] fix: InsertCut verifies its specification before
 changing the graph

---
 hugr-core/src/hugr/patch/insert_cut.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hugr-core/src/hugr/patch/insert_cut.rs b/hugr-core/src/hugr/patch/insert_cut.rs
index 518c75c..0e03bfa 100644
--- a/hugr-core/src/hugr/patch/insert_cut.rs
+++ b/hugr-core/src/hugr/patch/insert_cut.rs
@@ -135,6 +135,7 @@ impl PatchHugrMut for InsertCut<Node> {
         self,
         h: &mut impl HugrMut<Node = Node>,
     ) -> Result<Self::Outcome, InsertCutError> {
+        self.verify(h)?;
         let insert_res = h.insert_hugr(self.parent, self.insertion);
         let inserted_entrypoint = insert_res.inserted_entrypoint;
         for (i, (target, port)) in self.targets.into_iter().enumerate() {
-- 
2.43.0


From fe47b59d1a21b55c5db0935c48527c65af634be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 31/82] fix: implement IdentityInsertion::verify, and do not
 change the graph when it fails

---
 hugr-core/src/hugr/patch/insert_identity.rs | 29 ++++++++++-----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/hugr-core/src/hugr/patch/insert_identity.rs b/hugr-core/src/hugr/patch/insert_identity.rs
index 725a0dd..66907c6 100644
--- a/hugr-core/src/hugr/patch/insert_identity.rs
+++ b/hugr-core/src/hugr/patch/insert_identity.rs
@@ -52,18 +52,19 @@ impl<N: HugrNode> PatchVerification for IdentityInsertion<N> {
     type Error = IdentityInsertionError;
     type Node = N;
 
-    fn verify(&self, _h: &impl HugrView) -> Result<(), IdentityInsertionError> {
-        /*
-        Assumptions:
-        1. Value kind inputs can only have one connection.
-        2. Node exists.
-        Conditions:
-        1. post_port is Value kind.
-        2. post_port is connected to a sibling of post_node.
-        3. post_port is input.
-         */
-
-        unimplemented!()
+    fn verify(&self, h: &impl HugrView<Node = N>) -> Result<(), IdentityInsertionError> {
+        // Assumption: Value kind inputs have exactly one connection.
+        if !h.contains_node(self.post_node) {
+            return Err(IdentityInsertionError::InvalidNode());
+        }
+        let kind = h.get_optype(self.post_node).port_kind(self.post_port);
+        let Some(EdgeKind::Value(_)) = kind else {
+            return Err(IdentityInsertionError::InvalidPortKind(kind));
+        };
+        match h.get_parent(self.post_node) {
+            Some(p) if OpTag::DataflowParent.is_superset(h.get_optype(p).tag()) => Ok(()),
+            _ => Err(IdentityInsertionError::InvalidParentNode),
+        }
     }
 
     #[inline]
@@ -85,6 +86,7 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         self,
         h: &mut impl HugrMut<Node = N>,
     ) -> Result<Self::Outcome, IdentityInsertionError> {
+        self.verify(h)?;
         let kind = h.get_optype(self.post_node).port_kind(self.post_port);
         let Some(EdgeKind::Value(ty)) = kind else {
             return Err(IdentityInsertionError::InvalidPortKind(kind));
@@ -98,9 +100,6 @@ impl<N: HugrNode> PatchHugrMut for IdentityInsertion<N> {
         let parent = h
             .get_parent(self.post_node)
             .ok_or(IdentityInsertionError::InvalidParentNode)?;
-        if !OpTag::DataflowParent.is_superset(h.get_optype(parent).tag()) {
-            return Err(IdentityInsertionError::InvalidParentNode);
-        }
         let new_node = h.add_node_with_parent(parent, Noop(ty));
         h.connect(pre_node, pre_port, new_node, 0);
 
-- 
2.43.0


From 93a607cfa7a03cc506a4632fe136caa4774289e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 32/82] fix: RemoveLoadConstant handles order edges at the node

---
 hugr-core/src/hugr/patch/consts.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/hugr-core/src/hugr/patch/consts.rs b/hugr-core/src/hugr/patch/consts.rs
index dcdeea5..a500129 100644
--- a/hugr-core/src/hugr/patch/consts.rs
+++ b/hugr-core/src/hugr/patch/consts.rs
@@ -64,9 +64,7 @@ impl<N: HugrNode> PatchHugrMut for RemoveLoadConstant<N> {
         self.verify(h)?;
         let node = self.0;
         let source = h
-            .input_neighbours(node)
-            .exactly_one()
-            .ok()
+            .static_source(node)
             .expect("Validation should check a Const is connected to LoadConstant.");
         h.remove_node(node);
 
-- 
2.43.0


From 35acd4f4ebaf080e86d5bfdff4228f1ca5ec70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 33/82] fix: Replacement reports invalid specifications before
 changing the graph

---
 hugr-core/src/hugr/patch/replace.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-core/src/hugr/patch/replace.rs b/hugr-core/src/hugr/patch/replace.rs
index ba4104a..e0d8ace 100644
--- a/hugr-core/src/hugr/patch/replace.rs
+++ b/hugr-core/src/hugr/patch/replace.rs
@@ -236,6 +236,9 @@ impl<HostNode: HugrNode> Replacement<HostNode> {
                 transferred.into_iter().collect(),
             ));
         }
+        if removed.contains(&h.entrypoint()) {
+            return Err(ReplaceError::CantRemoveEntrypoint);
+        }
         Ok(removed)
     }
 }
@@ -338,6 +341,7 @@ impl<HostNode: HugrNode> PatchHugrMut for Replacement<HostNode> {
         self,
         h: &mut impl HugrMut<Node = HostNode>,
     ) -> Result<Self::Outcome, Self::Error> {
+        self.verify(h)?;
         let parent = self.check_parent(h)?;
         // Calculate removed nodes here. (Does not include transfers, so enumerates only
         // nodes we are going to remove, individually, anyway; so no *asymptotic* speed
@@ -479,6 +483,9 @@ pub enum ReplaceError<HostNode = Node> {
     // (Perhaps if there is only one node to replace we should be able to?)
     #[error("Cannot replace the root node of the Hugr")]
     CantReplaceRoot,
+    /// The entrypoint of the Hugr was among the nodes to remove
+    #[error("Cannot remove the entrypoint of the Hugr")]
+    CantRemoveEntrypoint,
     /// The nodes to replace did not have a unique common parent
     #[error("Removed nodes had different parents {0:?}")]
     MultipleParents(Vec<HostNode>),
-- 
2.43.0


From 81e4d04a87416f8ac1cf1039e55a048ae86c66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 34/82] fix: validating a region with a single child or a
 foreign child does not panic

---
 hugr-core/src/ops/validate.rs | 44 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/hugr-core/src/ops/validate.rs b/hugr-core/src/ops/validate.rs
index 9bb4ebb..d308ec1 100644
--- a/hugr-core/src/ops/validate.rs
+++ b/hugr-core/src/ops/validate.rs
@@ -96,11 +96,12 @@ impl ValidateOp for super::Conditional {
         // Each child must have its variant's row and the rest of `inputs` as input,
         // and matching output
         for (i, (child, optype)) in children.into_iter().enumerate() {
-            let case_op = optype
-                .as_case()
-                .expect("Child check should have already checked valid ops.");
-            let sig = &case_op.inner_signature();
-            if sig.input != self.case_input_row(i).unwrap() || sig.output != self.outputs {
+            // Non-case children have an invalid parent, but this may be checked
+            // before that error gets reported on the child itself.
+            if !optype.as_case().is_some_and(|case_op| {
+                let sig = case_op.inner_signature();
+                sig.input == self.case_input_row(i).unwrap() && sig.output == self.outputs
+            }) {
                 return Err(ChildrenValidationError::ConditionalCaseSignature {
                     child,
                     optype: Box::new(optype.clone()),
@@ -130,7 +131,12 @@ impl ValidateOp for super::CFG {
         mut children: impl Iterator<Item = (N, &'a OpType)>,
     ) -> Result<(), ChildrenValidationError<N>> {
         let (entry, entry_op) = children.next().unwrap();
-        let (exit, exit_op) = children.next().unwrap();
+        let Some((exit, exit_op)) = children.next() else {
+            return Err(ChildrenValidationError::MissingSecondChild {
+                child: entry,
+                container_desc: "CFG",
+            });
+        };
         let entry_op = entry_op
             .as_dataflow_block()
             .expect("Child check should have already checked valid ops.");
@@ -202,6 +208,12 @@ pub enum ChildrenValidationError<N: HugrNode> {
         expected_count: usize,
         actual_sum_rows: Vec<TypeRow>,
     },
+    /// The container has a single child, but it requires at least two.
+    #[error("A {container_desc} node must have at least two children, but it has only one")]
+    MissingSecondChild {
+        child: N,
+        container_desc: &'static str,
+    },
 }
 
 impl<N: HugrNode> ChildrenValidationError<N> {
@@ -213,6 +225,7 @@ impl<N: HugrNode> ChildrenValidationError<N> {
             ChildrenValidationError::ConditionalCaseSignature { child, .. } => *child,
             ChildrenValidationError::IOSignatureMismatch { child, .. } => *child,
             ChildrenValidationError::InvalidConditionalSum { child, .. } => *child,
+            ChildrenValidationError::MissingSecondChild { child, .. } => *child,
         }
     }
 }
@@ -293,7 +306,12 @@ fn validate_io_nodes<'a, N: HugrNode>(
 ) -> Result<(), ChildrenValidationError<N>> {
     // Check that the signature matches with the Input and Output rows.
     let (first, first_optype) = children.next().unwrap();
-    let (second, second_optype) = children.next().unwrap();
+    let Some((second, second_optype)) = children.next() else {
+        return Err(ChildrenValidationError::MissingSecondChild {
+            child: first,
+            container_desc,
+        });
+    };
 
     let first_sig = first_optype.dataflow_signature().unwrap_or_default();
     if &first_sig.output != expected_input {
@@ -342,15 +360,15 @@ fn validate_io_nodes<'a, N: HugrNode>(
 
 /// Validate an edge between two basic blocks in a CFG sibling graph.
 fn validate_cfg_edge<N: HugrNode>(edge: ChildrenEdgeData<N>) -> Result<(), EdgeValidationError<N>> {
-    let source = &edge
-        .source_op
-        .as_dataflow_block()
-        .expect("CFG sibling graphs can only contain basic block operations.");
-
+    // Edges from or to other kinds of nodes are not control-flow edges. These are
+    // rejected when checking the number of ports and the edge kinds.
+    let Some(source) = edge.source_op.as_dataflow_block() else {
+        return Ok(());
+    };
     let target_input = match &edge.target_op {
         OpType::DataflowBlock(dfb) => dfb.dataflow_input(),
         OpType::ExitBlock(exit) => exit.dataflow_input(),
-        _ => panic!("CFG sibling graphs can only contain basic block operations."),
+        _ => return Ok(()),
     };
 
     let source_types = source.successor_input(edge.source_port.index());
-- 
2.43.0


From d663387d7c16a9afd909d3724bf89b3957206e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 35/82] fix: reject several functions connected to one static
 input

---
 hugr-core/src/hugr/validate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 25316db..6ca7b05 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -224,7 +224,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         // Linear dataflow values must be used, and control must have somewhere to flow.
         let outgoing_is_unique = port_kind.is_linear() || port_kind == EdgeKind::ControlFlow;
         // All dataflow wires must have a unique source.
-        let incoming_is_unique = port_kind.is_value() || port_kind.is_const();
+        let incoming_is_unique = port_kind.is_value() || port_kind.is_static();
         let must_be_connected = match dir {
             // Incoming ports must be connected, except for state order ports, branch case nodes,
             // and CFG nodes.
-- 
2.43.0


From d318f968992975f25aad8907d4abcc1625d00a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 36/82] fix: validating edges of the root does not panic

---
 hugr-core/src/hugr/validate.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 6ca7b05..0925016 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -456,10 +456,16 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
         to: H::Node,
         to_offset: Port,
     ) -> Result<(), InterGraphEdgeError<H::Node>> {
+        // The root node has no non-hierarchy edges.
         let from_parent = self
             .hugr
             .get_parent(from)
-            .expect("Root nodes cannot have ports");
+            .ok_or(InterGraphEdgeError::NoRelation {
+                from,
+                from_offset,
+                to,
+                to_offset,
+            })?;
         let to_parent = self.hugr.get_parent(to);
         let edge_kind = from_optype.port_kind(from_offset).unwrap();
         if Some(from_parent) == to_parent {
-- 
2.43.0


From e0bb1dff6c874140d47bae3538687c41acf01de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 37/82] fix: validate type arguments and function type of Call
 and LoadFunction

---
 hugr-core/src/hugr/validate.rs |  4 ++--
 hugr-core/src/ops/dataflow.rs  | 11 +++++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/hugr/validate.rs b/hugr-core/src/hugr/validate.rs
index 0925016..cf087ee 100644
--- a/hugr-core/src/hugr/validate.rs
+++ b/hugr-core/src/hugr/validate.rs
@@ -587,7 +587,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                 ))?;
             }
             OpType::Call(c) => {
-                c.validate()
+                c.validate(var_decls)
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
@@ -595,7 +595,7 @@ impl<'a, H: HugrView> ValidationContext<'a, H> {
                     })?;
             }
             OpType::LoadFunction(c) => {
-                c.validate()
+                c.validate(var_decls)
                     .map_err(|cause| ValidationError::SignatureError {
                         node,
                         op: op_type.name(),
diff --git a/hugr-core/src/ops/dataflow.rs b/hugr-core/src/ops/dataflow.rs
index 2a09fef..4c43491 100644
--- a/hugr-core/src/ops/dataflow.rs
+++ b/hugr-core/src/ops/dataflow.rs
@@ -6,6 +6,7 @@ use super::{OpTag, OpTrait, impl_op_name};
 
 use crate::extension::SignatureError;
 use crate::ops::StaticTag;
+use crate::types::type_param::TypeParam;
 use crate::types::{EdgeKind, PolyFuncType, Signature, Substitution, Type, TypeArg, TypeRow};
 use crate::{IncomingPort, type_row};
 
@@ -279,7 +280,10 @@ impl Call {
         self.instantiation.input_count().into()
     }
 
-    pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+    pub(crate) fn validate(&self, var_decls: &[TypeParam]) -> Result<(), SignatureError> {
+        // Check that the signature can be instantiated before doing so.
+        self.func_sig.validate()?;
+        (self.type_args.iter()).try_for_each(|arg| arg.validate(var_decls))?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
@@ -470,7 +474,10 @@ impl LoadFunction {
         0.into()
     }
 
-    pub(crate) fn validate(&self) -> Result<(), SignatureError> {
+    pub(crate) fn validate(&self, var_decls: &[TypeParam]) -> Result<(), SignatureError> {
+        // Check that the signature can be instantiated before doing so.
+        self.func_sig.validate()?;
+        (self.type_args.iter()).try_for_each(|arg| arg.validate(var_decls))?;
         let other = Self::try_new(self.func_sig.clone(), self.type_args.clone())?;
         if other.instantiation == self.instantiation {
             Ok(())
-- 
2.43.0


From bc42685ee14d81cabdd69237a716de7bf435366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 38/82] fix: validate the elements of sum constants

---
 hugr-core/src/ops/constant.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hugr-core/src/ops/constant.rs b/hugr-core/src/ops/constant.rs
index deebe54..f04e9a0 100644
--- a/hugr-core/src/ops/constant.rs
+++ b/hugr-core/src/ops/constant.rs
@@ -496,6 +496,8 @@ impl Value {
                 values,
                 sum_type,
             }) => {
+                // Check the elements first, so that their types are known to be valid.
+                values.iter().try_for_each(Value::validate)?;
                 sum_type.check_type(*tag, values)?;
                 Ok(())
             }
-- 
2.43.0


From 4f1c86fc931810597fd4360a12175f7bd48536d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 39/82] fix: substituting in a tuple type gives a tuple type

---
 hugr-core/src/types/type_param.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index b539e55..9690c09 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -446,7 +446,7 @@ impl Term {
             Term::BytesType => self.clone(),
             Term::FloatType => self.clone(),
             Term::ListType(item_type) => Term::new_list_type(item_type.substitute(t)),
-            Term::TupleType(item_types) => Term::new_list_type(item_types.substitute(t)),
+            Term::TupleType(item_types) => Term::new_tuple_type(item_types.substitute(t)),
             Term::StaticType => self.clone(),
             Term::ConstType(ty) => Term::new_const(ty.substitute1(t)),
         }
-- 
2.43.0


From de684ffe46b2f64739feb2510e612ed09102a369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 40/82] fix: check the parts of a list concatenation against
 the list type

---
 hugr-core/src/types/type_param.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 9690c09..016518a 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -657,9 +657,9 @@ pub fn check_term_type(term: &Term, type_: &Term) -> Result<(), TermTypeError> {
                 check_term_type(term, item_type)
             })
         }
-        (Term::ListConcat(lists), Term::ListType(item_type)) => lists
+        (Term::ListConcat(lists), Term::ListType(_)) => lists
             .iter()
-            .try_for_each(|list| check_term_type(list, item_type)),
+            .try_for_each(|list| check_term_type(list, type_)),
         (TypeArg::Tuple(_) | TypeArg::TupleConcat(_), TypeParam::TupleType(item_types)) => {
             let term_parts: Vec<_> = term.clone().into_tuple_parts().collect();
             let type_parts: Vec<_> = item_types.clone().into_list_parts().collect();
-- 
2.43.0


From 4d91a9b0672b2d3eb851ef9cbb99db956c093df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 41/82] fix: substitute row variables by row variables and list
 concatenations

---
 hugr-core/src/types.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/hugr-core/src/types.rs b/hugr-core/src/types.rs
index 3bb307b..5df7c0c 100644
--- a/hugr-core/src/types.rs
+++ b/hugr-core/src/types.rs
@@ -15,7 +15,7 @@ use crate::extension::resolution::{
     ExtensionCollectionError, WeakExtensionRegistry, collect_type_exts,
 };
 pub use crate::ops::constant::{ConstTypeError, CustomCheckFailure};
-use crate::types::type_param::check_term_type;
+use crate::types::type_param::{SeqPart, check_term_type};
 use crate::utils::display_list_with_separator;
 pub use check::SumTypeError;
 pub use custom::CustomType;
@@ -752,28 +752,26 @@ impl<'a> Substitution<'a> {
             .get(idx)
             .expect("Undeclared type variable - call validate() ?");
         debug_assert!(check_term_type(arg, &TypeParam::new_list_type(bound)).is_ok());
-        match arg {
-            TypeArg::List(elems) => elems
-                .iter()
-                .map(|ta| {
-                    match ta {
-                        Term::Runtime(ty) => return ty.clone().into(),
-                        Term::Variable(v) => {
-                            if let Some(b) = v.bound_if_row_var() {
-                                return TypeRV::new_row_var_use(v.index(), b);
-                            }
-                        }
-                        _ => (),
-                    }
-                    panic!("Not a list of types - call validate() ?")
-                })
-                .collect(),
-            Term::Runtime(ty) if matches!(ty.0, TypeEnum::RowVar(_)) => {
-                // Standalone "Type" can be used iff its actually a Row Variable not an actual (single) Type
-                vec![ty.clone().into()]
+        if let Term::Runtime(ty) = arg {
+            // Standalone "Type" can be used iff its actually a Row Variable not an actual (single) Type
+            if matches!(ty.0, TypeEnum::RowVar(_)) {
+                return vec![ty.clone().into()];
             }
-            _ => panic!("Not a type or list of types - call validate() ?"),
         }
+        // Row variables may occur both as elements of a list and as (spliced) lists
+        arg.clone()
+            .into_list_parts()
+            .map(|part| match part {
+                SeqPart::Item(Term::Runtime(ty)) => ty.into(),
+                SeqPart::Item(Term::Variable(v)) | SeqPart::Splice(Term::Variable(v)) => {
+                    let bound = v
+                        .bound_if_row_var()
+                        .expect("Not a list of types - call validate() ?");
+                    TypeRV::new_row_var_use(v.index(), bound)
+                }
+                _ => panic!("Not a type or list of types - call validate() ?"),
+            })
+            .collect()
     }
 }
 
-- 
2.43.0


From a795551913096671dfea6619b8db16c36e63c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 42/82] fix: a constant type or concatenation is a supertype of
 itself

---
 hugr-core/src/types/type_param.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/types/type_param.rs b/hugr-core/src/types/type_param.rs
index 016518a..95d4e4e 100644
--- a/hugr-core/src/types/type_param.rs
+++ b/hugr-core/src/types/type_param.rs
@@ -212,7 +212,8 @@ impl Term {
             (Term::Tuple(es1), Term::Tuple(es2)) => {
                 es1.len() == es2.len() && es1.iter().zip(es2).all(|(e1, e2)| e1.is_supertype(e2))
             }
-            _ => false,
+            // Constants and concatenations: no subtyping between distinct terms.
+            _ => self == other,
         }
     }
 }
-- 
2.43.0


From 91dd7aef449ee78372a917025704d2a31016425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 43/82] fix: dead code elimination keeps the containers of
 nested entry points

---
 hugr-passes/src/dead_code.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hugr-passes/src/dead_code.rs b/hugr-passes/src/dead_code.rs
index 094d3e8..984b316 100644
--- a/hugr-passes/src/dead_code.rs
+++ b/hugr-passes/src/dead_code.rs
@@ -112,6 +112,20 @@ impl<H: HugrView> DeadCodeElimPass<H> {
         let mut needed = HashSet::new();
         let mut q = VecDeque::from_iter(self.entry_points.iter().copied());
         q.push_front(h.entrypoint());
+        // An entry point nested in other containers needs those containers too
+        for &ep in &self.entry_points {
+            let mut containers = Vec::new();
+            let mut anc = ep;
+            while anc != h.entrypoint() && h.contains_node(anc) {
+                let Some(parent) = h.get_parent(anc) else {
+                    containers.clear(); // Not beneath the entrypoint, so nothing will be removed
+                    break;
+                };
+                containers.push(parent);
+                anc = parent;
+            }
+            q.extend(containers);
+        }
         while let Some(n) = q.pop_front() {
             if !h.contains_node(n) {
                 return Err(DeadCodeElimError::NodeNotFound(n));
-- 
2.43.0


From 5d287a73862292112d003f533782bc9472ac6e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:34 +0000
Subject: [PATCH 44/82] fix: monomorphisation does not panic on declarations or
 concatenated arguments

---
 hugr-passes/src/monomorphize.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/monomorphize.rs b/hugr-passes/src/monomorphize.rs
index 328a9ef..682eb3c 100644
--- a/hugr-passes/src/monomorphize.rs
+++ b/hugr-passes/src/monomorphize.rs
@@ -113,6 +113,9 @@ fn mono_scan(
         }
         let fn_inp = ch_op.static_input_port().unwrap();
         let tgt = h.static_source(old_ch).unwrap(); // Use old_ch as edges not copied yet
+        if !h.get_optype(tgt).is_func_defn() {
+            continue; // A declaration has no body to instantiate
+        }
         let new_tgt = instantiate(h, tgt, type_args.clone(), mono_sig.clone(), cache);
         let fn_out = {
             let func = h.get_optype(new_tgt).as_func_defn().unwrap();
@@ -243,7 +246,7 @@ fn write_type_arg_str(arg: &TypeArg, f: &mut std::fmt::Formatter<'_>) -> std::fm
         // We are monomorphizing. We will never monomorphize to a signature
         // containing a variable.
         TypeArg::Variable(_) => panic!("type_arg_str variable: {arg}"),
-        _ => panic!("unknown type arg: {arg}"),
+        _ => f.write_fmt(format_args!("a({})", escape_dollar(arg.to_string()))),
     }
 }
 
-- 
2.43.0


From 00eb91a8990b2ee365adac229ed1597cd29fe7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:32 +0000
Subject: [PATCH 45/82] fix: extension resolution reaches every node

---
 hugr-core/src/hugr.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/hugr-core/src/hugr.rs b/hugr-core/src/hugr.rs
index 41ab14b..9d44714 100644
--- a/hugr-core/src/hugr.rs
+++ b/hugr-core/src/hugr.rs
@@ -284,18 +284,9 @@ impl Hugr {
         //
         // This is not something we want to expose it the API, so we manually
         // iterate instead of writing it as a method.
-        //
-        // Since we don't have a non-borrowing iterator over all the possible
-        // NodeIds, we have to simulate it by iterating over all possible
-        // indices and checking if the node exists.
         let weak_extensions: WeakExtensionRegistry = extensions.into();
-        for n in 0..self.graph.node_capacity() {
-            let pg_node = portgraph::NodeIndex::new(n);
+        for pg_node in self.graph.nodes_iter() {
             let node: Node = pg_node.into();
-            if !self.contains_node(node) {
-                continue;
-            }
-
             let op = &mut self.op_types[pg_node];
 
             if let Some(extension) = resolve_op_extensions(node, op, extensions)? {
-- 
2.43.0


From af0ebc269447259f8be42483807f6510dcb89801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 46/82] fix: model terms keep the sign of zero

---
 hugr-core/src/export.rs          |  9 +++++++++
 hugr-model/src/v0/ast/resolve.rs | 11 ++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index 9b0dc2a..181ecc9 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -197,6 +197,15 @@ impl<'a> Context<'a> {
             term => term,
         };
 
+        // Floats compare equal regardless of the sign of zero, so we must not share these terms.
+        let negative_zero = matches!(
+            &term,
+            table::Term::Literal(model::Literal::Float(value)) if **value == 0.0 && value.is_sign_negative()
+        );
+        if negative_zero {
+            return self.module.insert_term(term);
+        }
+
         *self
             .term_map
             .entry(term.clone())
diff --git a/hugr-model/src/v0/ast/resolve.rs b/hugr-model/src/v0/ast/resolve.rs
index 54ca2bb..8f6d1db 100644
--- a/hugr-model/src/v0/ast/resolve.rs
+++ b/hugr-model/src/v0/ast/resolve.rs
@@ -6,7 +6,7 @@ use thiserror::Error;
 use super::{
     LinkName, Module, Node, Operation, Param, Region, SeqPart, Symbol, SymbolName, Term, VarName,
 };
-use crate::v0::{RegionKind, ScopeClosure, table};
+use crate::v0::{Literal, RegionKind, ScopeClosure, table};
 use crate::v0::{
     scope::{LinkTable, SymbolTable, VarTable},
     table::{LinkIndex, NodeId, RegionId, TermId, VarId},
@@ -92,6 +92,15 @@ impl<'a> Context<'a> {
             }
         };
 
+        // Floats compare equal regardless of the sign of zero, so we must not share these terms.
+        let negative_zero = matches!(
+            &term,
+            table::Term::Literal(Literal::Float(value)) if **value == 0.0 && value.is_sign_negative()
+        );
+        if negative_zero {
+            return Ok(self.module.insert_term(term));
+        }
+
         Ok(*self
             .terms
             .entry(term.clone())
-- 
2.43.0


From cc094c549932949fc825c0b7e5c03002ed4af5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 47/82] fix: function constants are exported with their own
 links

---
 hugr-core/src/export.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/export.rs b/hugr-core/src/export.rs
index 181ecc9..b85acd8 100644
--- a/hugr-core/src/export.rs
+++ b/hugr-core/src/export.rs
@@ -1094,14 +1094,16 @@ impl<'a> Context<'a> {
             Value::Function { hugr } => {
                 let outer_hugr = std::mem::replace(&mut self.hugr, hugr);
                 let outer_node_to_id = std::mem::take(&mut self.node_to_id);
+                let outer_links = std::mem::replace(&mut self.links, Links::new(hugr));
 
                 let region = match hugr.entrypoint_optype() {
-                    OpType::DFG(_) => {
+                    OpType::DFG(_) | OpType::FuncDefn(_) => {
                         self.export_dfg(hugr.entrypoint(), model::ScopeClosure::Closed, true, true)
                     }
-                    _ => panic!("Value::Function root must be a DFG"),
+                    _ => panic!("Value::Function root must be a DFG or a function definition"),
                 };
 
+                self.links = outer_links;
                 self.node_to_id = outer_node_to_id;
                 self.hugr = outer_hugr;
 
-- 
2.43.0


From fb15e041acd8191b3e2aaadeac9694f26265bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:40 +0000
Subject: [PATCH 48/82] fix: model text with numbered variables, exponents or
 large numbers

---
 hugr-model/src/v0/ast/hugr.pest | 5 +++--
 hugr-model/src/v0/ast/parse.rs  | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index d960cb3..5e19e08 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -39,7 +39,8 @@ literal_string_unicode = @{ "\\u" ~ "{" ~ ASCII_HEX_DIGIT+ ~ "}" }
 
 literal_nat   = @{ (ASCII_DIGIT)+ }
 literal_bytes =  { "(" ~ "bytes" ~ base64_string ~ ")" }
-literal_float = @{ ("+" | "-")? ~ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ ~ ("e" ~ ("+" | "-")? ~ ASCII_DIGIT+)? }
+literal_float = @{ ("+" | "-")? ~ ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT+ ~ literal_exponent? | literal_exponent) }
+literal_exponent = @{ "e" ~ ("+" | "-")? ~ ASCII_DIGIT+ }
 
 base64_string = { "\"" ~ (ASCII_ALPHANUMERIC | "+" | "/")* ~ "="* ~ "\"" }
 
@@ -103,7 +104,7 @@ term = {
 }
 
 term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
-term_var        =  { "?" ~ identifier }
+term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
 term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
diff --git a/hugr-model/src/v0/ast/parse.rs b/hugr-model/src/v0/ast/parse.rs
index a2c9a5c..635dbbc 100644
--- a/hugr-model/src/v0/ast/parse.rs
+++ b/hugr-model/src/v0/ast/parse.rs
@@ -397,8 +397,10 @@ fn parse_bytes(pair: Pair<Rule>) -> ParseResult<Arc<[u8]>> {
 
 fn parse_nat(pair: Pair<Rule>) -> ParseResult<u64> {
     debug_assert_eq!(pair.as_rule(), Rule::literal_nat);
-    let value = pair.as_str().trim().parse().unwrap();
-    Ok(value)
+    pair.as_str()
+        .trim()
+        .parse()
+        .map_err(|_| ParseError::custom("natural number out of range", pair.as_span()))
 }
 
 fn parse_float(pair: Pair<Rule>) -> ParseResult<OrderedFloat<f64>> {
-- 
2.43.0


From ac41af66e4cbd4258a2e56f7d79ce214eaaddae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 49/82] fix: subgraphs with non-value edges, several links or a
 checker of another region

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 327 +++++++++----------
 1 file changed, 157 insertions(+), 170 deletions(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index f5342ab..c49e18a 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -5,15 +5,13 @@
 //! induced subgraphs, i.e. they are defined by a subset of the sibling nodes.
 
 use std::cell::OnceCell;
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::mem;
 
 use itertools::Itertools;
-use portgraph::LinkView;
 use portgraph::PortView;
 use portgraph::algorithms::CreateConvexChecker;
 use portgraph::algorithms::convex::{LineIndex, LineIntervals, Position};
-use portgraph::boundary::Boundary;
 use rustc_hash::FxHashSet;
 use thiserror::Error;
 
@@ -241,26 +239,18 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        let (subpg, node_map) = make_pg_subgraph(hugr, &inputs, &outputs);
-        let nodes = subpg
-            .nodes_iter()
-            .map(|index| node_map.from_portgraph(index))
-            .collect_vec();
-
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        let nodes = nodes_within_boundary(hugr, &inputs, &outputs);
+        let function_calls = drain_function_calls(&mut inputs, hugr)?;
 
-        validate_subgraph(hugr, &nodes, &inputs, &outputs, &function_calls)?;
-
-        if nodes.len() > 1 && !subpg.is_convex_with_checker(checker) {
-            return Err(InvalidSubgraph::NotConvex);
-        }
-
-        Ok(Self {
+        let subgraph = Self {
             nodes,
             inputs,
             outputs,
             function_calls,
-        })
+        };
+        subgraph.check(hugr)?;
+        subgraph.check_convex(hugr, checker)?;
+        Ok(subgraph)
     }
 
     /// Create a subgraph from a set of nodes.
@@ -308,34 +298,9 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &H,
         checker: &TopoConvexChecker<H>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        let mut nodes: Vec<N> = nodes.into();
-        let num_nodes = nodes.len();
-
-        if nodes.is_empty() {
-            return Err(InvalidSubgraph::EmptySubgraph);
-        }
-
-        let (inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
-
-        // If there are no input/output edges, the set is always convex so we can initialize the subgraph directly.
-        // If we called `try_new_with_checker` with no boundaries, we'd select every node in the region instead of the expected subset.
-        if inputs.is_empty() && outputs.is_empty() {
-            return Ok(Self {
-                nodes,
-                inputs,
-                outputs,
-                function_calls: vec![],
-            });
-        }
-
-        let mut subgraph = Self::try_new_with_checker(inputs, outputs, hugr, checker)?;
-
-        // If some nodes formed a fully connected component, they won't be included in the subgraph generated from the boundaries.
-        // We re-add them here.
-        if subgraph.node_count() < num_nodes {
-            subgraph.nodes = nodes;
-        }
-
+        let mut subgraph = Self::from_node_set(nodes.into(), hugr)?;
+        subgraph.check_convex(hugr, checker)?;
+        sort_nodes(hugr, &mut subgraph.nodes);
         Ok(subgraph)
     }
 
@@ -357,49 +322,77 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         intervals: &LineIntervals,
         line_checker: &LineConvexChecker<impl HugrView<Node = N>>,
     ) -> Result<Self, InvalidSubgraph<N>> {
-        if !line_checker.get_checker().is_convex_by_intervals(intervals) {
-            return Err(InvalidSubgraph::NotConvex);
-        }
+        let subgraph = Self::from_node_set(nodes.into(), line_checker.hugr())?;
 
-        let nodes: Vec<N> = nodes.into();
-        let hugr = line_checker.hugr();
-
-        if nodes.is_empty() {
-            return Err(InvalidSubgraph::EmptySubgraph);
+        // Nodes that are not on any line are not linked to anything.
+        if !intervals.is_empty() && !line_checker.get_checker().is_convex_by_intervals(intervals) {
+            return Err(InvalidSubgraph::NotConvex);
         }
 
-        let nodes_set = nodes.iter().copied().collect::<HashSet<_>>();
-        let incoming_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_inputs(n).map(move |p| (n, p)));
-        let outgoing_edges = nodes
-            .iter()
-            .flat_map(|&n| hugr.node_outputs(n).map(move |p| (n, p)));
-        let mut inputs = incoming_edges
-            .filter(|&(n, p)| {
-                if !hugr.is_linked(n, p) {
-                    return false;
-                }
-                let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-                !nodes_set.contains(&out_n)
-            })
-            // Every incoming edge is its own input.
-            .map(|p| vec![p])
-            .collect_vec();
-        let outputs = outgoing_edges
-            .filter(|&(n, p)| {
-                hugr.linked_ports(n, p)
-                    .any(|(n1, _)| !nodes_set.contains(&n1))
-            })
-            .collect_vec();
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        Ok(subgraph)
+    }
 
-        Ok(Self {
+    /// The subgraph of the given nodes, with all of its boundary.
+    ///
+    /// Checks everything except for convexity.
+    fn from_node_set(
+        mut nodes: Vec<N>,
+        hugr: &impl HugrView<Node = N>,
+    ) -> Result<Self, InvalidSubgraph<N>> {
+        let (mut inputs, outputs) = get_boundary_from_nodes(hugr, &mut nodes);
+        let function_calls = drain_function_calls(&mut inputs, hugr)?;
+        let subgraph = Self {
             nodes,
             inputs,
             outputs,
             function_calls,
-        })
+        };
+        subgraph.check(hugr)?;
+        Ok(subgraph)
+    }
+
+    /// Checks everything except for convexity, see [`validate_subgraph`].
+    fn check(&self, hugr: &impl HugrView<Node = N>) -> Result<(), InvalidSubgraph<N>> {
+        validate_subgraph(
+            hugr,
+            &self.nodes,
+            &self.inputs,
+            &self.outputs,
+            &self.function_calls,
+        )
+    }
+
+    /// Checks that the set of nodes is convex.
+    fn check_convex<H: HugrView<Node = N>>(
+        &self,
+        hugr: &H,
+        checker: &TopoConvexChecker<H>,
+    ) -> Result<(), InvalidSubgraph<N>> {
+        use portgraph::algorithms::ConvexChecker as _;
+
+        if self.nodes.len() <= 1 {
+            return Ok(());
+        }
+        // The checker is specific to a region, and cannot be used in other ones.
+        let parent = self.get_parent(hugr);
+        if checker.region_parent != parent {
+            return self.check_convex(hugr, &ConvexChecker::new(hugr, parent));
+        }
+
+        let (region, node_map) = hugr.region_portgraph(parent);
+        let pg_port = |n: N, p: Port| {
+            region
+                .port_index(node_map.to_portgraph(n), p.pg_offset())
+                .expect("valid port")
+        };
+        if !checker.is_convex(
+            self.nodes.iter().map(|&n| node_map.to_portgraph(n)),
+            iter_incoming(&self.inputs).map(|(n, p)| pg_port(n, p.into())),
+            iter_outgoing(&self.outputs).map(|(n, p)| pg_port(n, p.into())),
+        ) {
+            return Err(InvalidSubgraph::NotConvex);
+        }
+        Ok(())
     }
 
     /// Create a subgraph containing a single node.
@@ -429,7 +422,7 @@ impl<N: HugrNode> SiblingSubgraph<N> {
                 .then_some((node, p))
             })
             .collect_vec();
-        let function_calls = drain_function_calls(&mut inputs, hugr);
+        let function_calls = drain_function_calls(&mut inputs, hugr).expect("valid function calls");
 
         let state_order_at_input = hugr
             .get_optype(node)
@@ -466,46 +459,27 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         hugr: &'h H,
         mode: ValidationMode<'_, 'h, H>,
     ) -> Result<(), InvalidSubgraph<N>> {
-        let mut exp_nodes = {
-            let (subpg, node_map) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            subpg
-                .nodes_iter()
-                .map(|n| node_map.from_portgraph(n))
-                .collect_vec()
-        };
-        let mut nodes = self.nodes.clone();
-
-        exp_nodes.sort_unstable();
-        nodes.sort_unstable();
-
-        if exp_nodes != nodes {
-            return Err(InvalidSubgraph::InvalidNodeSet);
+        // All the nodes between the boundaries must be in the subgraph. Further
+        // nodes are possible if they are not connected to the boundary.
+        if !self.inputs.is_empty() || !self.outputs.is_empty() {
+            let nodes: HashSet<_> = self.nodes.iter().copied().collect();
+            if nodes_within_boundary(hugr, &self.inputs, &self.outputs)
+                .iter()
+                .any(|n| !nodes.contains(n))
+            {
+                return Err(InvalidSubgraph::InvalidNodeSet);
+            }
         }
 
-        validate_subgraph(
-            hugr,
-            &self.nodes,
-            &self.inputs,
-            &self.outputs,
-            &self.function_calls,
-        )?;
+        self.check(hugr)?;
 
-        let checker;
-        let checker_ref = match mode {
-            ValidationMode::WithChecker(c) => Some(c),
+        match mode {
+            ValidationMode::WithChecker(c) => self.check_convex(hugr, c),
             ValidationMode::CheckConvexity => {
-                checker = ConvexChecker::new(hugr, self.get_parent(hugr));
-                Some(&checker)
-            }
-            ValidationMode::SkipConvexity => None,
-        };
-        if let Some(checker) = checker_ref {
-            let (subpg, _) = make_pg_subgraph(hugr, &self.inputs, &self.outputs);
-            if !subpg.is_convex_with_checker(&checker.init_checker().0) {
-                return Err(InvalidSubgraph::NotConvex);
+                self.check_convex(hugr, &ConvexChecker::new(hugr, self.get_parent(hugr)))
             }
+            ValidationMode::SkipConvexity => Ok(()),
         }
-        Ok(())
     }
 
     /// An iterator over the nodes in the subgraph.
@@ -660,7 +634,15 @@ impl<N: HugrNode> SiblingSubgraph<N> {
         // Take the unfinished Hugr from the builder, to avoid unnecessary
         // validation checks that require connecting the inputs and outputs.
         let mut extracted = mem::take(builder.hugr_mut());
-        let node_map = extracted.insert_subgraph(extracted.entrypoint(), hugr, self);
+        let root = extracted.entrypoint();
+        let node_map = extracted
+            .insert_view_forest(
+                hugr,
+                self.nodes.iter().flat_map(|&n| hugr.descendants(n)),
+                self.nodes.iter().map(|&n| (n, root)),
+            )
+            .expect("SiblingSubgraph nodes are a set")
+            .node_map;
 
         // Connect the inserted nodes in-between the input and output nodes.
         let [inp, out] = extracted.get_io(extracted.entrypoint()).unwrap();
@@ -729,34 +711,51 @@ pub enum ValidationMode<'t, 'h, H: HugrView> {
     SkipConvexity,
 }
 
-fn make_pg_subgraph<'h, H: HugrView>(
-    hugr: &'h H,
+/// Returns the nodes of the region that are between the boundaries, see
+/// [`SiblingSubgraph::try_new`].
+///
+/// All the links of a boundary port are boundary edges. If there are none, all
+/// nodes in the region of the entrypoint are returned.
+fn nodes_within_boundary<H: HugrView>(
+    hugr: &H,
     inputs: &IncomingPorts<H::Node>,
     outputs: &OutgoingPorts<H::Node>,
-) -> (
-    portgraph::view::Subgraph<CheckerRegion<'h, H>>,
-    H::RegionPortgraphNodes,
-) {
+) -> Vec<H::Node> {
+    let boundary: HashSet<_> = iter_io(inputs, outputs).collect();
     // Pick the hugr region that contains the boundary nodes.
-    // If the nodes are not in the same region, we'll fail the convexity check later on.
-    let mut io_nodes = inputs
-        .iter()
-        .flat_map(|inps| inps.iter().map(|(n, _)| *n))
-        .chain(outputs.iter().map(|(n, _)| *n));
-    let hugr_region = io_nodes
-        .next()
-        .and_then(|n| hugr.get_parent(n))
-        .unwrap_or(hugr.entrypoint());
-
-    let (region, node_map) = hugr.region_portgraph(hugr_region);
-
-    // Ordering of the edges here is preserved and becomes ordering of the
-    // signature.
-    let boundary = make_boundary::<H>(&region, &node_map, inputs, outputs);
-    (
-        portgraph::view::Subgraph::new_subgraph(region, boundary),
-        node_map,
-    )
+    // If the nodes are not in the same region, the validation will fail later on.
+    let Ok(parent) = pick_parent(hugr, inputs, outputs) else {
+        return hugr.children(hugr.entrypoint()).collect();
+    };
+
+    let mut nodes: BTreeSet<_> = boundary.iter().map(|&(n, _)| n).collect();
+    let mut to_visit = nodes.iter().copied().collect_vec();
+    while let Some(node) = to_visit.pop() {
+        for port in hugr.all_node_ports(node) {
+            if boundary.contains(&(node, port)) {
+                continue;
+            }
+            for (other, other_port) in hugr.linked_ports(node, port) {
+                if !boundary.contains(&(other, other_port))
+                    && hugr.get_parent(other) == Some(parent)
+                    && nodes.insert(other)
+                {
+                    to_visit.push(other);
+                }
+            }
+        }
+    }
+    let mut nodes = nodes.into_iter().collect_vec();
+    sort_nodes(hugr, &mut nodes);
+    nodes
+}
+
+/// List nodes of a region in the order of the underlying portgraph.
+fn sort_nodes<H: HugrView>(hugr: &H, nodes: &mut [H::Node]) {
+    if let Some(parent) = nodes.first().and_then(|&n| hugr.get_parent(n)) {
+        let (_, node_map) = hugr.region_portgraph(parent);
+        nodes.sort_by_key(|&n| node_map.to_portgraph(n));
+    }
 }
 
 /// Returns the input and output boundary ports for a given set of nodes.
@@ -780,11 +779,8 @@ fn get_boundary_from_nodes<N: HugrNode>(
 
     let inputs = incoming_edges
         .filter(|&(n, p)| {
-            if !hugr.is_linked(n, p) {
-                return false;
-            }
-            let (out_n, _) = hugr.single_linked_output(n, p).unwrap();
-            !nodes_set.contains(&out_n)
+            hugr.linked_outputs(n, p)
+                .any(|(out_n, _)| !nodes_set.contains(&out_n))
         })
         // Every incoming edge is its own input.
         .map(|p| vec![p])
@@ -803,7 +799,7 @@ fn get_boundary_from_nodes<N: HugrNode>(
 fn drain_function_calls<N: HugrNode, H: HugrView<Node = N>>(
     inputs: &mut IncomingPorts<N>,
     hugr: &H,
-) -> IncomingPorts<N> {
+) -> Result<IncomingPorts<N>, InvalidSubgraph<N>> {
     let mut function_calls = Vec::new();
     inputs.retain_mut(|calls| {
         let Some(&(n, p)) = calls.first() else {
@@ -824,7 +820,6 @@ fn drain_function_calls<N: HugrNode, H: HugrView<Node = N>>(
     });
 
     group_into_function_calls(function_calls.into_iter().map(|(n, p)| (n, p.into())), hugr)
-        .expect("valid function calls")
 }
 
 /// Group incoming ports by the function definition/declaration that they are
@@ -852,12 +847,13 @@ fn group_into_function_calls<N: HugrNode>(
             {
                 return Err(InvalidSubgraph::UnsupportedEdgeKind(n, p.into()));
             }
-            Ok::<_, InvalidSubgraph<N>>((n, p))
+            let Some(source) = hugr.single_linked_output(n, p) else {
+                return Err(InvalidSubgraphBoundary::DisconnectedBoundaryPort(n, p.into()).into());
+            };
+            Ok::<_, InvalidSubgraph<N>>((source, (n, p)))
         })
         .try_collect()?;
-    let grouped_non_local = incoming_ports
-        .into_iter()
-        .into_group_map_by(|&(n, p)| hugr.single_linked_output(n, p).expect("valid dfg wire"));
+    let grouped_non_local = incoming_ports.into_iter().into_group_map();
     Ok(grouped_non_local
         .into_iter()
         .sorted_unstable_by(|(n1, _), (n2, _)| n1.cmp(n2))
@@ -936,23 +932,6 @@ fn pick_parent<'a, N: HugrNode>(
     Ok(parent)
 }
 
-fn make_boundary<'a, H: HugrView>(
-    region: &impl LinkView<PortOffsetBase = u32>,
-    node_map: &H::RegionPortgraphNodes,
-    inputs: &'a IncomingPorts<H::Node>,
-    outputs: &'a OutgoingPorts<H::Node>,
-) -> Boundary {
-    let to_pg_index = |n: H::Node, p: Port| {
-        region
-            .port_index(node_map.to_portgraph(n), p.pg_offset())
-            .unwrap()
-    };
-    Boundary::new(
-        iter_incoming(inputs).map(|(n, p)| to_pg_index(n, p.into())),
-        iter_outgoing(outputs).map(|(n, p)| to_pg_index(n, p.into())),
-    )
-}
-
 type CheckerRegion<'g, Base> =
     portgraph::view::FlatRegion<'g, <Base as HugrInternals>::RegionPortgraph<'g>>;
 
@@ -1261,6 +1240,11 @@ fn validate_subgraph<H: HugrView>(
         return Err(InvalidSubgraphBoundary::NonUniqueInput.into());
     }
 
+    // Check linear outputs are unique
+    if !has_unique_linear_ports(hugr, outputs) {
+        return Err(InvalidSubgraphBoundary::NonUniqueLinearOutput.into());
+    }
+
     // Check
     //  - no incoming partition is empty
     //  - all inputs within a partition are linked to the same outgoing port
@@ -1474,6 +1458,9 @@ pub enum InvalidSubgraphBoundary<N: HugrNode = Node> {
     /// There's a non-unique input-boundary port.
     #[error("A port in the input boundary is used multiple times.")]
     NonUniqueInput,
+    /// There's a non-unique output-boundary port of linear type.
+    #[error("A linear port in the output boundary is used multiple times.")]
+    NonUniqueLinearOutput,
     /// There's an empty partition in the input boundary.
     #[error("A partition in the input boundary is empty.")]
     EmptyPartition,
-- 
2.43.0


From 9e8429db1af08374bd180e4355fb27371c151464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 50/82] fix: subgraph validation checks the nodes of function
 calls

---
 hugr-core/src/hugr/views/sibling_subgraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views/sibling_subgraph.rs b/hugr-core/src/hugr/views/sibling_subgraph.rs
index c49e18a..ebe258b 100644
--- a/hugr-core/src/hugr/views/sibling_subgraph.rs
+++ b/hugr-core/src/hugr/views/sibling_subgraph.rs
@@ -1196,7 +1196,9 @@ fn validate_subgraph<H: HugrView>(
         return Err(InvalidSubgraph::UnsupportedEdgeKind(n, p));
     }
 
-    let boundary_ports = iter_io(inputs, outputs).collect_vec();
+    let boundary_ports = iter_io(inputs, outputs)
+        .chain(iter_incoming(function_calls).map(|(n, p)| (n, p.into())))
+        .collect_vec();
     // Check that the boundary ports are all in the subgraph.
     if let Some(&(n, p)) = boundary_ports.iter().find(|(n, _)| !node_set.contains(n)) {
         Err(InvalidSubgraphBoundary::PortNodeNotInSet(n, p))?;
-- 
2.43.0


From e0d3d2e7b6037c260ad2c90e633c1650d8ee10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 51/82] fix: linking a program whose entrypoint is the module
 or is not inserted

---
 hugr-core/src/hugr/linking.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/hugr/linking.rs b/hugr-core/src/hugr/linking.rs
index f20c006..6cc0c8b 100644
--- a/hugr-core/src/hugr/linking.rs
+++ b/hugr-core/src/hugr/linking.rs
@@ -86,9 +86,14 @@ pub trait HugrLinking: HugrMut {
         let transfers = check_directives(&other, parent, &children)?;
         let mut roots = HashMap::new();
         if let Some(parent) = parent {
-            roots.insert(other.entrypoint(), parent);
-            other.set_parent(other.entrypoint(), other.module_root());
+            let entrypoint = other.entrypoint();
+            roots.insert(entrypoint, parent);
+            if entrypoint != other.module_root() {
+                other.set_parent(entrypoint, other.module_root());
+            }
         };
+        // The entrypoint may be in a function that we do not insert.
+        other.set_entrypoint(other.module_root());
         for (ch, dirv) in children.iter() {
             roots.insert(*ch, self.module_root());
             if matches!(dirv, NodeLinkingDirective::UseExisting(_)) {
-- 
2.43.0


From f9dcaad454fe2e1b50079c1ef23477df499a7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:23 +0000
Subject: [PATCH 52/82] fix: persistent wires through edges inside a replaced
 subgraph

---
 hugr-persistent/src/wire.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-persistent/src/wire.rs b/hugr-persistent/src/wire.rs
index e1b38eb..0352bb9 100644
--- a/hugr-persistent/src/wire.rs
+++ b/hugr-persistent/src/wire.rs
@@ -121,6 +121,13 @@ impl PersistentWire {
                         // ports on the opposite end of the wire and boundary
                         // ports in the child commit that deleted the node.
                         for (opp_node, opp_port) in commit_hugr.linked_ports(node, port) {
+                            // Edges between two nodes deleted by the same commit do not
+                            // cross the boundary.
+                            let opp_status = per_hugr
+                                .node_status(per_hugr.to_persistent_node(opp_node, commit_id));
+                            if opp_status == NodeStatus::Deleted(deleted_by) {
+                                continue;
+                            }
                             for (child_node, child_port) in commit.linked_child_ports(
                                 opp_node,
                                 opp_port,
-- 
2.43.0


From db73735b216c424909a273dd29d0b00c165ab973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 53/82] fix: base commit lookup when an ancestor is reached
 twice

---
 hugr-persistent/src/commit.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hugr-persistent/src/commit.rs b/hugr-persistent/src/commit.rs
index ae6db1c..a0f7081 100644
--- a/hugr-persistent/src/commit.rs
+++ b/hugr-persistent/src/commit.rs
@@ -1,6 +1,6 @@
 //! [`Commit`] type and data associated with it.
 
-use std::{marker::PhantomData, mem};
+use std::{collections::BTreeSet, marker::PhantomData, mem};
 
 use delegate::delegate;
 use hugr_core::{
@@ -362,8 +362,20 @@ impl Commit<'_> {
 }
 
 fn get_base_ancestors(arg: &RelRc<CommitData, ()>) -> impl Iterator<Item = &RelRc<CommitData, ()>> {
-    arg.all_ancestors()
-        .filter(|c| matches!(c.value(), CommitData::Base(_)))
+    // Note: `RelRc::all_ancestors` stops at the first ancestor reached twice.
+    let mut seen = BTreeSet::new();
+    let mut stack = vec![arg];
+    let mut bases = vec![];
+    while let Some(rc) = stack.pop() {
+        if !seen.insert(rc.as_ptr()) {
+            continue;
+        }
+        if matches!(rc.value(), CommitData::Base(_)) {
+            bases.push(rc);
+        }
+        stack.extend(rc.all_parents());
+    }
+    bases.into_iter()
 }
 
 impl From<Commit<'_>> for RelRc<CommitData, ()> {
-- 
2.43.0


From 281e1d810c33a588a76441744541702cc0ff7290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 54/82] fix: Walker::expand terminates and returns every walker
 once

---
 hugr-persistent/src/walker.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hugr-persistent/src/walker.rs b/hugr-persistent/src/walker.rs
index eac2f05..4d1fbbe 100644
--- a/hugr-persistent/src/walker.rs
+++ b/hugr-persistent/src/walker.rs
@@ -281,6 +281,12 @@ impl<'a> Walker<'a> {
             Some(new_walker)
         });
 
+        // Different sets of empty commits may lead to the same walker.
+        let new_walkers = new_walkers.unique_by(|walker| {
+            let commits: BTreeSet<_> = walker.selected_commits.all_commit_ids().collect();
+            (commits, walker.pinned_nodes.clone())
+        });
+
         Either::Right(new_walkers)
     }
 
@@ -389,13 +395,14 @@ impl<'a> Walker<'a> {
     ) -> Vec<(PatchNode, Port, BTreeSet<CommitId>)> {
         // Now, perform a BFS to find all equivalent ports
         let mut all_ports = vec![(node, port, BTreeSet::new())];
+        let mut seen = BTreeSet::from_iter(all_ports.iter().cloned());
         let mut index = 0;
         while index < all_ports.len() {
             let (node, port, empty_commits) = all_ports[index].clone();
+            index += 1;
             let Some(commit) = self.state_space.try_upgrade(node.owner()) else {
                 continue;
             };
-            index += 1;
 
             for (child, (opp_node, opp_port)) in
                 commit.children_at_boundary_port(node.1, port, self.state_space)
@@ -407,7 +414,11 @@ impl<'a> Walker<'a> {
                     if node.owner() != child.id() {
                         empty_commits.insert(child.id());
                     }
-                    all_ports.push((node, port, empty_commits));
+                    // Empty commits may lead back to ports that were visited already.
+                    let equivalent_port = (node, port, empty_commits);
+                    if seen.insert(equivalent_port.clone()) {
+                        all_ports.push(equivalent_port);
+                    }
                 }
             }
         }
-- 
2.43.0


From 5132c6324dcf7348b418f40d6f0b5cac7853a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 55/82] fix: add commits after their ancestors and refuse
 replacements with unknown parents

---
 hugr-persistent/src/persistent_hugr.rs | 44 +++++++++++---------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/hugr-persistent/src/persistent_hugr.rs b/hugr-persistent/src/persistent_hugr.rs
index 01bbfd6..0df444a 100644
--- a/hugr-persistent/src/persistent_hugr.rs
+++ b/hugr-persistent/src/persistent_hugr.rs
@@ -195,6 +195,9 @@ impl PersistentHugr {
             .into_grouping_map()
             .collect::<BTreeSet<_>>();
         for (parent, new_invalid_nodes) in new_invalid_nodes {
+            if !self.contains_id(parent) {
+                return Err(InvalidCommit::UnknownParent(parent));
+            }
             let invalidation_set = self.deleted_nodes(parent).collect();
             if let Some(&node) = new_invalid_nodes.intersection(&invalidation_set).next() {
                 return Err(InvalidCommit::IncompatibleHistory(parent, node));
@@ -449,32 +452,23 @@ fn get_ancestors_while<'a>(
     continue_fn: impl Fn(&Commit) -> bool,
 ) -> VecDeque<Commit<'a>> {
     let mut seen_ids = BTreeSet::new();
-    let commits = commits.into_iter();
-    let mut all_commits = VecDeque::with_capacity(commits.size_hint().0);
-
-    for commit in commits {
-        if !seen_ids.insert(commit.as_ptr()) {
-            continue;
-        }
-        let start = all_commits.len();
-        let mut ind = start;
-        all_commits.push_back(commit);
-
-        while ind < all_commits.len() {
-            let commit = all_commits[ind].clone();
-            ind += 1;
-
-            if !continue_fn(&commit) {
-                continue;
-            }
-
-            for commit in commit.parents() {
-                if seen_ids.insert(commit.as_ptr()) {
-                    all_commits.push_back(commit.clone());
-                }
-            }
+    let mut all_commits = VecDeque::new();
+
+    // Depth-first traversal: a commit is added once all its ancestors were.
+    let mut stack = commits.into_iter().map(|c| (c, false)).collect_vec();
+    stack.reverse();
+    while let Some((commit, parents_done)) = stack.pop() {
+        if parents_done {
+            all_commits.push_front(commit);
+        } else if seen_ids.insert(commit.as_ptr()) {
+            let parents = if continue_fn(&commit) {
+                commit.parents().map(|p| (p.clone(), false)).collect_vec()
+            } else {
+                vec![]
+            };
+            stack.push((commit, true));
+            stack.extend(parents.into_iter().rev());
         }
-        all_commits.rotate_right(all_commits.len() - start);
     }
 
     all_commits
-- 
2.43.0


From 8b4b55e836598042c50fa0b3177357ef2261a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 56/82] fix: node bound of the petgraph wrapper when node
 indices have gaps

---
 hugr-core/src/hugr/views/petgraph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views/petgraph.rs b/hugr-core/src/hugr/views/petgraph.rs
index bff727b..1c5e6b8 100644
--- a/hugr-core/src/hugr/views/petgraph.rs
+++ b/hugr-core/src/hugr/views/petgraph.rs
@@ -66,7 +66,9 @@ where
     T::Node: NodeIndex + From<portgraph::NodeIndex>,
 {
     fn node_bound(&self) -> usize {
-        HugrView::num_nodes(self.hugr)
+        // Node indices may have gaps, e.g. after removing nodes.
+        let last_index = self.hugr.nodes().map(|n| n.index()).max();
+        last_index.map_or(0, |ix| ix + 1)
     }
 
     fn to_index(&self, ix: Self::NodeId) -> usize {
-- 
2.43.0


From 9543609aae0be42e2f74d7079d0947fc2ac6b18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:35 +0000
Subject: [PATCH 57/82] fix: extract_hugr of the module root makes it the
 entrypoint

---
 hugr-core/src/hugr/views.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/hugr/views.rs b/hugr-core/src/hugr/views.rs
index 474eea2..d22731d 100644
--- a/hugr-core/src/hugr/views.rs
+++ b/hugr-core/src/hugr/views.rs
@@ -714,7 +714,9 @@ impl HugrView for Hugr {
     fn extract_hugr(&self, target: Node) -> (Hugr, impl ExtractionResult<Node> + 'static) {
         // Shortcircuit if the extracted HUGR is the same as the original
         if target == self.module_root().node() {
-            return (self.clone(), DefaultNodeMap(HashMap::new()));
+            let mut extracted = self.clone();
+            extracted.set_entrypoint(target);
+            return (extracted, DefaultNodeMap(HashMap::new()));
         }
 
         // Initialize a new HUGR with the desired entrypoint operation.
-- 
2.43.0


From 8c32f87fb39ccf59500a8545e05c060c32a63422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 58/82] fix: resolve extensions in type parameters and alias
 definitions

---
 .../src/extension/resolution/extension.rs     | 16 ++++---
 hugr-core/src/extension/resolution/types.rs   | 39 +++++++++++-----
 .../src/extension/resolution/types_mut.rs     | 44 ++++++++++++-------
 hugr-core/src/extension/type_def.rs           |  5 +++
 hugr-core/src/types/poly_func.rs              |  5 +++
 5 files changed, 77 insertions(+), 32 deletions(-)

diff --git a/hugr-core/src/extension/resolution/extension.rs b/hugr-core/src/extension/resolution/extension.rs
index 05c0faf..9f63688 100644
--- a/hugr-core/src/extension/resolution/extension.rs
+++ b/hugr-core/src/extension/resolution/extension.rs
@@ -9,7 +9,7 @@ use std::sync::Arc;
 
 use crate::extension::{Extension, ExtensionId, ExtensionRegistry, OpDef, SignatureFunc, TypeDef};
 
-use super::types_mut::resolve_signature_exts;
+use super::types_mut::{resolve_poly_func_exts, resolve_term_exts};
 use super::{ExtensionResolutionError, WeakExtensionRegistry};
 
 impl ExtensionRegistry {
@@ -96,6 +96,10 @@ pub(super) fn resolve_typedef_exts(
         }
     }
 
+    for param in def.params_mut() {
+        resolve_term_exts(None, param, extensions, used_extensions)?;
+    }
+
     Ok(())
 }
 
@@ -146,14 +150,14 @@ pub(super) fn resolve_signature_func_exts(
     extensions: &WeakExtensionRegistry,
     used_extensions: &mut WeakExtensionRegistry,
 ) -> Result<(), ExtensionResolutionError> {
-    let signature_body = match signature {
-        SignatureFunc::PolyFuncType(p) => p.body_mut(),
-        SignatureFunc::CustomValidator(v) => v.poly_func_mut().body_mut(),
-        SignatureFunc::MissingValidateFunc(p) => p.body_mut(),
+    let poly_func = match signature {
+        SignatureFunc::PolyFuncType(p) => p,
+        SignatureFunc::CustomValidator(v) => v.poly_func_mut(),
+        SignatureFunc::MissingValidateFunc(p) => p,
         // Binary computation functions should always return valid types.
         SignatureFunc::CustomFunc(_) | SignatureFunc::MissingComputeFunc => {
             return Ok(());
         }
     };
-    resolve_signature_exts(None, signature_body, extensions, used_extensions)
+    resolve_poly_func_exts(None, poly_func, extensions, used_extensions)
 }
diff --git a/hugr-core/src/extension/resolution/types.rs b/hugr-core/src/extension/resolution/types.rs
index 45866d5..b8deaf6 100644
--- a/hugr-core/src/extension/resolution/types.rs
+++ b/hugr-core/src/extension/resolution/types.rs
@@ -11,7 +11,7 @@ use crate::Node;
 use crate::extension::{ExtensionRegistry, ExtensionSet};
 use crate::ops::{DataflowOpTrait, OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum};
 
 /// Collects every extension used to define the types in an operation.
 ///
@@ -42,17 +42,13 @@ pub(crate) fn collect_op_types_extensions(
             }
             collect_signature_exts(&ext.signature(), &mut used, &mut missing);
         }
-        OpType::FuncDefn(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
-        OpType::FuncDecl(f) => {
-            collect_signature_exts(f.signature().body(), &mut used, &mut missing)
-        }
+        OpType::FuncDefn(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
+        OpType::FuncDecl(f) => collect_poly_func_exts(f.signature(), &mut used, &mut missing),
         OpType::Const(c) => collect_value_exts(&c.value, &mut used, &mut missing),
         OpType::Input(inp) => collect_type_row_exts(&inp.types, &mut used, &mut missing),
         OpType::Output(out) => collect_type_row_exts(&out.types, &mut used, &mut missing),
         OpType::Call(c) => {
-            collect_signature_exts(c.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&c.func_sig, &mut used, &mut missing);
             collect_signature_exts(&c.instantiation, &mut used, &mut missing);
             for arg in &c.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -61,7 +57,7 @@ pub(crate) fn collect_op_types_extensions(
         OpType::CallIndirect(c) => collect_signature_exts(&c.signature, &mut used, &mut missing),
         OpType::LoadConstant(lc) => collect_type_exts(&lc.datatype, &mut used, &mut missing),
         OpType::LoadFunction(lf) => {
-            collect_signature_exts(lf.func_sig.body(), &mut used, &mut missing);
+            collect_poly_func_exts(&lf.func_sig, &mut used, &mut missing);
             collect_signature_exts(&lf.instantiation, &mut used, &mut missing);
             for arg in &lf.type_args {
                 collect_term_exts(arg, &mut used, &mut missing);
@@ -107,8 +103,11 @@ pub(crate) fn collect_op_types_extensions(
         OpType::Case(case) => {
             collect_signature_exts(&case.signature, &mut used, &mut missing);
         }
+        OpType::AliasDefn(alias) => {
+            collect_type_exts(&alias.definition, &mut used, &mut missing);
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
 
     if missing.is_empty() {
@@ -121,6 +120,26 @@ pub(crate) fn collect_op_types_extensions(
     }
 }
 
+/// Collect the Extension pointers in the [`CustomType`]s inside a polymorphic
+/// function type, including those in its parameters.
+///
+/// # Attributes
+///
+/// - `poly`: The function type to collect the extensions from.
+/// - `used_extensions`: A The registry where to store the used extensions.
+/// - `missing_extensions`: A set of `ExtensionId`s of which the
+///   `Weak<Extension>` pointer has been invalidated.
+fn collect_poly_func_exts<RV: MaybeRV>(
+    poly: &PolyFuncTypeBase<RV>,
+    used_extensions: &mut WeakExtensionRegistry,
+    missing_extensions: &mut ExtensionSet,
+) {
+    for param in poly.params() {
+        collect_term_exts(param, used_extensions, missing_extensions);
+    }
+    collect_signature_exts(poly.body(), used_extensions, missing_extensions);
+}
+
 /// Collect the Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// # Attributes
diff --git a/hugr-core/src/extension/resolution/types_mut.rs b/hugr-core/src/extension/resolution/types_mut.rs
index 359241f..55b8cac 100644
--- a/hugr-core/src/extension/resolution/types_mut.rs
+++ b/hugr-core/src/extension/resolution/types_mut.rs
@@ -10,7 +10,9 @@ use super::{ExtensionResolutionError, WeakExtensionRegistry};
 use crate::extension::ExtensionSet;
 use crate::ops::{OpType, Value};
 use crate::types::type_row::TypeRowBase;
-use crate::types::{CustomType, FuncTypeBase, MaybeRV, SumType, Term, TypeBase, TypeEnum};
+use crate::types::{
+    CustomType, FuncTypeBase, MaybeRV, PolyFuncTypeBase, SumType, Term, TypeBase, TypeEnum,
+};
 use crate::{Extension, Node};
 
 /// Replace the dangling extension pointer in the [`CustomType`]s inside an
@@ -35,20 +37,10 @@ pub fn resolve_op_types_extensions(
             resolve_signature_exts(node, ext.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDefn(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::FuncDecl(f) => {
-            resolve_signature_exts(
-                node,
-                f.signature_mut().body_mut(),
-                extensions,
-                used_extensions,
-            )?;
+            resolve_poly_func_exts(node, f.signature_mut(), extensions, used_extensions)?;
         }
         OpType::Const(c) => resolve_value_exts(node, &mut c.value, extensions, used_extensions)?,
         OpType::Input(inp) => {
@@ -58,7 +50,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_row_exts(node, &mut out.types, extensions, used_extensions)?;
         }
         OpType::Call(c) => {
-            resolve_signature_exts(node, c.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut c.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut c.instantiation, extensions, used_extensions)?;
             for arg in &mut c.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -71,7 +63,7 @@ pub fn resolve_op_types_extensions(
             resolve_type_exts(node, &mut lc.datatype, extensions, used_extensions)?;
         }
         OpType::LoadFunction(lf) => {
-            resolve_signature_exts(node, lf.func_sig.body_mut(), extensions, used_extensions)?;
+            resolve_poly_func_exts(node, &mut lf.func_sig, extensions, used_extensions)?;
             resolve_signature_exts(node, &mut lf.instantiation, extensions, used_extensions)?;
             for arg in &mut lf.type_args {
                 resolve_term_exts(node, arg, extensions, used_extensions)?;
@@ -119,12 +111,32 @@ pub fn resolve_op_types_extensions(
         OpType::Case(case) => {
             resolve_signature_exts(node, &mut case.signature, extensions, used_extensions)?;
         }
+        OpType::AliasDefn(alias) => {
+            resolve_type_exts(node, &mut alias.definition, extensions, used_extensions)?;
+        }
         // Ignore optypes that do not store a signature.
-        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => {}
+        OpType::Module(_) | OpType::AliasDecl(_) => {}
     }
     Ok(used.into_iter())
 }
 
+/// Update all weak Extension pointers in the [`CustomType`]s inside a
+/// polymorphic function type, including those in its parameters.
+///
+/// Adds the extensions used in the function type to the `used_extensions` registry.
+pub(super) fn resolve_poly_func_exts<RV: MaybeRV>(
+    node: Option<Node>,
+    poly: &mut PolyFuncTypeBase<RV>,
+    extensions: &WeakExtensionRegistry,
+    used_extensions: &mut WeakExtensionRegistry,
+) -> Result<(), ExtensionResolutionError> {
+    let (params, body) = poly.params_and_body_mut();
+    for param in params {
+        resolve_term_exts(node, param, extensions, used_extensions)?;
+    }
+    resolve_signature_exts(node, body, extensions, used_extensions)
+}
+
 /// Update all weak Extension pointers in the [`CustomType`]s inside a signature.
 ///
 /// Adds the extensions used in the signature to the `used_extensions` registry.
diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index b848c75..9e8b8f9 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -180,6 +180,11 @@ impl TypeDef {
         self.extension_ref.clone()
     }
 
+    /// Returns a mutable reference to the type parameters of the type def.
+    pub(super) fn params_mut(&mut self) -> &mut [TypeParam] {
+        &mut self.params
+    }
+
     /// Returns a mutable reference to the weak extension pointer in the type def.
     pub(super) fn extension_mut(&mut self) -> &mut Weak<Extension> {
         &mut self.extension_ref
diff --git a/hugr-core/src/types/poly_func.rs b/hugr-core/src/types/poly_func.rs
index 0769ef4..a85a51c 100644
--- a/hugr-core/src/types/poly_func.rs
+++ b/hugr-core/src/types/poly_func.rs
@@ -147,6 +147,11 @@ impl<RV: MaybeRV> PolyFuncTypeBase<RV> {
         Cow::Owned(format!("∀ {params_list}. ",))
     }
 
+    /// Returns mutable references to the type parameters and the body.
+    pub(crate) fn params_and_body_mut(&mut self) -> (&mut [TypeParam], &mut FuncTypeBase<RV>) {
+        (&mut self.params, &mut self.body)
+    }
+
     /// Returns a mutable reference to the body of the function type.
     pub fn body_mut(&mut self) -> &mut FuncTypeBase<RV> {
         &mut self.body
-- 
2.43.0


From da4548c498f2b44f68f18872f9e01c522460db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 59/82] fix: resolve the extensions packaged in model text

---
 hugr-core/src/envelope/reader.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 803b5b6..6a8f890 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -222,7 +222,11 @@ impl<R: BufRead> EnvelopeReader<R> {
                 .into_iter::<Vec<Extension>>()
                 .next()
                 .unwrap_or(Ok(vec![]))?;
-            ExtensionRegistry::new(extra_extensions.into_iter().map(std::sync::Arc::new))
+            ExtensionRegistry::new_with_extension_resolution(
+                extra_extensions,
+                &WeakExtensionRegistry::from(&self.registry),
+            )
+            .map_err(crate::extension::ExtensionRegistryLoadError::from)?
         } else {
             ExtensionRegistry::new([])
         };
-- 
2.43.0


From b5f761319fa0282111630dc6bb856fe40b27b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 60/82] fix: references to an extension given in two versions
 lead to the kept one

---
 hugr-core/src/extension.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hugr-core/src/extension.rs b/hugr-core/src/extension.rs
index c6dc2be..aa21ac3 100644
--- a/hugr-core/src/extension.rs
+++ b/hugr-core/src/extension.rs
@@ -281,8 +281,17 @@ impl ExtensionRegistry {
             })
             .unzip();
 
+        // If an extension appears more than once, refer to the one that is going to be kept.
         let mut weak_registry = WeakExtensionRegistry::default();
+        let mut versions: BTreeMap<&ExtensionId, &Version> = BTreeMap::new();
         for (ext, weak) in extensions.iter().zip(weaks) {
+            if versions
+                .get(ext.name())
+                .is_some_and(|v| *v >= ext.version())
+            {
+                continue;
+            }
+            versions.insert(ext.name(), ext.version());
             weak_registry.register(ext.name().clone(), weak);
         }
 
-- 
2.43.0


From 9666bad12e213d3fa805cf986d5171d242c90c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 61/82] fix: validate plain type schemes of operation
 definitions

---
 hugr-core/src/extension/op_def.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hugr-core/src/extension/op_def.rs b/hugr-core/src/extension/op_def.rs
index 70b7156..63b4c3f 100644
--- a/hugr-core/src/extension/op_def.rs
+++ b/hugr-core/src/extension/op_def.rs
@@ -464,11 +464,18 @@ impl OpDef {
     pub(super) fn validate(&self) -> Result<(), SignatureError> {
         // TODO https://github.com/CQCL/hugr/issues/624 validate declared TypeParams
         // for both type scheme and custom binary
-        if let SignatureFunc::CustomValidator(ts) = &self.signature_func {
+        let type_scheme = match &self.signature_func {
+            SignatureFunc::PolyFuncType(ts) => Some(ts),
+            SignatureFunc::CustomValidator(ts) => Some(&ts.poly_func),
+            SignatureFunc::CustomFunc(_)
+            | SignatureFunc::MissingComputeFunc
+            | SignatureFunc::MissingValidateFunc(_) => None,
+        };
+        if let Some(ts) = type_scheme {
             // The type scheme may contain row variables so be of variable length;
             // these will have to be substituted to fixed-length concrete types when
             // the OpDef is instantiated into an actual OpType.
-            ts.poly_func.validate()?;
+            ts.validate()?;
         }
         Ok(())
     }
-- 
2.43.0


From b29cad4e4c92f621b1b3134da6f6309b2f31e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 62/82] fix: CFGBuilder::branch refuses branches the block does
 not have

---
 hugr-core/src/builder/cfg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hugr-core/src/builder/cfg.rs b/hugr-core/src/builder/cfg.rs
index 5685602..014a1a5 100644
--- a/hugr-core/src/builder/cfg.rs
+++ b/hugr-core/src/builder/cfg.rs
@@ -296,6 +296,9 @@ impl<B: AsMut<Hugr> + AsRef<Hugr>> CFGBuilder<B> {
     ) -> Result<(), BuildError> {
         let from = predecessor.node();
         let to = successor.node();
+        if branch >= self.hugr().num_outputs(from) {
+            return Err(BuildError::WireNotFound(Wire::new(from, branch)));
+        }
         self.hugr_mut().connect(from, branch, to, 0);
         Ok(())
     }
-- 
2.43.0


From 6461ff717287989027ff552c9372be47f1910d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:12 +0000
Subject: [PATCH 63/82] fix: make_sum refuses tags the sum does not have

---
 hugr-core/src/builder.rs              |  5 +++++
 hugr-core/src/builder/build_traits.rs | 14 ++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/hugr-core/src/builder.rs b/hugr-core/src/builder.rs
index 3d5a251..3b00b4c 100644
--- a/hugr-core/src/builder.rs
+++ b/hugr-core/src/builder.rs
@@ -192,6 +192,11 @@ pub enum BuildError {
     #[error("Wire not found in Hugr: {0}.")]
     WireNotFound(Wire),
 
+    /// A sum was made with the tag of a variant it does not have.
+    #[error("Tag {tag} is invalid for a sum with {num_variants} variants.")]
+    #[allow(missing_docs)]
+    InvalidSumTag { tag: usize, num_variants: usize },
+
     /// Error in `CircuitBuilder`
     #[error("Error in CircuitBuilder: {0}.")]
     CircuitError(#[from] circuit::CircuitBuildError),
diff --git a/hugr-core/src/builder/build_traits.rs b/hugr-core/src/builder/build_traits.rs
index 1936c54..433216b 100644
--- a/hugr-core/src/builder/build_traits.rs
+++ b/hugr-core/src/builder/build_traits.rs
@@ -595,13 +595,15 @@ pub trait Dataflow: Container {
         variants: impl IntoIterator<Item = TypeRow>,
         values: impl IntoIterator<Item = Wire>,
     ) -> Result<Wire, BuildError> {
-        let make_op = self.add_dataflow_op(
-            Tag {
+        let variants = variants.into_iter().collect_vec();
+        if tag >= variants.len() {
+            return Err(BuildError::InvalidSumTag {
                 tag,
-                variants: variants.into_iter().collect_vec(),
-            },
-            values.into_iter().collect_vec(),
-        )?;
+                num_variants: variants.len(),
+            });
+        }
+        let make_op =
+            self.add_dataflow_op(Tag { tag, variants }, values.into_iter().collect_vec())?;
         Ok(make_op.out_wire(0))
     }
 
-- 
2.43.0


From de4ce0a9858b4de33badcad0bbd584d2e846045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 64/82] fix: builders refuse wires at ports that do not exist

---
 hugr-core/src/builder.rs              |  9 +++++++++
 hugr-core/src/builder/build_traits.rs | 24 ++++++++++++++++++++----
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/hugr-core/src/builder.rs b/hugr-core/src/builder.rs
index 3b00b4c..53c5ea3 100644
--- a/hugr-core/src/builder.rs
+++ b/hugr-core/src/builder.rs
@@ -262,6 +262,15 @@ pub enum BuilderWiringError {
         dst_offset: Port,
         typ: Box<Type>,
     },
+    /// The wire starts or ends at a port that does not exist.
+    #[error("No such port. Tried connecting {src} ({src_offset}) with {dst} ({dst_offset}).")]
+    #[allow(missing_docs)]
+    PortNotFound {
+        src: Node,
+        src_offset: Port,
+        dst: Node,
+        dst_offset: Port,
+    },
 }
 
 #[cfg(test)]
diff --git a/hugr-core/src/builder/build_traits.rs b/hugr-core/src/builder/build_traits.rs
index 433216b..ce1bd38 100644
--- a/hugr-core/src/builder/build_traits.rs
+++ b/hugr-core/src/builder/build_traits.rs
@@ -5,7 +5,7 @@ use crate::hugr::views::HugrView;
 use crate::hugr::{NodeMetadata, ValidationError};
 use crate::ops::{self, OpTag, OpTrait, OpType, Tag, TailLoop};
 use crate::utils::collect_array;
-use crate::{Extension, IncomingPort, Node, OutgoingPort};
+use crate::{Extension, IncomingPort, Node, OutgoingPort, PortIndex};
 
 use std::collections::HashMap;
 use std::iter;
@@ -790,7 +790,20 @@ fn wire_up<T: Dataflow + ?Sized>(
     let src_parent_parent = src_parent.and_then(|src| base.get_parent(src));
     let dst_parent = base.get_parent(dst);
     let local_source = src_parent == dst_parent;
-    if let EdgeKind::Value(typ) = base.get_optype(src).port_kind(src_port).unwrap() {
+    let port_not_found = || BuilderWiringError::PortNotFound {
+        src,
+        src_offset: src_port.into(),
+        dst,
+        dst_offset: dst_port.into(),
+    };
+    if src_port.index() >= base.num_outputs(src) || dst_port.index() >= base.num_inputs(dst) {
+        return Err(port_not_found());
+    }
+    let src_kind = base
+        .get_optype(src)
+        .port_kind(src_port)
+        .ok_or_else(port_not_found)?;
+    if let EdgeKind::Value(typ) = src_kind {
         if !local_source {
             // Non-local value sources require a state edge to an ancestor of dst
             if !typ.copyable() {
@@ -821,10 +834,13 @@ fn wire_up<T: Dataflow + ?Sized>(
                 });
             };
 
+            let sibling_op = base.get_optype(src_sibling);
             if !OpTag::ControlFlowChild.is_superset(base.get_optype(src).tag())
-                && !OpTag::ControlFlowChild.is_superset(base.get_optype(src_sibling).tag())
+                && !OpTag::ControlFlowChild.is_superset(sibling_op.tag())
+                && sibling_op.other_input_port().is_some()
             {
-                // Add a state order constraint unless one of the nodes is a CFG BasicBlock
+                // Add a state order constraint unless one of the nodes is a CFG
+                // BasicBlock (or cannot take one, in which case the edge is invalid)
                 base.add_other_edge(src, src_sibling);
             }
         } else if !typ.copyable() & base.linked_ports(src, src_port).next().is_some() {
-- 
2.43.0


From 41b7bbd61a8458e5ada29d2a264ef5e91ecd172a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 65/82] fix: linearizing copies through calls reports an error
 instead of panicking

---
 hugr-passes/src/replace_types/handlers.rs  | 15 ++++--------
 hugr-passes/src/replace_types/linearize.rs | 27 +++++++++++++++++-----
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/hugr-passes/src/replace_types/handlers.rs b/hugr-passes/src/replace_types/handlers.rs
index b11c49e..9b3f306 100644
--- a/hugr-passes/src/replace_types/handlers.rs
+++ b/hugr-passes/src/replace_types/handlers.rs
@@ -24,6 +24,7 @@ use hugr_core::type_row;
 use hugr_core::types::{SumType, Transformable, Type, TypeArg};
 use itertools::Itertools;
 
+use super::linearize::add_nested;
 use super::{
     CallbackHandler, LinearizeError, Linearizer, NodeTemplate, ReplaceTypes, ReplaceTypesError,
 };
@@ -119,11 +120,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
         let map_fn = {
             let mut dfb = DFGBuilder::new(inout_sig(ty.clone(), Type::UNIT)).unwrap();
             let [to_discard] = dfb.input_wires_arr();
-            lin.copy_discard_op(ty, 0)?
-                .add(&mut dfb, [to_discard])
-                .map_err(|e| {
-                    LinearizeError::NestedTemplateError(Box::new(ty.clone()), Box::new(e))
-                })?;
+            let template = lin.copy_discard_op(ty, 0)?;
+            add_nested(template, ty, &mut dfb, to_discard)?;
             let ret = dfb.add_load_value(Value::unary_unit_sum());
             dfb.finish_hugr_with_outputs([ret]).unwrap()
         };
@@ -193,11 +191,8 @@ pub fn linearize_generic_array<AK: ArrayKind>(
             .add_dataflow_op(ConvertOpDef::itousize.without_log_width(), [idx])
             .unwrap()
             .outputs_arr();
-        let mut copies = lin
-            .copy_discard_op(ty, num_outports)?
-            .add(&mut dfb, [elem])
-            .map_err(|e| LinearizeError::NestedTemplateError(Box::new(ty.clone()), Box::new(e)))?
-            .outputs();
+        let template = lin.copy_discard_op(ty, num_outports)?;
+        let mut copies = add_nested(template, ty, &mut dfb, elem)?.outputs();
         let copy0 = copies.next().unwrap(); // We'll return this directly
 
         // Wrap each remaining copy into an option
diff --git a/hugr-passes/src/replace_types/linearize.rs b/hugr-passes/src/replace_types/linearize.rs
index 47e3a1f..87e9412 100644
--- a/hugr-passes/src/replace_types/linearize.rs
+++ b/hugr-passes/src/replace_types/linearize.rs
@@ -1,10 +1,11 @@
 use std::{collections::HashMap, sync::Arc};
 
 use hugr_core::builder::{
-    BuildError, ConditionalBuilder, DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer,
-    HugrBuilder, inout_sig,
+    BuildError, BuildHandle, ConditionalBuilder, DFGBuilder, Dataflow, DataflowHugr,
+    DataflowSubContainer, HugrBuilder, inout_sig,
 };
 use hugr_core::extension::{SignatureError, TypeDef};
+use hugr_core::ops::handle::DataflowOpID;
 use hugr_core::std_extensions::collections::array::array_type_def;
 use hugr_core::std_extensions::collections::borrow_array::borrow_array_type_def;
 use hugr_core::std_extensions::collections::value_array::value_array_type_def;
@@ -260,6 +261,21 @@ fn check_sig(tmpl: &NodeTemplate, typ: &Type, num_outports: usize) -> Result<(),
         })
 }
 
+/// Adds a template for copying/discarding a value of type `typ` to a Hugr being built
+/// to contain it. That Hugr cannot contain the target of a [`NodeTemplate::Call`].
+pub(super) fn add_nested(
+    template: NodeTemplate,
+    typ: &Type,
+    dfb: &mut impl Dataflow,
+    input: Wire,
+) -> Result<BuildHandle<DataflowOpID>, LinearizeError> {
+    match template {
+        NodeTemplate::Call(node, _) => Err(BuildError::NodeNotFound { node }),
+        template => template.add(dfb, [input]),
+    }
+    .map_err(|e| LinearizeError::NestedTemplateError(Box::new(typ.clone()), Box::new(e)))
+}
+
 impl Linearizer for DelegatingLinearizer {
     fn copy_discard_op(
         &self,
@@ -290,9 +306,8 @@ impl Linearizer for DelegatingLinearizer {
                         let inp_copies = if ty.copyable() {
                             std::iter::repeat_n(inp, num_outports).collect::<Vec<_>>()
                         } else {
-                            self.copy_discard_op(ty, num_outports)?
-                                .add(&mut case_b, [inp])
-                                .unwrap()
+                            let template = self.copy_discard_op(ty, num_outports)?;
+                            add_nested(template, ty, &mut case_b, inp)?
                                 .outputs()
                                 .collect()
                         };
@@ -332,7 +347,7 @@ impl Linearizer for DelegatingLinearizer {
                         let mut outputs = vec![];
                         for _ in 0..num_outports - 1 {
                             let [out0, out1] =
-                                copy.clone().add(&mut dfb, [src]).unwrap().outputs_arr();
+                                add_nested(copy.clone(), typ, &mut dfb, src)?.outputs_arr();
                             outputs.push(out0);
                             src = out1;
                         }
-- 
2.43.0


From 363e166fec8d6e1c861f518e52029a77e4492e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 66/82] fix: ReplaceTypes refuses to leave a non-local edge of
 linear type

---
 hugr-passes/src/replace_types.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hugr-passes/src/replace_types.rs b/hugr-passes/src/replace_types.rs
index a6167a5..91d1eb0 100644
--- a/hugr-passes/src/replace_types.rs
+++ b/hugr-passes/src/replace_types.rs
@@ -750,7 +750,20 @@ impl ReplaceTypes {
             for outp in new_sig.output_ports() {
                 if !new_sig.out_port_type(outp).unwrap().copyable() {
                     let targets = hugr.linked_inputs(n, outp).collect::<Vec<_>>();
-                    if targets.len() != 1 {
+                    if let [(tgt, _)] = targets[..] {
+                        // No copy/discard needed, but a linear edge must be local.
+                        match (hugr.get_parent(n), hugr.get_parent(tgt)) {
+                            (Some(src_parent), Some(tgt_parent)) if src_parent != tgt_parent => {
+                                return Err(LinearizeError::NoLinearNonLocalEdges {
+                                    src: n,
+                                    src_parent,
+                                    tgt,
+                                    tgt_parent,
+                                });
+                            }
+                            _ => {}
+                        }
+                    } else {
                         hugr.disconnect(n, outp);
                         let src = Wire::new(n, outp);
                         self.linearize.insert_copy_discard(hugr, src, &targets)?;
-- 
2.43.0


From b4ba46a81846d41eee65e41534026d6c8e1d5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:29 +0000
Subject: [PATCH 67/82] fix: dataflow analysis knows nothing about results of
 declared functions

---
 hugr-passes/src/dataflow/datalog.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/hugr-passes/src/dataflow/datalog.rs b/hugr-passes/src/dataflow/datalog.rs
index 8ac6f93..eb412d8 100644
--- a/hugr-passes/src/dataflow/datalog.rs
+++ b/hugr-passes/src/dataflow/datalog.rs
@@ -351,6 +351,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        // Nothing is known about the results of functions that are only declared
+        out_wire_value(call, p, PV::Top) <--
+            func_call(call, func),
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // CallIndirect --------------------
         lattice indirect_call(H::Node, LatticeWrapper<H::Node>); // <Node> is an `IndirectCall` to `FuncDefn` <Node>
         indirect_call(call, tgt) <--
@@ -372,6 +378,12 @@ pub(super) fn run_datalog<V: AbstractValue, H: HugrView>(
             output_child(func, outp),
             in_wire_value(outp, p, v);
 
+        out_wire_value(call, p, PV::Top) <--
+            indirect_call(call, lv),
+            if let LatticeWrapper::Value(func) = lv,
+            if hugr.get_optype(*func).is_func_decl(),
+            out_wire(call, p);
+
         // Default out-value is Bottom, but if we can't determine the called function,
         // assign everything to Top
         out_wire_value(call, p, PV::Top) <--
-- 
2.43.0


From d013ae090b9342fedc8cbc56032f2556b1d3a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 68/82] fix: linearizing sums with type variables reports an
 error instead of panicking

---
 hugr-passes/src/replace_types/linearize.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-passes/src/replace_types/linearize.rs b/hugr-passes/src/replace_types/linearize.rs
index 87e9412..0c57154 100644
--- a/hugr-passes/src/replace_types/linearize.rs
+++ b/hugr-passes/src/replace_types/linearize.rs
@@ -329,9 +329,11 @@ impl Linearizer for DelegatingLinearizer {
                         .collect::<Vec<_>>(); // must collect to end borrow of `case_b` by closure
                     case_b.finish_with_outputs(outputs).unwrap();
                 }
-                Ok(NodeTemplate::CompoundOp(Box::new(
-                    cb.finish_hugr().unwrap(),
-                )))
+                // Fails e.g. if the type mentions variables of a polymorphic function
+                let hugr = cb.finish_hugr().map_err(|e| {
+                    LinearizeError::NestedTemplateError(Box::new(typ.clone()), Box::new(e.into()))
+                })?;
+                Ok(NodeTemplate::CompoundOp(Box::new(hugr)))
             }
             TypeEnum::Extension(cty) => {
                 if let Some((copy, discard)) = self.copy_discard.get(cty) {
-- 
2.43.0


From dba1e96bf88e1cf6d94a25e5526a215c66e4e0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:24 +0000
Subject: [PATCH 69/82] fix: partial sums report unchanged meets and hash
 consistently

---
 hugr-passes/src/dataflow/partial_value.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hugr-passes/src/dataflow/partial_value.rs b/hugr-passes/src/dataflow/partial_value.rs
index 3ca23fb..d9bf623 100644
--- a/hugr-passes/src/dataflow/partial_value.rs
+++ b/hugr-passes/src/dataflow/partial_value.rs
@@ -156,8 +156,6 @@ impl<V: AbstractValue, N: PartialEq + PartialOrd> PartialSum<V, N> {
                 for (lhs, rhs) in zip_eq(row.iter_mut(), v.into_iter()) {
                     changed |= lhs.meet_mut(rhs);
                 }
-            } else {
-                keys_to_remove.push(k);
             }
         }
         for k in keys_to_remove {
@@ -305,7 +303,8 @@ impl<V: std::fmt::Debug, N: std::fmt::Debug> std::fmt::Debug for PartialSum<V, N
 
 impl<V: Hash, N: Hash> Hash for PartialSum<V, N> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        for (k, v) in &self.0 {
+        // Equal sums may iterate over their variants in different orders
+        for (k, v) in self.0.iter().sorted_by_key(|(k, _)| **k) {
             k.hash(state);
             v.hash(state);
         }
-- 
2.43.0


From 41ec6aecc0c1b3ce596441676eb54a482e0f925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 70/82] fix: model text keywords end where a name goes on, and
 function terms are parsed

---
 hugr-model/src/v0/ast/hugr.pest | 37 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/hugr-model/src/v0/ast/hugr.pest b/hugr-model/src/v0/ast/hugr.pest
index 5e19e08..78eafb8 100644
--- a/hugr-model/src/v0/ast/hugr.pest
+++ b/hugr-model/src/v0/ast/hugr.pest
@@ -3,7 +3,7 @@ COMMENT            = _{ ";" ~ (!("\n") ~ ANY)* ~ "\n" }
 identifier         = @{ identifier_initial ~ identifier_rest* }
 identifier_initial = @{ ASCII_ALPHA | "_" | "-" }
 identifier_rest    = @{ ASCII_ALPHANUMERIC | "_" | "-" }
-symbol_name        = @{ !(reserved ~ !(identifier_rest | ".")) ~ (identifier ~ ("." ~ identifier)*) }
+symbol_name        = @{ !keyword ~ (identifier ~ ("." ~ identifier)*) }
 link_name          = @{ "%" ~ (ASCII_ALPHANUMERIC | "_" | "-")* }
 
 literal = { literal_string | literal_float | literal_nat | literal_bytes }
@@ -22,6 +22,7 @@ reserved = @{
   | "cfg"
   | "block"
   | "define-func"
+  | "define-alias"
   | "declare-func"
   | "declare-operation"
   | "declare-ctr"
@@ -29,9 +30,13 @@ reserved = @{
   | "tail-loop"
   | "cond"
   | "import"
+  | "_"
   | "..."
 }
 
+// A reserved word that is not the beginning of a longer name such as `importer`.
+keyword = @{ reserved ~ !(identifier_rest | "." ~ identifier_initial) }
+
 literal_string         = ${ "\"" ~ (literal_string_raw | literal_string_escape | literal_string_unicode)* ~ "\"" }
 literal_string_raw     = @{ (!("\\" | "\"") ~ ANY)+ }
 literal_string_escape  = @{ "\\" ~ ("\"" | "\\" | "n" | "r" | "t") }
@@ -47,7 +52,7 @@ base64_string = { "\"" ~ (ASCII_ALPHANUMERIC | "+" | "/")* ~ "="* ~ "\"" }
 package = { "(" ~ "hugr" ~ "0" ~ ")" ~ module* ~ EOI }
 module  = { "(" ~ "mod" ~ ")" ~ meta* ~ node* }
 
-meta = { "(" ~ "meta" ~ term ~ ")" }
+meta = { "(" ~ &keyword ~ "meta" ~ term ~ ")" }
 
 port_list  =  { "[" ~ link_name* ~ "]" }
 port_lists = _{ port_list ~ port_list }
@@ -71,24 +76,26 @@ node = {
 node_dfg               = { "(" ~ "dfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 node_cfg               = { "(" ~ "cfg" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 node_block             = { "(" ~ "block" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_define_func       = { "(" ~ "define-func" ~ symbol ~ meta* ~ region* ~ ")" }
-node_declare_func      = { "(" ~ "declare-func" ~ symbol ~ meta* ~ ")" }
-node_define_alias      = { "(" ~ "define-alias" ~ symbol ~ term ~ meta* ~ ")" }
-node_declare_alias     = { "(" ~ "declare-alias" ~ symbol ~ meta* ~ ")" }
-node_declare_ctr       = { "(" ~ "declare-ctr" ~ symbol ~ meta* ~ ")" }
-node_declare_operation = { "(" ~ "declare-operation" ~ symbol ~ meta* ~ ")" }
+node_define_func       = { "(" ~ &keyword ~ "define-func" ~ symbol ~ meta* ~ region* ~ ")" }
+node_declare_func      = { "(" ~ &keyword ~ "declare-func" ~ symbol ~ meta* ~ ")" }
+node_define_alias      = { "(" ~ &keyword ~ "define-alias" ~ symbol ~ term ~ meta* ~ ")" }
+node_declare_alias     = { "(" ~ &keyword ~ "declare-alias" ~ symbol ~ meta* ~ ")" }
+node_declare_ctr       = { "(" ~ &keyword ~ "declare-ctr" ~ symbol ~ meta* ~ ")" }
+node_declare_operation = { "(" ~ &keyword ~ "declare-operation" ~ symbol ~ meta* ~ ")" }
 node_tail_loop         = { "(" ~ "tail-loop" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 node_cond              = { "(" ~ "cond" ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
-node_import            = { "(" ~ "import" ~ symbol_name ~ meta* ~ ")" }
+node_import            = { "(" ~ &keyword ~ "import" ~ symbol_name ~ meta* ~ ")" }
 node_custom            = { "(" ~ term ~ port_lists? ~ signature? ~ meta* ~ region* ~ ")" }
 
-visibility = { "public" | "private" }
+visibility = { &keyword ~ ("public" | "private") }
 
 symbol = { visibility? ~ symbol_name ~ param* ~ where_clause* ~ term }
 
-signature    = { "(" ~ "signature" ~ term ~ ")" }
+signature    = { "(" ~ &keyword ~ "signature" ~ term ~ ")" }
+where_keyword = @{ "where" ~ !(identifier_rest | "." ~ identifier_initial) }
+
 param        = { "(" ~ "param" ~ term_var ~ term ~ ")" }
-where_clause = { "(" ~ "where" ~ term ~ ")" }
+where_clause = { "(" ~ &where_keyword ~ "where" ~ term ~ ")" }
 
 region      = { "(" ~ region_kind ~ port_lists? ~ signature? ~ meta* ~ node* ~ ")" }
 region_kind = { "dfg" | "cfg" | "mod" }
@@ -103,12 +110,12 @@ term = {
   | term_apply
 }
 
-term_wildcard   = @{ "_" ~ !(ASCII_ALPHANUMERIC | "_" | "-") }
+term_wildcard   = @{ "_" ~ !(identifier_rest | "." ~ identifier_initial) }
 term_var        = @{ "?" ~ identifier_rest+ }
 term_apply      =  { symbol_name | ("(" ~ symbol_name ~ term* ~ ")") }
 term_list       =  { "[" ~ part* ~ "]" }
-term_tuple      =  { "(" ~ "tuple" ~ part* ~ ")" }
-term_const_func =  { "(" ~ "fn" ~ term ~ ")" }
+term_tuple      =  { "(" ~ &keyword ~ "tuple" ~ part* ~ ")" }
+term_const_func =  { "(" ~ "fn" ~ region ~ ")" }
 
 part         = { spliced_term | term }
 spliced_term = { term ~ "..." }
-- 
2.43.0


From 3f23e6c8aa3d40eda12df5269a6f4083119d179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 71/82] fix: binary model keeps the constraints of aliases

---
 hugr-model/src/v0/binary/read.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/hugr-model/src/v0/binary/read.rs b/hugr-model/src/v0/binary/read.rs
index ae44ebb..2a35582 100644
--- a/hugr-model/src/v0/binary/read.rs
+++ b/hugr-model/src/v0/binary/read.rs
@@ -168,21 +168,19 @@ fn read_operation<'a>(
         Which::Dfg(()) => table::Operation::Dfg,
         Which::Cfg(()) => table::Operation::Cfg,
         Which::Block(()) => table::Operation::Block,
-        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?, None)?),
-        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?, None)?),
+        Which::FuncDefn(reader) => table::Operation::DefineFunc(read_symbol(bump, reader?)?),
+        Which::FuncDecl(reader) => table::Operation::DeclareFunc(read_symbol(bump, reader?)?),
         Which::AliasDefn(reader) => {
             let symbol = reader.get_symbol()?;
             let value = table::TermId(reader.get_value());
-            table::Operation::DefineAlias(read_symbol(bump, symbol, Some(&[]))?, value)
-        }
-        Which::AliasDecl(reader) => {
-            table::Operation::DeclareAlias(read_symbol(bump, reader?, Some(&[]))?)
+            table::Operation::DefineAlias(read_symbol(bump, symbol)?, value)
         }
+        Which::AliasDecl(reader) => table::Operation::DeclareAlias(read_symbol(bump, reader?)?),
         Which::ConstructorDecl(reader) => {
-            table::Operation::DeclareConstructor(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareConstructor(read_symbol(bump, reader?)?)
         }
         Which::OperationDecl(reader) => {
-            table::Operation::DeclareOperation(read_symbol(bump, reader?, None)?)
+            table::Operation::DeclareOperation(read_symbol(bump, reader?)?)
         }
         Which::Custom(operation) => table::Operation::Custom(table::TermId(operation)),
         Which::TailLoop(()) => table::Operation::TailLoop,
@@ -242,20 +240,15 @@ impl From<hugr_capnp::Visibility> for Option<model::Visibility> {
     }
 }
 
-/// (Only) if `constraints` are None, then they are read from the `reader`
 fn read_symbol<'a>(
     bump: &'a Bump,
     reader: hugr_capnp::symbol::Reader,
-    constraints: Option<&'a [table::TermId]>,
 ) -> ReadResult<&'a mut table::Symbol<'a>> {
     let name = bump.alloc_str(reader.get_name()?.to_str()?);
     let visibility = reader.get_visibility()?.into();
     let visibility = bump.alloc(visibility);
     let params = read_list!(bump, reader.get_params()?, read_param);
-    let constraints = match constraints {
-        Some(cs) => cs,
-        None => read_scalar_list!(bump, reader, get_constraints, table::TermId),
-    };
+    let constraints = read_scalar_list!(bump, reader, get_constraints, table::TermId);
     let signature = table::TermId(reader.get_signature());
     Ok(bump.alloc(table::Symbol {
         visibility,
-- 
2.43.0


From 35c98a311a7e42bd0d8be914d42af85272db753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 72/82] fix: SymbolTable::is_visible for symbols that shadow
 others

---
 hugr-model/src/v0/scope/symbol.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hugr-model/src/v0/scope/symbol.rs b/hugr-model/src/v0/scope/symbol.rs
index 52ca937..1131b68 100644
--- a/hugr-model/src/v0/scope/symbol.rs
+++ b/hugr-model/src/v0/scope/symbol.rs
@@ -120,12 +120,12 @@ impl<'a> SymbolTable<'a> {
     /// Check whether a symbol is currently visible in the current scope.
     #[must_use]
     pub fn is_visible(&self, node: NodeId) -> bool {
-        let Some(binding) = self.bindings.get(&node) else {
+        let Some((binding_index, _, binding)) = self.bindings.get_full(&node) else {
             return false;
         };
 
         // Check that the symbol has not been shadowed at this point.
-        self.symbols[binding.symbol_index] == binding.symbol_index
+        self.symbols[binding.symbol_index] == binding_index
     }
 
     /// Tries to resolve a symbol name in the current scope.
-- 
2.43.0


From 5e5b60002eee39f8106d120b7ae8fd787b5e98f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:12 +0000
Subject: [PATCH 73/82] fix: viewing a table with an unknown parameter does not
 panic

---
 hugr-model/src/v0/ast/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-model/src/v0/ast/view.rs b/hugr-model/src/v0/ast/view.rs
index 84770c4..52963bf 100644
--- a/hugr-model/src/v0/ast/view.rs
+++ b/hugr-model/src/v0/ast/view.rs
@@ -148,7 +148,7 @@ impl<'a> View<'a, VarId> for VarName {
             _ => return None,
         };
 
-        let param = &symbol.params[id.1 as usize];
+        let param = symbol.params.get(id.1 as usize)?;
         Some(Self(param.name.into()))
     }
 }
-- 
2.43.0


From 195ec4a13c801e6b79929c824ba16984c1798e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 74/82] fix: inconsistent node and edge lists in JSON are
 refused instead of panicking

---
 hugr-core/src/core.rs           | 16 +++++-
 hugr-core/src/hugr/serialize.rs | 98 +++++++++++++++++++++++++++++++--
 2 files changed, 105 insertions(+), 9 deletions(-)

diff --git a/hugr-core/src/core.rs b/hugr-core/src/core.rs
index 4578aa5..0df72c2 100644
--- a/hugr-core/src/core.rs
+++ b/hugr-core/src/core.rs
@@ -10,14 +10,24 @@ use itertools::Either::{Left, Right};
 use crate::{HugrView, hugr::HugrError};
 
 /// A handle to a node in the HUGR.
-#[derive(
-    Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize, serde::Deserialize,
-)]
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, From, serde::Serialize)]
 #[serde(transparent)]
 pub struct Node {
     index: portgraph::NodeIndex,
 }
 
+impl<'de> serde::Deserialize<'de> for Node {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let index = usize::deserialize(deserializer)?;
+        portgraph::NodeIndex::try_from(index)
+            .map(Self::from)
+            .map_err(|_| serde::de::Error::custom(format!("node index {index} is too large")))
+    }
+}
+
 /// A handle to a port for a node in the HUGR.
 #[derive(
     Clone,
diff --git a/hugr-core/src/hugr/serialize.rs b/hugr-core/src/hugr/serialize.rs
index 5ddc9e3..4c3f352 100644
--- a/hugr-core/src/hugr/serialize.rs
+++ b/hugr-core/src/hugr/serialize.rs
@@ -11,7 +11,7 @@ use crate::ops::OpType;
 use crate::types::EdgeKind;
 use crate::{Node, PortIndex};
 use portgraph::hierarchy::AttachError;
-use portgraph::{Direction, LinkError, PortView};
+use portgraph::{Direction, LinkError, PortView as _};
 
 use serde::{Deserialize, Deserializer, Serialize};
 
@@ -134,6 +134,45 @@ pub enum HUGRSerializationError {
         /// The node that has the port without offset.
         node: Node,
     },
+    /// An edge with a port offset that its node does not have.
+    #[error("The edge endpoint {node} has no {dir:?} port with offset {offset}.")]
+    UnknownEdgePort {
+        /// The endpoint of the edge.
+        node: Node,
+        /// The direction of the missing port.
+        dir: Direction,
+        /// The offset of the missing port.
+        offset: usize,
+    },
+    /// A node whose parent is not in the node list.
+    #[error("The parent {parent} of a node is not a node in the graph.")]
+    UnknownParent {
+        /// The index of the parent.
+        parent: Node,
+    },
+    /// A node that is its own ancestor.
+    #[error("The ancestors of node {node} do not include the root of the hierarchy.")]
+    CyclicHierarchy {
+        /// The node.
+        node: Node,
+    },
+    /// An entrypoint that is not in the node list.
+    #[error("The entrypoint {node} is not a node in the graph.")]
+    UnknownEntrypoint {
+        /// The index of the entrypoint.
+        node: Node,
+    },
+    /// A [`Tag`][crate::ops::Tag] operation that selects a variant that does not exist.
+    #[error("A `Tag` operation has tag {tag}, but its sum type has {num_variants} variants.")]
+    InvalidTag {
+        /// The tag of the operation.
+        tag: usize,
+        /// The number of variants of the sum type.
+        num_variants: usize,
+    },
+    /// There are no nodes.
+    #[error("The node list is empty.")]
+    NoNodes,
     /// First node in node list must be the HUGR root.
     #[error("The first node in the node list has parent {0}, should be itself (index 0)")]
     FirstNodeNotRoot(Node),
@@ -260,13 +299,52 @@ impl TryFrom<SerHugrLatest> for Hugr {
             entrypoint,
         }: SerHugrLatest,
     ) -> Result<Self, Self::Error> {
+        let num_nodes = nodes.len();
+        for node in &nodes {
+            if node.parent.index() >= num_nodes {
+                return Err(HUGRSerializationError::UnknownParent {
+                    parent: node.parent,
+                });
+            }
+            if let OpType::Tag(tag) = &node.op {
+                if tag.tag >= tag.variants.len() {
+                    return Err(HUGRSerializationError::InvalidTag {
+                        tag: tag.tag,
+                        num_variants: tag.variants.len(),
+                    });
+                }
+            }
+        }
+        if let Some(node) = entrypoint.filter(|node| node.index() >= num_nodes) {
+            return Err(HUGRSerializationError::UnknownEntrypoint { node });
+        }
+
+        // Nodes may come before their parents, but must be descendants of the root.
+        let mut below_root = vec![false; num_nodes];
+        let mut path = Vec::new();
+        for start in 1..num_nodes {
+            let mut node = start;
+            while node != 0 && !below_root[node] {
+                if path.len() == num_nodes {
+                    return Err(HUGRSerializationError::CyclicHierarchy {
+                        node: portgraph::NodeIndex::new(start).into(),
+                    });
+                }
+                path.push(node);
+                node = nodes[node].parent.index();
+            }
+            for node in path.drain(..) {
+                below_root[node] = true;
+            }
+        }
+
         // Root must be first node
         let mut nodes = nodes.into_iter();
         let NodeSer {
             parent: root_parent,
             op: root_type,
             ..
-        } = nodes.next().unwrap();
+        } = nodes.next().ok_or(HUGRSerializationError::NoNodes)?;
         if root_parent.index() != 0 {
             return Err(HUGRSerializationError::FirstNodeNotRoot(root_parent));
         }
@@ -282,7 +360,10 @@ impl TryFrom<SerHugrLatest> for Hugr {
             |node: Node| -> Node { portgraph::NodeIndex::new(node.index() + padding_nodes).into() };
 
         for node_ser in nodes {
-            hugr.add_node_with_parent(hugr_node(node_ser.parent), node_ser.op);
+            let node = hugr.as_mut().add_node(node_ser.op);
+            let parent = hugr_node(node_ser.parent);
+            hugr.hierarchy
+                .push_child(node.into_portgraph(), parent.into_portgraph())?;
         }
 
         if let Some(entrypoint) = entrypoint {
@@ -299,9 +380,6 @@ impl TryFrom<SerHugrLatest> for Hugr {
         }
 
         let unwrap_offset = |node: Node, offset, dir, hugr: &Hugr| -> Result<usize, Self::Error> {
-            if !hugr.graph.contains_node(node.into_portgraph()) {
-                return Err(HUGRSerializationError::UnknownEdgeNode { node });
-            }
             let offset = if let Some(offset) = offset {
                 offset as usize
             } else {
@@ -315,9 +393,17 @@ impl TryFrom<SerHugrLatest> for Hugr {
                     })?
                     .index()
             };
+            if offset >= hugr.num_ports(node, dir) {
+                return Err(HUGRSerializationError::UnknownEdgePort { node, dir, offset });
+            }
             Ok(offset)
         };
         for [(src, from_offset), (dst, to_offset)] in edges {
+            for node in [src, dst] {
+                if node.index() >= num_nodes {
+                    return Err(HUGRSerializationError::UnknownEdgeNode { node });
+                }
+            }
             let src = hugr_node(src);
             let dst = hugr_node(dst);
 
-- 
2.43.0


From 72bff75761587031f2eaa2def62f0127abc14480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 75/82] fix: importing malformed model tables reports errors
 instead of panicking or not terminating

---
 hugr-core/src/extension/type_def.rs |   3 +-
 hugr-core/src/import.rs             | 197 ++++++++++++++++++++++++----
 2 files changed, 177 insertions(+), 23 deletions(-)

diff --git a/hugr-core/src/extension/type_def.rs b/hugr-core/src/extension/type_def.rs
index 9e8b8f9..d8e6cc8 100644
--- a/hugr-core/src/extension/type_def.rs
+++ b/hugr-core/src/extension/type_def.rs
@@ -148,7 +148,8 @@ impl TypeDef {
                     let ta = args.get(*i);
                     match ta {
                         Some(TypeArg::Runtime(s)) => s.least_upper_bound(),
-                        _ => panic!("TypeArg index does not refer to a type."),
+                        // The arguments do not match the parameters. Assume most general case.
+                        _ => TypeBound::Linear,
                     }
                 }))
             }
diff --git a/hugr-core/src/import.rs b/hugr-core/src/import.rs
index 8c4f2a2..67b71ac 100644
--- a/hugr-core/src/import.rs
+++ b/hugr-core/src/import.rs
@@ -353,8 +353,8 @@ impl<'a> Context<'a> {
         self.nodes.insert(node_id, node);
 
         let node_data = self.get_node(node_id)?;
-        self.record_links(node, Direction::Incoming, node_data.inputs);
-        self.record_links(node, Direction::Outgoing, node_data.outputs);
+        self.record_links(node, Direction::Incoming, node_data.inputs)?;
+        self.record_links(node, Direction::Outgoing, node_data.outputs)?;
 
         for meta_item in node_data.meta {
             self.import_node_metadata(node, *meta_item)
@@ -422,10 +422,23 @@ impl<'a> Context<'a> {
     }
 
     /// Associate links with the ports of the given node in the given direction.
-    fn record_links(&mut self, node: Node, direction: Direction, links: &'a [table::LinkIndex]) {
-        let optype = self.hugr.get_optype(node);
+    fn record_links(
+        &mut self,
+        node: Node,
+        direction: Direction,
+        links: &'a [table::LinkIndex],
+    ) -> Result<(), ImportErrorInner> {
         // NOTE: `OpType::port_count` copies the signature, which significantly slows down the import.
-        debug_assert!(links.len() <= optype.port_count(direction));
+        let num_ports = self.hugr.num_ports(node, direction);
+        if links.len() > num_ports {
+            return Err(error_invalid!(
+                "{} links for the {:?} ports of a `{}` operation with {} ports",
+                links.len(),
+                direction,
+                self.hugr.get_optype(node),
+                num_ports
+            ));
+        }
 
         for (link, port) in links.iter().zip(self.hugr.node_ports(node, direction)) {
             self.link_ports
@@ -433,6 +446,8 @@ impl<'a> Context<'a> {
                 .or_default()
                 .push((node, port));
         }
+
+        Ok(())
     }
 
     /// Link up the ports in the hugr graph, according to the connectivity information that
@@ -491,8 +506,13 @@ impl<'a> Context<'a> {
     /// Connects static ports according to the connections in [`self.static_edges`].
     fn link_static_ports(&mut self) -> Result<(), ImportErrorInner> {
         for (src_id, dst_id) in std::mem::take(&mut self.static_edges) {
-            // None of these lookups should fail given how we constructed `static_edges`.
-            let src = self.nodes[&src_id];
+            // The function may not be part of the module, e.g. because it does not
+            // belong to any of its regions.
+            let src = *self
+                .nodes
+                .get(&src_id)
+                .ok_or_else(|| error_invalid!("function {} is not in the module", src_id))?;
+            // This lookup should not fail given how we constructed `static_edges`.
             let dst = self.nodes[&dst_id];
             let src_port = self.hugr.get_optype(src).static_output_port().unwrap();
             let dst_port = self.hugr.get_optype(dst).static_input_port().unwrap();
@@ -529,8 +549,90 @@ impl<'a> Context<'a> {
         self.import_poly_func_type(func_node, *symbol, |_, signature| Ok(signature))
     }
 
+    /// Check that the import will terminate, and that it imports every node at most once.
+    ///
+    /// The regions and nodes below the root of the module have to form a tree,
+    /// and no term may refer to itself.
+    fn check_well_founded(&self) -> Result<(), ImportErrorInner> {
+        let module = self.module;
+        let mut seen_regions = vec![false; module.regions.len()];
+        let mut seen_nodes = vec![false; module.nodes.len()];
+        let mut regions = vec![module.root];
+        while let Some(region_id) = regions.pop() {
+            let region = self.get_region(region_id)?;
+            if std::mem::replace(&mut seen_regions[region_id.index()], true) {
+                return Err(error_invalid!("region {} has several parents", region_id));
+            }
+            for node_id in region.children {
+                let node = self.get_node(*node_id)?;
+                if std::mem::replace(&mut seen_nodes[node_id.index()], true) {
+                    return Err(error_invalid!("node {} has several parents", node_id));
+                }
+                regions.extend(node.regions);
+            }
+        }
+
+        // Depth first search. The terms on the stack that have been entered but
+        // not left are those that the current term is part of.
+        #[derive(Clone, Copy, PartialEq)]
+        enum State {
+            New,
+            Entered,
+            Left,
+        }
+        let mut states = vec![State::New; module.terms.len()];
+        let mut stack = Vec::new();
+        for start in 0..module.terms.len() {
+            stack.push(table::TermId::new(start));
+            while let Some(&term_id) = stack.last() {
+                let Some(state) = states.get_mut(term_id.index()) else {
+                    // Reported if and when the term is imported.
+                    stack.pop();
+                    continue;
+                };
+                if *state != State::New {
+                    *state = State::Left;
+                    stack.pop();
+                    continue;
+                }
+                *state = State::Entered;
+                let first = stack.len();
+                match self.get_term(term_id)? {
+                    table::Term::Apply(_, args) => stack.extend(*args),
+                    table::Term::List(parts) | table::Term::Tuple(parts) => {
+                        stack.extend(parts.iter().map(|part| match part {
+                            table::SeqPart::Item(term) | table::SeqPart::Splice(term) => *term,
+                        }));
+                    }
+                    // To import a variable we have to import its type.
+                    table::Term::Var(table::VarId(node, index)) => {
+                        let symbol =
+                            module
+                                .get_node(*node)
+                                .and_then(|node| match &node.operation {
+                                    table::Operation::DefineFunc(symbol)
+                                    | table::Operation::DeclareFunc(symbol) => Some(symbol),
+                                    _ => None,
+                                });
+                        let param = symbol.and_then(|symbol| symbol.params.get(*index as usize));
+                        stack.extend(param.map(|param| param.r#type));
+                    }
+                    table::Term::Wildcard | table::Term::Literal(_) | table::Term::Func(_) => {}
+                }
+                for part in &stack[first..] {
+                    if states.get(part.index()) == Some(&State::Entered) {
+                        return Err(error_invalid!("term {} is part of itself", part));
+                    }
+                }
+            }
+        }
+
+        Ok(())
+    }
+
     /// Import the root region of the module.
     fn import_root(&mut self) -> Result<(), ImportErrorInner> {
+        self.check_well_founded()?;
         self.region_scope = self.module.root;
         let region_data = self.get_region(self.module.root)?;
 
@@ -707,8 +809,8 @@ impl<'a> Context<'a> {
         );
 
         // Make sure that the ports of the input/output nodes are connected correctly
-        self.record_links(input, Direction::Outgoing, region_data.sources);
-        self.record_links(output, Direction::Incoming, region_data.targets);
+        self.record_links(input, Direction::Outgoing, region_data.sources)?;
+        self.record_links(output, Direction::Incoming, region_data.targets)?;
 
         for child in region_data.children {
             self.import_node(*child, node)?;
@@ -753,9 +855,11 @@ impl<'a> Context<'a> {
                     continue;
                 };
 
-                // NOTE: The lookups here are expected to succeed since we only
-                // process the order metadata after we have imported the nodes.
-                let child_node = self.nodes[child_id];
+                // NOTE: We only process the order metadata after we have imported the nodes,
+                // so the lookups only fail for nodes that have no counterpart in core.
+                let Some(&child_node) = self.nodes.get(child_id) else {
+                    return Err(OrderHintError::NoOrderPort(*child_id).into());
+                };
                 let child_optype = self.hugr.get_optype(child_node);
 
                 // Check that the node has order ports.
@@ -810,11 +914,16 @@ impl<'a> Context<'a> {
             let a = order_keys.get(a).ok_or(OrderHintError::UnknownKey(*a))?;
             let b = order_keys.get(b).ok_or(OrderHintError::UnknownKey(*b))?;
 
-            // NOTE: The unwrap here must succeed:
-            // - For all ordinary nodes we checked that they have an order port.
-            // - Input and output nodes always have an order port.
-            let a_port = self.hugr.get_optype(*a).other_output_port().unwrap();
-            let b_port = self.hugr.get_optype(*b).other_input_port().unwrap();
+            // All ordinary nodes have both order ports if they have one, but the input
+            // node can only be the source of an order edge, and the output node its target.
+            let a_port = self.hugr.get_optype(*a).other_output_port();
+            let b_port = self.hugr.get_optype(*b).other_input_port();
+            let (Some(a_port), Some(b_port)) = (a_port, b_port) else {
+                return Err(error_invalid!(
+                    "order edge in region {} from its output or to its input",
+                    region_id
+                ));
+            };
 
             self.hugr.connect(*a, a_port, *b, b_port);
         }
@@ -1030,7 +1139,7 @@ impl<'a> Context<'a> {
             let exit = self
                 .hugr
                 .add_node_with_parent(node, OpType::ExitBlock(ExitBlock { cfg_outputs }));
-            self.record_links(exit, Direction::Incoming, region_data.targets);
+            self.record_links(exit, Direction::Incoming, region_data.targets)?;
         }
 
         // Finally we import all other nodes.
@@ -1300,6 +1409,14 @@ impl<'a> Context<'a> {
                 .ok_or_else(|| error_uninferred!("node signature"))?;
             let [_, outputs] = self.get_func_type(signature)?;
             let (variants, _) = self.import_adt_and_rest(outputs)?;
+            if *tag >= variants.len() as u64 {
+                return Err(error_invalid!(
+                    "`{}` has tag {} for an adt with {} variants",
+                    model::CORE_MAKE_ADT,
+                    tag,
+                    variants.len()
+                ));
+            }
             let node = self.make_node(
                 node_id,
                 OpType::Tag(Tag {
@@ -1382,7 +1499,10 @@ impl<'a> Context<'a> {
         symbol: table::Symbol<'a>,
         in_scope: impl FnOnce(&mut Self, PolyFuncTypeBase<RV>) -> Result<T, ImportErrorInner>,
     ) -> Result<T, ImportErrorInner> {
-        (|| {
+        // The variables are in scope already when a function refers to itself.
+        let nested = self.local_vars.contains_key(&table::VarId(node, 0));
+
+        let result = (|| {
             let mut imported_params = Vec::with_capacity(symbol.params.len());
 
             for (index, param) in symbol.params.iter().enumerate() {
@@ -1426,7 +1546,15 @@ impl<'a> Context<'a> {
             let body = self.import_func_type::<RV>(symbol.signature)?;
             in_scope(self, PolyFuncTypeBase::new(imported_params, body))
         })()
-        .map_err(|err| error_context!(err, "symbol `{}` defined by node {}", symbol.name, node))
+        .map_err(|err| error_context!(err, "symbol `{}` defined by node {}", symbol.name, node));
+
+        if !nested {
+            for index in 0..symbol.params.len() {
+                self.local_vars.remove(&table::VarId(node, index as _));
+            }
+        }
+
+        result
     }
 
     /// Import a [`Term`] from a term that represents a static type or value.
@@ -1627,6 +1755,12 @@ impl<'a> Context<'a> {
                         .local_vars
                         .get(var)
                         .ok_or(error_invalid!("unknown var {}", var))?;
+                    if self
+                        .match_symbol::<0>(local_var.r#type, model::CORE_TYPE)?
+                        .is_none()
+                    {
+                        return Err(error_invalid!("variable {} is not a runtime type", var));
+                    }
                     Ok(TypeBase::new_var_use(*index as _, local_var.bound))
                 }
 
@@ -1818,7 +1952,17 @@ impl<'a> Context<'a> {
                         }
                     }
                 }
-                table::Term::Var(table::VarId(_, index)) => {
+                table::Term::Var(var @ table::VarId(_, index)) => {
+                    let local_var = ctx
+                        .local_vars
+                        .get(var)
+                        .ok_or_else(|| error_invalid!("unknown variable {}", var))?;
+                    if ctx
+                        .match_symbol::<1>(local_var.r#type, model::CORE_LIST_TYPE)?
+                        .is_none()
+                    {
+                        return Err(error_invalid!("variable {} is not a list", var));
+                    }
                     let var = RV::try_from_rv(RowVariable(*index as _, TypeBound::Linear))
                         .map_err(|_| {
                             error_invalid!("Expected a closed list.\n{}", CLOSED_LIST_HINT)
@@ -1978,6 +2122,14 @@ impl<'a> Context<'a> {
             ))?;
 
             let variant = self.import_closed_list(*variant)?;
+            if values.len() != variant.len() {
+                return Err(error_invalid!(
+                    "a `{}` has {} values for a variant with {} elements",
+                    model::CORE_CONST_ADT,
+                    values.len(),
+                    variant.len()
+                ));
+            }
 
             let items = values
                 .iter()
@@ -1994,7 +2146,8 @@ impl<'a> Context<'a> {
                 }
             };
 
-            return Ok(Value::sum(*tag as _, items, ty).unwrap());
+            return Value::sum(*tag as _, items, ty)
+                .map_err(|err| error_invalid!("invalid `{}`: {}", model::CORE_CONST_ADT, err));
         }
 
         match term_data {
-- 
2.43.0


From 5be53663188eef74d26d7359caa4ec111b8fd7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 76/82] fix: check the versions of used extensions once the
 module knows which it uses

---
 hugr-core/src/envelope/reader.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hugr-core/src/envelope/reader.rs b/hugr-core/src/envelope/reader.rs
index 6a8f890..198bd88 100644
--- a/hugr-core/src/envelope/reader.rs
+++ b/hugr-core/src/envelope/reader.rs
@@ -137,14 +137,16 @@ impl<R: BufRead> EnvelopeReader<R> {
             let desc = desc.get_or_insert_default();
             desc.load_used_extensions_generator(module)
                 .map_err(ExtensionBreakingError::from)?;
-            if let Some(used_exts) = &mut desc.used_extensions_generator {
-                check_breaking_extensions(module.extensions(), used_exts.drain(..))?;
-            }
 
             module
                 .resolve_extension_defs(&self.registry)
                 .inspect_err(|err| Self::handle_resolution_error(desc, err))?;
 
+            // Only now does the module know which extensions it uses.
+            if let Some(used_exts) = &desc.used_extensions_generator {
+                check_breaking_extensions(module.extensions(), used_exts.iter().cloned())?;
+            }
+
             // overwrite the description with the actual module read,
             // cheap so ok to repeat.
             desc.load_from_hugr(&module);
-- 
2.43.0


From 16b479c24974c7856d72dfcf08aedc3eb8132ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 77/82] fix: convert --compress without a level did not
 compress

---
 hugr-cli/src/convert.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 6a9aa18..77420c6 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -85,8 +85,12 @@ impl ConvertArgs {
         };
 
         // Configure compression
-        if let Some(level) = self.compress.then_some(self.compression_level).flatten() {
-            config = config.with_zstd(ZstdConfig::new(level));
+        if self.compress {
+            let zstd = match self.compression_level {
+                Some(level) => ZstdConfig::new(level),
+                None => ZstdConfig::default_level(),
+            };
+            config = config.with_zstd(zstd);
         }
 
         // Write the package with the requested format
-- 
2.43.0


From d4447a9a7b03c7bd6195ed8391fdb54c6c254632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:17 +0000
Subject: [PATCH 78/82] fix: convert refuses ill-formed packages when writing a
 model format

---
 hugr-cli/src/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hugr-cli/src/convert.rs b/hugr-cli/src/convert.rs
index 77420c6..e4b9117 100644
--- a/hugr-cli/src/convert.rs
+++ b/hugr-cli/src/convert.rs
@@ -93,6 +93,13 @@ impl ConvertArgs {
             config = config.with_zstd(zstd);
         }
 
+        // The model formats can only express valid packages
+        if config.format.model_version().is_some() {
+            package
+                .validate()
+                .map_err(|val_err| CliError::validation(env_config.generator(), val_err))?;
+        }
+
         // Write the package with the requested format
         if let Some(ref mut writer) = output_override {
             hugr::envelope::write_envelope(writer, &package, config)?;
-- 
2.43.0


From 338c03a2b938c15aa647afeb52485f38da148eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 79/82] fix: Python delete_link hid the other links of the
 ports

---
 hugr-py/src/hugr/hugr/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 1ab0bd7..97ab290 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -567,10 +567,20 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             sub_offset = next(
                 i for i, inp in enumerate(self.linked_ports(src)) if inp == dst
             )
-            self._links.delete_left(_SubPort(src, sub_offset))
         except StopIteration:
             return
-        # TODO make sure sub-offset is handled correctly
+        src_sub = _SubPort(src, sub_offset)
+        dst_sub = self._links[src_sub]
+        self._links.delete_left(src_sub)
+
+        # Links are looked up by consecutive sub-offsets, so the remaining links
+        # of both ports move up to fill the gaps.
+        while (next_src := src_sub.next_sub_offset()) in self._links.fwd:
+            self._links.insert_left(src_sub, self._links.fwd[next_src])
+            src_sub = next_src
+        while (next_dst := dst_sub.next_sub_offset()) in self._links.bck:
+            self._links.insert_left(self._links.bck[next_dst], dst_sub)
+            dst_sub = next_dst
 
     def entrypoint_op(self) -> OpVarCov:
         """The operation of the root node.
-- 
2.43.0


From d919d2aede5959bbd90c3bc9b3711ebda0b9b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 80/82] fix: Python delete_node failed on unlinked ports and
 left links of multiply linked ones

---
 hugr-py/src/hugr/hugr/base.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 97ab290..4e5c064 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -466,10 +466,12 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         parent = self[node].parent
         if parent:
             self[parent].children.remove(node)
-        for inp, _ in self.incoming_links(node):
-            self._links.delete_right(_SubPort(inp))
-        for out, _ in self.outgoing_links(node):
-            self._links.delete_left(_SubPort(out))
+        for inp, outs in list(self.incoming_links(node)):
+            for out in outs:
+                self.delete_link(out, inp)
+        for out, inps in list(self.outgoing_links(node)):
+            for inp in inps:
+                self.delete_link(out, inp)
 
         weight, self._nodes[node.idx] = self._nodes[node.idx], None
 
-- 
2.43.0


From d04d345ccc129a8c3eb955da12587e02df89225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 81/82] fix: Python stored parents, links and entrypoints of
 graphs with deleted nodes wrongly

---
 hugr-py/src/hugr/hugr/base.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 4e5c064..453bbb5 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -81,8 +81,8 @@ class NodeData:
     children: list[Node] = field(default_factory=list, repr=False)
     metadata: dict[str, Any] = field(default_factory=dict)
 
-    def _to_serial(self, node: Node) -> SerialOp:
-        o = self.op._to_serial(self.parent if self.parent else node)
+    def _to_serial(self, parent: Node) -> SerialOp:
+        o = self.op._to_serial(parent)
 
         return SerialOp(root=o)  # type: ignore[arg-type]
 
@@ -964,7 +964,15 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
         ]:
             src, dst = link
             s, d = self._constrain_offset(src.port), self._constrain_offset(dst.port)
-            return (src.port.node.idx, s), (dst.port.node.idx, d)
+            return (serial_idx[src.port.node.idx], s), (
+                serial_idx[dst.port.node.idx],
+                d,
+            )
+
+        # Non contiguous indices will be erased
+        serial_idx: dict[NodeIdx, NodeIdx] = {}
+        for node in self:
+            serial_idx[node.idx] = len(serial_idx)
 
         nodes: list[SerialOp] = []
         metadata = []
@@ -973,13 +981,11 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
             if data is None:
                 continue
             node = Node(node_idx)
-            serial_idx = len(nodes)
-
-            # non contiguous indices will be erased
-            nodes.append(data._to_serial(Node(serial_idx, {})))
+            parent = data.parent if data.parent is not None else node
+            nodes.append(data._to_serial(Node(serial_idx[parent.idx], {})))
             metadata.append(data.metadata if data.metadata else None)
             if self.entrypoint == node:
-                entrypoint = serial_idx
+                entrypoint = serial_idx[node_idx]
 
         return SerialHugr(
             nodes=nodes,
-- 
2.43.0


From 8ef6cc5e99dffcb668e011a3b615d623cdbc7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:40 +0000
Subject: [PATCH 82/82] fix: Python insert_hugr shared metadata between the
 graphs

---
 hugr-py/src/hugr/hugr/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hugr-py/src/hugr/hugr/base.py b/hugr-py/src/hugr/hugr/base.py
index 453bbb5..f523bc8 100644
--- a/hugr-py/src/hugr/hugr/base.py
+++ b/hugr-py/src/hugr/hugr/base.py
@@ -933,7 +933,7 @@ class Hugr(Mapping[Node, NodeData], Generic[OpVarCov]):
                 node_data.op,
                 node_parent,
                 num_outs=node_data._num_outs,
-                metadata=node_data.metadata,
+                metadata=dict(node_data.metadata),
             )
 
         for src, dst in hugr._links.items():
-- 
2.43.0

