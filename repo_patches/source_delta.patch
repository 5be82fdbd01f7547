From 9a1755df133f828874d7505c41bf670fa7dcc886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:23 +0000
Subject: [PATCH 1/7] fix: declare ecx as an output of the 32-bit x86 legacy
 compare_exchange

Only cl was declared, but cx/ecx is written: on x86_32 the compiler can
keep another 8-bit value in ch across the asm block, and it was lost.
---
 src/arch_legacy/x86.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/arch_legacy/x86.rs b/src/arch_legacy/x86.rs
index bf1b920..f8abfc5 100644
--- a/src/arch_legacy/x86.rs
+++ b/src/arch_legacy/x86.rs
@@ -186,7 +186,7 @@ macro_rules! atomic {
                 //
                 // Refs: https://www.felixcloutier.com/x86/cmpxchg
                 unsafe {
-                    let mut r: u8;
+                    let mut r: u32;
                     // compare_exchange is always SeqCst.
                     asm!(
                         // load from old/new to $cmpxchg_cmp_reg/$tmp_new_reg
@@ -205,11 +205,14 @@ macro_rules! atomic {
                         old = in(reg) old,
                         new = in(reg) new,
                         out = in(reg) out_ptr,
-                        out("cl") r,
+                        // $tmp_new_reg is (part of) ecx. Declaring only cl would let the compiler keep
+                        // another value in ch on x86_32.
+                        out("ecx") r,
                         out($cmpxchg_cmp_reg) _,
                         // Do not use `preserves_flags` because CMPXCHG modifies the ZF flag.
                         options(nostack),
                     );
+                    let r = r.to_ne_bytes()[0];
                     crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
                     (out, r != 0)
                 }
-- 
2.43.0


From f88f72a08e2968c7d5e6b73b25735a94a19647fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:38 +0000
Subject: [PATCH 2/7] fix: advertise 64-bit atomics on pre-v6 Arm Linux/Android

The 64-bit operations are implemented (through the kernel's
__kuser_cmpxchg64 helper) and documented as supported, but
cfg_has_atomic_64 said they are not there.
---
 src/arch/cfgs/arm_linux.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arch/cfgs/arm_linux.rs b/src/arch/cfgs/arm_linux.rs
index 18dd180..c7f1517 100644
--- a/src/arch/cfgs/arm_linux.rs
+++ b/src/arch/cfgs/arm_linux.rs
@@ -26,14 +26,13 @@ macro_rules! cfg_has_atomic_32 {
 macro_rules! cfg_no_atomic_32 {
     ($($tt:tt)*) => {};
 }
-// TODO: set has_atomic_64 to true
 #[macro_export]
 macro_rules! cfg_has_atomic_64 {
-    ($($tt:tt)*) => {};
+    ($($tt:tt)*) => { $($tt)* };
 }
 #[macro_export]
 macro_rules! cfg_no_atomic_64 {
-    ($($tt:tt)*) => { $($tt)* };
+    ($($tt:tt)*) => {};
 }
 #[macro_export]
 macro_rules! cfg_has_atomic_128 {
-- 
2.43.0


From 09b125e271f79a05b7840360c4412b8885829fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 3/7] fix: do not advertise CAS on x86 built without cmpxchg

With atomic_maybe_uninit_no_cmpxchg no AtomicCompareExchange
implementation exists, but cfg_has_atomic_cas said it does.
---
 src/arch/cfgs/x86.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/arch/cfgs/x86.rs b/src/arch/cfgs/x86.rs
index bb374de..3c89a77 100644
--- a/src/arch/cfgs/x86.rs
+++ b/src/arch/cfgs/x86.rs
@@ -78,11 +78,23 @@ macro_rules! cfg_has_atomic_128 {
 macro_rules! cfg_no_atomic_128 {
     ($($tt:tt)*) => {};
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_has_atomic_cas {
     ($($tt:tt)*) => { $($tt)* };
 }
+#[cfg(not(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg)))]
 #[macro_export]
 macro_rules! cfg_no_atomic_cas {
     ($($tt:tt)*) => {};
 }
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_has_atomic_cas {
+    ($($tt:tt)*) => {};
+}
+#[cfg(all(target_arch = "x86", atomic_maybe_uninit_no_cmpxchg))]
+#[macro_export]
+macro_rules! cfg_no_atomic_cas {
+    ($($tt:tt)*) => { $($tt)* };
+}
-- 
2.43.0


From 2884415095f924b7fa3b61c85583ccfa6089633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 4/7] fix: sign-extend old in 32-bit compare_exchange on
 riscv64

lr.w sign-extends the loaded value, but the upper bits of the register that
holds a 32-bit operand are undefined, so the full-width bne could fail (and the
result be false) although the values are equal.
---
 src/arch/riscv.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/arch/riscv.rs b/src/arch/riscv.rs
index a7392e2..3ef7f5c 100644
--- a/src/arch/riscv.rs
+++ b/src/arch/riscv.rs
@@ -58,6 +58,26 @@ macro_rules! w {
     };
 }
 
+// The upper bits of a register holding a 32-bit operand are undefined, but lr.w sign-extends the
+// loaded value and RV64 only has full-width compare-and-branch instructions.
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv32")]
+macro_rules! sext {
+    ($size:tt, $reg:tt) => {
+        ""
+    };
+}
+#[cfg(any(target_feature = "a", atomic_maybe_uninit_target_feature = "a"))]
+#[cfg(target_arch = "riscv64")]
+macro_rules! sext {
+    ("w", $reg:tt) => {
+        concat!("sext.w ", $reg, ", ", $reg)
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[cfg(any(
     target_feature = "a",
     atomic_maybe_uninit_target_feature = "a",
@@ -227,6 +247,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($acquire:tt, $release:tt) => {
                             asm!(
+                                sext!($size, "{old}"),                                        // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("lr.", $size, $acquire, " {out}, 0({dst})"),      // atomic { out = *dst; RS = dst }
                                     "bne {out}, {old}, 3f",                                   // if out != old { jump 'cmp-fail }
@@ -236,7 +257,7 @@ macro_rules! atomic {
                                 "xor {r}, {out}, {old}",                                      // r = out ^ old
                                 "seqz {r}, {r}",                                              // if r == 0 { r = 1 } else { r = 0 }
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 r = out(reg) r,
-- 
2.43.0


From 1aa7a26713ac9c5ffbe5194ac3f8e07fba5f0e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 5/7] fix: sign-extend old in 32-bit compare_exchange on
 loongarch64

ll.w sign-extends the loaded value, but the upper bits of the register that
holds a 32-bit operand are undefined, so the full-width bne could fail (and the
result be false) although the values are equal.
---
 src/arch/loongarch.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/arch/loongarch.rs b/src/arch/loongarch.rs
index e8fe47f..74aeb51 100644
--- a/src/arch/loongarch.rs
+++ b/src/arch/loongarch.rs
@@ -21,6 +21,17 @@ use core::{
 
 use crate::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
 
+// The upper bits of a register holding a 32-bit operand are undefined, but ll.w sign-extends the
+// loaded value and the compare-and-branch instructions are full-width.
+macro_rules! sext {
+    ("w", $reg:tt) => {
+        concat!("slli.w ", $reg, ", ", $reg, ", 0")
+    };
+    ("d", $reg:tt) => {
+        ""
+    };
+}
+
 #[rustfmt::skip]
 macro_rules! atomic_load {
     ($ty:ident, $size:tt) => {
@@ -137,6 +148,7 @@ macro_rules! atomic {
                     macro_rules! cmpxchg {
                         ($failure_fence:tt) => {
                             asm!(
+                                sext!($size, "{old}"),                         // old = sign_extend(old)
                                 "2:", // 'retry:
                                     concat!("ll.", $size, " {out}, {dst}, 0"), // atomic { out = *dst; LL = dst }
                                     "bne {out}, {old}, 3f",                    // if out != old { jump 'cmp-fail }
@@ -149,7 +161,7 @@ macro_rules! atomic {
                                     "move {tmp}, $zero",                       // tmp = 0
                                 "4:", // 'success:
                                 dst = in(reg) ptr_reg!(dst),
-                                old = in(reg) old,
+                                old = inout(reg) old => _,
                                 new = in(reg) new,
                                 out = out(reg) out,
                                 tmp = out(reg) r,
-- 
2.43.0


From 6998db5244ffdf1aa29dc7e88a77a51b6e2718bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:10 +0000
Subject: [PATCH 6/7] fix: do not use the Armv8 backend on Armv7

target_feature = "v8m" is LLVM's v8m feature, which is implied by v6t2 and so
set on Armv7 (when the compiler exposes it): lda/stl/ldaex/stlex do not
assemble there. The build script already sets the crate's own cfg for
Armv8-M.
---
 src/arch/mod.rs        | 5 +++--
 src/arch_legacy/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arch/mod.rs b/src/arch/mod.rs
index 7ad4b26..bf801f1 100644
--- a/src/arch/mod.rs
+++ b/src/arch/mod.rs
@@ -58,13 +58,15 @@ mod unsupported;
 
 #[cfg(any(target_arch = "aarch64", all(target_arch = "arm64ec", not(atomic_maybe_uninit_no_asm))))]
 mod aarch64;
+// Note: target_feature = "v8m" cannot be used here because it means LLVM's v8m
+// feature, which is implied by v6t2 (and so by v7); build script sets
+// atomic_maybe_uninit_target_feature = "v8m" for all Armv8-M targets.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -79,7 +81,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
diff --git a/src/arch_legacy/mod.rs b/src/arch_legacy/mod.rs
index 7713b0e..dca80b3 100644
--- a/src/arch_legacy/mod.rs
+++ b/src/arch_legacy/mod.rs
@@ -26,13 +26,15 @@ mod unsupported;
 
 #[cfg(target_arch = "aarch64")]
 mod aarch64;
+// Note: target_feature = "v8m" cannot be used here because it means LLVM's v8m
+// feature, which is implied by v6t2 (and so by v7); build script sets
+// atomic_maybe_uninit_target_feature = "v8m" for all Armv8-M targets.
 #[cfg(target_arch = "arm")]
 #[cfg(all(
     any(target_feature = "v6", atomic_maybe_uninit_target_feature = "v6"),
     not(any(
         target_feature = "v8",
         atomic_maybe_uninit_target_feature = "v8",
-        target_feature = "v8m",
         atomic_maybe_uninit_target_feature = "v8m",
     )),
 ))]
@@ -47,7 +49,6 @@ mod arm_linux;
 #[cfg(any(
     target_feature = "v8",
     atomic_maybe_uninit_target_feature = "v8",
-    target_feature = "v8m",
     atomic_maybe_uninit_target_feature = "v8m",
 ))]
 mod armv8;
-- 
2.43.0


From 04739778e22f4603ab34a0781face73e5ee35ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:22 +0000
Subject: [PATCH 7/7] fix: m68k: seq sets the byte to 0xFF, not 1

compare_exchange told the optimizer that the result of seq is 0 or 1. It is 0
or 0xFF, so every successful compare_exchange was undefined behavior (and
a panic with debug assertions).
---
 src/arch/m68k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/m68k.rs b/src/arch/m68k.rs
index 23511d5..fc3ae02 100644
--- a/src/arch/m68k.rs
+++ b/src/arch/m68k.rs
@@ -109,7 +109,7 @@ macro_rules! atomic {
                     let r: u8;
                     asm!(
                         concat!("cas.", $size, " {out}, {new}, ({dst})"), // atomic { if *dst == out { cc.Z = 1; *dst = new } else { cc.Z = 0; out = *dst } }
-                        "seq {r}",                                        // r = cc.Z
+                        "seq {r}",                                        // if cc.Z == 1 { r = 0xFF } else { r = 0 }
                         dst = in(reg_addr) ptr_reg!(dst),
                         new = in(reg_data) new,
                         out = inout(reg_data) old => out,
@@ -117,7 +117,7 @@ macro_rules! atomic {
                         // Do not use `preserves_flags` because CAS modifies N, Z, V, and C bits in the condition codes.
                         options(nostack),
                     );
-                    crate::utils::assert_unchecked(r == 0 || r == 1); // may help remove extra test
+                    crate::utils::assert_unchecked(r == 0 || r == 0xFF); // may help remove extra test
                     (out, r != 0)
                 }
             }
-- 
2.43.0

