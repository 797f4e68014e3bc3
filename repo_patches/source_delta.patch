From 7604e75eaa1ad231eb63c1eaeecf3fec78b7329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 1/5] fix: report synchronous exceptions without the interrupt
 bit in mcause

The interrupt bit of the mcause latch was set by the first external
interrupt and never cleared, so every later ECALL, EBREAK, illegal
instruction or misaligned access reported an mcause with bit 31 set.
---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From 14d3d4e569cab27fe97dab41f8f69b0a2c38fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:50 +0000
Subject: [PATCH 2/5] fix: report 0x70, 0x71 and 0x72 as illegal instructions,
 not ECALL

The ECALL comparison ignores the low seven bits of the instruction word,
and the catch-all for words whose low two bits are not 11 only raised the
exception without correcting its type.
---
 src/sentinel/decode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..0cad555 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -395,7 +395,10 @@ class ExceptionControl(Component):
 
             # Catch-all for compressed insns, zero insn.
             with m.If(self.insn[0:2] != 0b11):
-                m.d.sync += self.exception.valid.eq(1)
+                m.d.sync += [
+                    self.exception.valid.eq(1),
+                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)
+                ]
 
         # Second decode cycle if this is a CSR access.
         with m.If(forward_csr):
-- 
2.43.0


From d0d7a9935556f97bc9d8a4f1461428178c22a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 3/5] fix: RVFI record of a trapped instruction does not claim
 a register write

---
 src/sentinel/formal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..8587ee3 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -378,8 +378,12 @@ class FormalTop(Component):
 
         # Will be reset every time we commit to a new insn. But should be
         # overridden if there's an exception during the commit cycle.
+        # An insn that traps writes no rd register.
         with m.If(self.cpu.rvfi.exception):
-            m.d.sync += self.rvfi.trap.eq(1)
+            m.d.sync += [
+                self.rvfi.trap.eq(1),
+                self.rvfi.rd_addr.eq(0)
+            ]
 
         # Non-insn memory accesses.
         with m.If(~self.cpu.control.mem.insn_fetch & self.cpu.control.mem.req &
-- 
2.43.0


From 411fefa50860af30eaab5a69b1b4813812a3f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 4/5] fix: keep microcode fields at their origin with a gap
 below the first, or several gaps

---
 src/sentinel/ucoderom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..5f2497e 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -255,6 +255,11 @@ class UCodeROM(Component):
         layout = dict()
         padding_id = 0
 
+        first_f = next(iter(space.fields.values()), None)
+        if first_f and first_f.origin:
+            layout[f"_padding_{padding_id}"] = unsigned(first_f.origin)
+            padding_id += 1
+
         c, n = tee(space.fields.items())
         next(n, None)
         curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
@@ -271,6 +276,7 @@ class UCodeROM(Component):
             if next_f and curr_f.origin + curr_f.width != next_f.origin:
                 layout[f"_padding_{padding_id}"] = \
                     unsigned(next_f.origin - (curr_f.origin + curr_f.width))
+                padding_id += 1
 
         self.field_layout = StructLayout(layout)
 
-- 
2.43.0


From c9e38e7249b84ebc0d009de93ab7c6773506cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 5/5] fix: raise ValueError, as documented, for microcode enums
 without a counterpart

---
 src/sentinel/ucoderom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 5f2497e..2d983bd 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -1,5 +1,6 @@
 """Microcode ROM assembly and Component."""
 
+from enum import EnumMeta
 from io import IOBase
 from pathlib import Path
 from itertools import tee, zip_longest
@@ -303,9 +304,11 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
+        if not (isinstance(se_class, EnumMeta) and
+                all(k.upper() in se_class.__members__ and
+                    se_class[k.upper()].value == field.enum[k]
                     for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
+                all(field.enum.get(k.name.lower()) == k.value
                     for k in se_class)):
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
-- 
2.43.0

