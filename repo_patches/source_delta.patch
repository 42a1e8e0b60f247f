From 91f3aa8a2f133adf7cf0f9b907557170017b432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 01/32] fix: write the stack size section under its own name

StackSize and HeapSize shared the section name _heap_size, so an object with
both was read back with the two values exchanged or lost.
---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 09ae058..a3cc3aa 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -85,7 +85,7 @@ impl Section for BinarySegment {
     }
 }
 impl Section for StackSize {
-    const NAME: &'static str = "_heap_size";
+    const NAME: &'static str = "_stack_size";
     fn read<R: Read>(mut reader: R) -> io::Result<Self> {
         let mut buf = [0; 2];
         reader.read_exact(&mut buf)?;
-- 
2.43.0


From f2b996fedc3651965c2cc799ea476d7ae5179ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 02/32] fix: pair each page table entry with its own flag byte
 when dirtying

When the level 1 entry was already dirty, the level 2 entry's flag byte was
written over the level 1 entry's and the level 2 entry stayed clean.
---
 src/blf4/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 2311c6c..0062d4d 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -374,12 +374,12 @@ impl HandlerContext<'_> {
 
         // set dirty bit to any entry that isn't marked as dirty, if the access mode is write
         if matches!(mode, AccessMode::Write) {
-            let dirty_iter = [lvl1_entry_addr, lvl2_entry_addr].into_iter().zip(
-                lvl1_entry
-                    .byte_with_dirty_flag
-                    .into_iter()
-                    .chain(lvl2_entry.byte_with_dirty_flag),
-            );
+            let dirty_iter = [
+                (lvl1_entry_addr, lvl1_entry.byte_with_dirty_flag),
+                (lvl2_entry_addr, lvl2_entry.byte_with_dirty_flag),
+            ]
+            .into_iter()
+            .filter_map(|(addr, byte)| Some((addr, byte?)));
 
             for (addr, undirty_byte) in dirty_iter {
                 // set dirty flag
-- 
2.43.0


From 50e8cac95ed703be08a1805cc47814bce80ed755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/32] fix: wrap guest addresses instead of panicking

The program counter, the stack pointer and computed addresses are 16-bit guest
values; a guest could stop the emulator with an arithmetic overflow panic.
---
 src/blf4/isa/handlers.rs | 18 +++++++++---------
 src/blf4/mod.rs          | 14 +++++++-------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index d062c2a..28de171 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -428,7 +428,7 @@ fn call(c: &mut HandlerContext) -> OpRes {
 }
 fn ret(c: &mut HandlerContext) -> OpRes {
     let b = arg_imm_byte(c)?;
-    c.cpu.stack += b as u16;
+    c.cpu.stack = c.cpu.stack.wrapping_add(b as u16);
     c.cpu.program_counter = c.cpu.link;
 
     Ok(())
@@ -437,7 +437,7 @@ fn store_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Br)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r2))?;
 
     Ok(())
@@ -450,7 +450,7 @@ fn store_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write(addr, c.cpu.read_br(r3))?;
 
     Ok(())
@@ -459,7 +459,7 @@ fn store_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r2)?)?;
 
     Ok(())
@@ -472,7 +472,7 @@ fn store_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r2)?;
 
-    let addr = c.cpu.read_wr(r1)? + offset;
+    let addr = c.cpu.read_wr(r1)?.wrapping_add(offset);
     c.write_wide(addr, c.cpu.read_wr(r3)?)?;
 
     Ok(())
@@ -481,7 +481,7 @@ fn load_bi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Br, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -495,7 +495,7 @@ fn load_br(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read(addr)?;
     c.cpu.write_br(r1, val);
 
@@ -505,7 +505,7 @@ fn load_wi(c: &mut HandlerContext) -> OpRes {
     let (r1, r2) = arg_pair(c, Wr, Wr)?;
     let offset = arg_imm_wide(c)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
@@ -519,7 +519,7 @@ fn load_wr(c: &mut HandlerContext) -> OpRes {
     }
     let offset = c.cpu.read_wr(r3)?;
 
-    let addr = c.cpu.read_wr(r2)? + offset;
+    let addr = c.cpu.read_wr(r2)?.wrapping_add(offset);
     let val = c.read_wide(addr)?;
     c.cpu.write_wr(r1, val)?;
 
diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 0062d4d..85d54d3 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -473,7 +473,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn fetch(&mut self) -> OpRes<u8> {
         let addr = self.cpu.program_counter;
-        self.cpu.program_counter += 1;
+        self.cpu.program_counter = addr.wrapping_add(1);
         let addr = self.addr_resolve(addr, AccessMode::Execute)?;
         Ok(self.mem.read(addr))
     }
@@ -491,7 +491,7 @@ impl HandlerContext<'_> {
     #[must_use = "error must be handled"]
     pub fn read_wide(&mut self, addr: u16) -> OpRes<u16> {
         let lower = self.read(addr)?;
-        let higher = self.read(addr + 1)?;
+        let higher = self.read(addr.wrapping_add(1))?;
 
         Ok(u16::from_le_bytes([lower, higher]))
     }
@@ -500,7 +500,7 @@ impl HandlerContext<'_> {
         let [lower, higher] = val.to_le_bytes();
 
         self.write(addr, lower)?;
-        self.write(addr + 1, higher)?;
+        self.write(addr.wrapping_add(1), higher)?;
 
         Ok(())
     }
@@ -515,24 +515,24 @@ impl HandlerContext<'_> {
 
     #[must_use = "error must be handled"]
     pub fn pushw(&mut self, w: u16) -> OpRes<()> {
-        self.cpu.stack -= 2;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(2);
         self.write_wide(self.cpu.stack, w)
     }
     #[must_use = "error must be handled"]
     pub fn pushb(&mut self, b: u8) -> OpRes<()> {
-        self.cpu.stack -= 1;
+        self.cpu.stack = self.cpu.stack.wrapping_sub(1);
         self.write(self.cpu.stack, b)
     }
     #[must_use = "error must be handled"]
     pub fn popw(&mut self) -> OpRes<u16> {
         let w = self.read_wide(self.cpu.stack)?;
-        self.cpu.stack += 2;
+        self.cpu.stack = self.cpu.stack.wrapping_add(2);
         Ok(w)
     }
     #[must_use = "error must be handled"]
     pub fn popb(&mut self) -> OpRes<u8> {
         let b = self.read(self.cpu.stack)?;
-        self.cpu.stack += 1;
+        self.cpu.stack = self.cpu.stack.wrapping_add(1);
         Ok(b)
     }
     #[must_use = "error must be handled"]
-- 
2.43.0


From fab42f64d22c5606787035835875ea370e162183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 04/32] fix: mask shift amounts instead of panicking

A guest shifting by its operand's width or more stopped the emulator with an
overflow panic (release builds already masked the amount).
---
 src/blf4/isa/handlers.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/blf4/isa/handlers.rs b/src/blf4/isa/handlers.rs
index 28de171..5d36592 100644
--- a/src/blf4/isa/handlers.rs
+++ b/src/blf4/isa/handlers.rs
@@ -270,37 +270,45 @@ fn xor_w(c: &mut HandlerContext) -> OpRes {
     binop_w(c, |x, y| (x ^ y, false), |x, y| (x ^ y, false))
 }
 fn shl_b(c: &mut HandlerContext) -> OpRes {
-    binop_b(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_b(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn shl_w(c: &mut HandlerContext) -> OpRes {
-    binop_w(c, |x, y| (x << y, false), |x, y| (x << y, false))
+    binop_w(
+        c,
+        |x, y| (x.wrapping_shl(y as u32), false),
+        |x, y| (x.wrapping_shl(y as u32), false),
+    )
 }
 fn asr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (((x as i8) >> y) as u8, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i8).wrapping_shr(y as u32) as u8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn asr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (((x as i16) >> y) as u16, false),
-        |x, y| (x >> y, false),
+        |x, y| ((x as i16).wrapping_shr(y as u32) as u16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
     )
 }
 fn lsr_b(c: &mut HandlerContext) -> OpRes {
     binop_b(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u8) >> y) as i8, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u8).wrapping_shr(y as u32) as i8, false),
     )
 }
 fn lsr_w(c: &mut HandlerContext) -> OpRes {
     binop_w(
         c,
-        |x, y| (x >> y, false),
-        |x, y| (((x as u16) >> y) as i16, false),
+        |x, y| (x.wrapping_shr(y as u32), false),
+        |x, y| ((x as u16).wrapping_shr(y as u32) as i16, false),
     )
 }
 fn mul_b(c: &mut HandlerContext) -> OpRes {
-- 
2.43.0


From 5de21a35f60dd363002ebeb7abda56fc96277082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 05/32] fix: deliver faults on the opcode fetch as traps

A page fault or illegal execute on an instruction's first byte went straight
out of the emulator, ignoring the guest's trap handler, while the same fault
on a later byte was delivered to it.
---
 src/blf4/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 85d54d3..9e5587b 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -234,9 +234,11 @@ impl Cpu for Blf4 {
     fn execute_instruction<M: MainMemory>(&mut self, mem: &mut M) -> OpRes<(), Self::TrapMode> {
         let mut ctx = HandlerContext { cpu: self, mem };
 
-        let opcode = ctx.fetch()?;
+        let result = ctx
+            .fetch()
+            .and_then(|opcode| OP_HANDLERS[opcode as usize](&mut ctx));
 
-        match OP_HANDLERS[opcode as usize](&mut ctx) {
+        match result {
             Ok(()) => (),
             Err(tm) => {
                 ctx.cpu.flags.trap = true;
-- 
2.43.0


From 807529b4fdd7ac3a298bbfd40a0f532e26548849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 06/32] fix: return from a trap handler to the mode that was
 interrupted

The flags were saved after the trap had already cleared the user mode flag, so
`reth` left a user program running in supervisor mode.
---
 src/blf4/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 9e5587b..9853351 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -241,12 +241,13 @@ impl Cpu for Blf4 {
         match result {
             Ok(()) => (),
             Err(tm) => {
+                let interrupted_flags = ctx.cpu.flags;
                 ctx.cpu.flags.trap = true;
                 ctx.cpu.flags.user_mode = false;
                 if ctx.cpu.trap_handler == 0 {
                     return Err(tm);
                 } else {
-                    ctx.push_registers()?;
+                    ctx.push_registers(interrupted_flags)?;
                     self.program_counter = self.trap_handler;
                     self.write_wr(R1, tm as u8 as u16)?;
                 }
@@ -538,8 +539,8 @@ impl HandlerContext<'_> {
         Ok(b)
     }
     #[must_use = "error must be handled"]
-    pub fn push_registers(&mut self) -> OpRes<()> {
-        self.pushw(self.cpu.flags.into())?;
+    pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
             self.pushw(w)?;
-- 
2.43.0


From c27e019ef0da6fd18f695f25ece6fb78612e1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 07/32] fix: save and restore the program counter around a trap
 handler

`reth` is documented to pop all registers and continue execution, but the
program counter was never saved, so execution went on inside the handler.
---
 src/blf4/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/blf4/mod.rs b/src/blf4/mod.rs
index 9853351..04ba9d5 100644
--- a/src/blf4/mod.rs
+++ b/src/blf4/mod.rs
@@ -540,6 +540,7 @@ impl HandlerContext<'_> {
     }
     #[must_use = "error must be handled"]
     pub fn push_registers(&mut self, flags: Blf4Flags) -> OpRes<()> {
+        self.pushw(self.cpu.program_counter)?;
         self.pushw(flags.into())?;
         for r in 1..=15 {
             let w = self.cpu.read_wr(WideRegister(U4::new(r)))?;
@@ -554,7 +555,9 @@ impl HandlerContext<'_> {
             let w = self.popw()?;
             self.cpu.write_wr(WideRegister(U4::new(r)), w)?;
         }
-        self.cpu.flags = self.popw()?.into();
+        let flags = self.popw()?;
+        self.cpu.program_counter = self.popw()?;
+        self.cpu.flags = flags.into();
 
         Ok(())
     }
-- 
2.43.0


From ff9c845ea244b9f16513533ec96dbe4c98ee4bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 08/32] fix: accept ROM images smaller than the ROM

---
 src/mem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.rs b/src/mem.rs
index e0626a4..c984f7b 100644
--- a/src/mem.rs
+++ b/src/mem.rs
@@ -83,7 +83,7 @@ impl<P> LazyMain<P> {
     }
     pub fn with_rom(mut self, bytes: &[u8]) -> Self {
         assert!(bytes.len() <= ROM_SIZE, "bytes cannot be bigger than ROM");
-        self.rom = Some(std::array::from_fn(|i| bytes[i]));
+        self.rom = Some(std::array::from_fn(|i| bytes.get(i).copied().unwrap_or(0)));
         self
     }
 }
-- 
2.43.0


From 3d8f1456dc7f60c3496ce6719278ef6bba674255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 09/32] fix: reject excess operands of multi-operand
 instructions

---
 src/source/mod.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index f3a368d..26afed9 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -963,6 +963,7 @@ impl DataOperand {
     fn parse_byte_imm<'a>(mut ops: impl Iterator<Item = &'a SourceOperand>) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ByteImm(
             Self::byte(reg1)?,
             Self::imm_byte(imm)?,
@@ -975,6 +976,7 @@ impl DataOperand {
     ) -> Option<DataOperand> {
         let reg1 = ops.next()?;
         let imm = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImm(
             Self::wide(reg1)?,
             Self::imm_wide(imm, sym, sl)?,
@@ -986,6 +988,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -998,6 +1001,7 @@ impl DataOperand {
         let reg1 = ops.next()?;
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::ThreeWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
@@ -1012,6 +1016,7 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::byte(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmByte(reg1, imm, reg2))
     }
     fn parse_wide_imm_wide<'a>(
@@ -1022,47 +1027,56 @@ impl DataOperand {
         let reg1 = Self::wide(ops.next()?)?;
         let imm = Self::imm_wide(ops.next()?, sym, sl)?;
         let reg2 = Self::wide(ops.next()?)?;
+        Self::parse_nothing(ops)?;
         Some(DataOperand::WideImmWide(reg1, imm, reg2))
     }
     fn parse_two_wide_one_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideOneByte(
+        let ret = Some(DataOperand::TwoWideOneByte(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::byte(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteWideImm(
+        let ret = Some(DataOperand::ByteWideImm(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_two_wide_imm<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
         sym: &mut Symbols,
         sl: SourceLocation,
     ) -> Option<DataOperand> {
-        Some(DataOperand::TwoWideImm(
+        let ret = Some(DataOperand::TwoWideImm(
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::imm_wide(ops.next()?, sym, sl)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_byte_two_wide<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
     ) -> Option<DataOperand> {
-        Some(DataOperand::ByteTwoWide(
+        let ret = Some(DataOperand::ByteTwoWide(
             Self::byte(ops.next()?)?,
             Self::wide(ops.next()?)?,
             Self::wide(ops.next()?)?,
-        ))
+        ));
+        Self::parse_nothing(ops)?;
+        ret
     }
     fn parse_four_byte<'a>(
         mut ops: impl Iterator<Item = &'a SourceOperand>,
@@ -1071,7 +1085,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourByte(
             Self::byte(reg1)?,
             Self::byte(reg2)?,
@@ -1086,7 +1100,7 @@ impl DataOperand {
         let reg2 = ops.next()?;
         let reg3 = ops.next()?;
         let reg4 = ops.next()?;
-        Self::parse_nothing(ops);
+        Self::parse_nothing(ops)?;
         Some(DataOperand::FourWide(
             Self::wide(reg1)?,
             Self::wide(reg2)?,
-- 
2.43.0


From 545ceb8d6734e9326a7bd859949449a60f69c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:34 +0000
Subject: [PATCH 10/32] fix: record .wide label uses at their own address

---
 src/bin/tc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/tc.rs b/src/bin/tc.rs
index 3abde82..1e2e311 100644
--- a/src/bin/tc.rs
+++ b/src/bin/tc.rs
@@ -34,7 +34,7 @@ fn main() -> ExitCode {
             lines.push(dls.lines);
         }
 
-        for ((&st, &mut (segment_start, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
+        for ((&st, &mut (_, ref mut mem)), lines) in segs.iter_mut().zip(lines) {
             for data_line in lines {
                 match data_line {
                     DataLine::Raw(mut bytes) => {
@@ -44,7 +44,7 @@ fn main() -> ExitCode {
                     DataLine::Wide(Wide::Label(id)) => {
                         let lr = LabelRead {
                             segment: st,
-                            position: mem.len() as u16 + segment_start,
+                            position: mem.len() as u16,
                         };
                         label_reads[id].push(lr);
                         let w = labels[id].3;
-- 
2.43.0


From ea25b11ae3c75463835fc66c428866939601a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 11/32] fix: disassemble the privileged instructions

---
 src/disassemble.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index 47c4ec3..d1bf7ff 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -74,6 +74,19 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
             write!(f, "reth").unwrap();
             ends_block = true;
         }
+        USR => write!(f, "usr").unwrap(),
+        VMON => write!(f, "vmon").unwrap(),
+        VMOFF => write!(f, "vmoff").unwrap(),
+        PSTORE => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, WideRegister)?;
+            let (r3, _) = arg_pair(&mut c, ByteRegister, identity)?;
+            write!(f, "pstore {r1}, {r2}, {r3}").unwrap();
+        }
+        PLOAD => {
+            let (r1, r2) = arg_pair(&mut c, ByteRegister, ByteRegister)?;
+            let (r3, _) = arg_pair(&mut c, WideRegister, identity)?;
+            write!(f, "pload {r1}, {r2}, {r3}").unwrap();
+        }
         NOP => write!(f, "nop").unwrap(),
         PUSH_B => {
             let (r1, _) = arg_pair(&mut c, ByteRegister, identity)?;
-- 
2.43.0


From 822c54b0caf5868f2d9fd6526e4ea90cf3ad6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:51 +0000
Subject: [PATCH 12/32] fix: disassemble the fourth operand of div and mul

---
 src/disassemble.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index d1bf7ff..a9c9a3a 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -211,10 +211,10 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
         ASR_W => binop("asr", WideRegister, &mut c, f)?,
         LSR_B => binop("lsr", ByteRegister, &mut c, f)?,
         LSR_W => binop("lsr", WideRegister, &mut c, f)?,
-        DIV_B => binop("div", ByteRegister, &mut c, f)?,
-        DIV_W => binop("div", WideRegister, &mut c, f)?,
-        MUL_B => binop("mul", ByteRegister, &mut c, f)?,
-        MUL_W => binop("mul", WideRegister, &mut c, f)?,
+        DIV_B => four_regs("div", ByteRegister, &mut c, f)?,
+        DIV_W => four_regs("div", WideRegister, &mut c, f)?,
+        MUL_B => four_regs("mul", ByteRegister, &mut c, f)?,
+        MUL_W => four_regs("mul", WideRegister, &mut c, f)?,
         b => {
             write!(f, "0x{b:02x}").unwrap();
             ends_block = true;
@@ -275,6 +275,19 @@ fn binop<T: Display, RF: Fn(U4) -> T>(
     Ok(())
 }
 
+fn four_regs<T: Display, RF: Fn(U4) -> T>(
+    name: &str,
+    rf: RF,
+    c: &mut HandlerContext,
+    f: &mut String,
+) -> Result<(), TrapMode> {
+    let (r1, r2) = arg_pair(c, &rf, &rf)?;
+    let (r3, r4) = arg_pair(c, &rf, &rf)?;
+    write!(f, "{name} {r1}, {r2}, {r3}, {r4}").unwrap();
+
+    Ok(())
+}
+
 enum Operand<'a> {
     Byte(u8),
     Wide(u16),
-- 
2.43.0


From 9385ee4ed74386a4f87fa2e9452fd427293b8820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 13/32] fix: disassemble without moving the program counter or
 overflowing

---
 src/disassemble.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/disassemble.rs b/src/disassemble.rs
index a9c9a3a..f03b038 100644
--- a/src/disassemble.rs
+++ b/src/disassemble.rs
@@ -41,11 +41,21 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     machine: &mut Machine<M, Blf4>,
     label_lookup: F,
 ) -> Result<DisassembledInstruction, TrapMode> {
-    use crate::blf4::isa::*;
     let m = &mut StrictMemory {
         inner: &mut machine.memory,
     };
-    let mut c = machine.cpu.context(m);
+    let addr = machine.cpu.program_counter;
+    let result = disassemble_in_context(machine.cpu.context(m), label_lookup);
+    // restore rpc, also when a byte could not be fetched
+    machine.cpu.program_counter = addr;
+    result
+}
+
+fn disassemble_in_context<'a, F: FnOnce(u16) -> Option<&'a str>>(
+    mut c: HandlerContext,
+    label_lookup: F,
+) -> Result<DisassembledInstruction, TrapMode> {
+    use crate::blf4::isa::*;
 
     let addr = c.cpu.program_counter;
     let opcode = c.fetch()?;
@@ -226,14 +236,14 @@ pub fn disassemble_instruction<'a, M: MainMemory, F: FnOnce(u16) -> Option<&'a s
     let mut annotated_source = String::with_capacity(op.len() + 21);
     write!(&mut annotated_source, "  {addr:04x}: ").unwrap();
 
+    // the instruction may wrap around the end of the address space
+    let size = next_instruction_location.wrapping_sub(addr);
     c.cpu.program_counter = addr;
-    for _ in addr..next_instruction_location {
+    for _ in 0..size {
         write!(&mut annotated_source, " {:02x}", c.fetch()?).unwrap();
     }
-    // restore rpc
-    c.cpu.program_counter = addr;
 
-    for _ in 0..(4 - (next_instruction_location - addr)) {
+    for _ in 0..(4 - size) {
         write!(&mut annotated_source, "   ").unwrap();
     }
     write!(&mut annotated_source, "    {op}").unwrap();
-- 
2.43.0


From 89c4aadb17552bf672aa288d39ff868ec11fa4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:14 +0000
Subject: [PATCH 14/32] fix: map the whole heap when it has initial data

---
 src/blf4/std_kernel/load_user_binary.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blf4/std_kernel/load_user_binary.rs b/src/blf4/std_kernel/load_user_binary.rs
index 9f86c6a..b25d965 100644
--- a/src/blf4/std_kernel/load_user_binary.rs
+++ b/src/blf4/std_kernel/load_user_binary.rs
@@ -1,6 +1,6 @@
 use crate::{
     aalv::obj::{Flags, Object, SegmentType},
-    align_end, align_start,
+    align_start,
     machine::Machine,
     mem::MainMemory,
     PAGE_SIZE,
@@ -47,8 +47,9 @@ impl<M: MainMemory> Machine<M, Blf4> {
 
             mmbuilder.add_segment(permissions, offset, bytes);
             if heap {
-                let heap = align_end(offset, PAGE_SIZE);
-                let size = heap_size - bytes.len() as u16;
+                // the heap's initial data is part of its size
+                let heap = align_start(offset, PAGE_SIZE);
+                let size = offset.saturating_add(heap_size) - heap;
                 mmbuilder.map_wr_pages(heap, size);
             }
         }
-- 
2.43.0


From 047cfd0b99e4aa0fa47b0d459eea7872b0d6af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 15/32] fix: do not panic on a symbol with an empty name

---
 src/aalv/obj/sec_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index a3cc3aa..7efa1b7 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -118,7 +118,7 @@ impl Section for SymbolTable {
 
             let segment_type = segment_type_from_u8(stype)?;
 
-            let is_global = namebuf[0] != b' ';
+            let is_global = namebuf.first() != Some(&b' ');
             let name = if is_global {
                 String::from_utf8_lossy(&namebuf).into()
             } else {
-- 
2.43.0


From ed0b6a004810e40df75b6be8b0a04a4af1eac060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 16/32] fix: reject a relocation table that ends inside an
 entry

---
 src/aalv/obj/sec_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj/sec_impl.rs b/src/aalv/obj/sec_impl.rs
index 7efa1b7..5d15ae9 100644
--- a/src/aalv/obj/sec_impl.rs
+++ b/src/aalv/obj/sec_impl.rs
@@ -161,13 +161,14 @@ impl Section for RelocationTable {
 
         loop {
             let mut buf = [0; 5];
-            match reader.read_exact(&mut buf) {
+            match reader.read_exact(&mut buf[..1]) {
                 Ok(()) => (),
                 Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => {
                     break;
                 }
                 Err(e) => return Err(e),
             }
+            reader.read_exact(&mut buf[1..])?;
             let [stype, ol1, oh1, ol2, oh2] = buf;
 
             let reference_segment = segment_type_from_u8(stype)?;
-- 
2.43.0


From b814b57391be93b183d90292dcdba28bb124c083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 17/32] fix: report unexpected object sections instead of
 panicking

---
 src/aalv/obj.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index abc0a71..e15942c 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -60,7 +60,10 @@ impl Object {
         };
 
         if aalvur.remaing_sections().any(|s| s.starts_with('_')) {
-            unimplemented!("error unexpected sections")
+            Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "unexpected section",
+            ))
         } else {
             Ok(obj)
         }
-- 
2.43.0


From 3d41f2f35c30ddabe43cd926c5eae94921f8cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 18/32] fix: refuse to write a section whose length does not
 fit

---
 src/aalv/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 8db48e2..41a6577 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -196,7 +196,7 @@ impl<F: Write + Seek> AalvWriter<F> {
             !S::NAME.contains('\0'),
             "section name may not contain null bytes"
         );
-        assert_ne!(!S::NAME.len(), 0, "section name may not be empty");
+        assert_ne!(S::NAME.len(), 0, "section name may not be empty");
 
         write!(self.file, "{}\0\0\0", S::NAME)?;
 
@@ -208,6 +208,13 @@ impl<F: Write + Seek> AalvWriter<F> {
         segment.write(&mut w)?;
         let CountedWriter { writer: _, length } = w;
 
+        if length > u16::MAX as usize {
+            return Err(io::Error::new(
+                ErrorKind::InvalidInput,
+                "section is too long",
+            ));
+        }
+
         self.file.seek(SeekFrom::Current(-(length as i64) - 2))?;
         self.file.write_all(&(length as u16).to_le_bytes())?;
         self.file.seek(SeekFrom::Current(length as i64))?;
-- 
2.43.0


From b6b3be3bc64d763fe8e0d1b13862af8f0f065ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:49 +0000
Subject: [PATCH 19/32] fix: find the magic right after a partial match

---
 src/aalv/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 41a6577..1cd2dc5 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -91,6 +91,8 @@ impl<F: BufRead + Seek> AalvReader<F> {
             if magic_buf == AALV_MAGIC.as_bytes() {
                 break;
             }
+            // the magic may start within the bytes just read
+            self.file.seek(SeekFrom::Start(self.file_offset + 1))?;
         }
 
         Ok(())
-- 
2.43.0


From 6f87fe89c25b495e946c3ee5c8834e81a9e2033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:00 +0000
Subject: [PATCH 20/32] fix: report errors of the last writes to an object file

---
 src/aalv/mod.rs | 16 +++++++++++++++-
 src/aalv/obj.rs |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 1cd2dc5..90dc696 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -178,11 +178,15 @@ impl<R: Read> Read for ReadWindow<R> {
 
 pub struct AalvWriter<F: Write> {
     file: F,
+    finished: bool,
 }
 
 impl<F: Write + Seek> AalvWriter<F> {
     pub fn new(file: F, file_offset: u64) -> Result<Self> {
-        let mut new = AalvWriter { file };
+        let mut new = AalvWriter {
+            file,
+            finished: false,
+        };
 
         new.file.seek(SeekFrom::Start(file_offset))?;
         new.write_magic()?;
@@ -223,10 +227,20 @@ impl<F: Write + Seek> AalvWriter<F> {
 
         Ok(())
     }
+
+    /// Write the final zero byte and everything still buffered.
+    pub fn finish(mut self) -> Result<()> {
+        self.finished = true;
+        self.file.write_all(&[0])?;
+        self.file.flush()
+    }
 }
 
 impl<F: Write> Drop for AalvWriter<F> {
     fn drop(&mut self) {
+        if self.finished {
+            return;
+        }
         self.file
             .write_all(&[0])
             .expect("writing of final álvur zero byte failed");
diff --git a/src/aalv/obj.rs b/src/aalv/obj.rs
index e15942c..a0c3b86 100644
--- a/src/aalv/obj.rs
+++ b/src/aalv/obj.rs
@@ -121,7 +121,7 @@ impl Object {
             aalvur.write_section(relocation_table)?;
         }
 
-        Ok(())
+        aalvur.finish()
     }
 
     #[deprecated = "Load segmented instead"]
-- 
2.43.0


From ac715c5928ff5090bd40a821acee13e63a29302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 21/32] fix: do not panic when an object file cannot be
 completed

---
 src/aalv/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/aalv/mod.rs b/src/aalv/mod.rs
index 90dc696..959b74e 100644
--- a/src/aalv/mod.rs
+++ b/src/aalv/mod.rs
@@ -241,9 +241,8 @@ impl<F: Write> Drop for AalvWriter<F> {
         if self.finished {
             return;
         }
-        self.file
-            .write_all(&[0])
-            .expect("writing of final álvur zero byte failed");
+        // only `finish` can report an error
+        let _ = self.file.write_all(&[0]);
     }
 }
 
-- 
2.43.0


From e3809fcb6846bb7ac60859e2abb03441ad856321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:05 +0000
Subject: [PATCH 22/32] fix: align addresses in the last page without
 overflowing

---
 src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d949a8d..4a1b64e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -18,13 +18,12 @@ pub const fn align_start(addr: u16, alignment: u16) -> u16 {
 }
 pub const fn align_end(addr: u16, alignment: u16) -> u16 {
     let mask = alignment - 1;
-    let next_aligned = (addr + alignment) & !mask;
 
     // If the current end is already aligned, do nothing
     if addr & mask == 0 {
         addr
     } else {
-        next_aligned
+        (addr & !mask) + alignment
     }
 }
 
-- 
2.43.0


From 26356e5e0ce557950d688b43f0beac818b120be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 23/32] fix: report programs that do not fit the address space
 instead of overflowing

---
 src/source/mod.rs | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 26afed9..30e0828 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -376,10 +376,17 @@ impl ProcessState {
     fn get_size(&self, st: SegmentType) -> u16 {
         self.dls.get(&st).map(|dls| dls.size).unwrap_or(0)
     }
-    fn add_line(&mut self, st: SegmentType, line: DataLine, size: u16) {
+    fn add_line(
+        &mut self,
+        st: SegmentType,
+        line: DataLine,
+        size: usize,
+    ) -> StdResult<(), ErrorType> {
         let dls = self.dls.entry(st).or_default();
+        dls.size = u16::try_from(dls.size as usize + size)
+            .map_err(|_| ErrorType::Other("segment is too big".into()))?;
         dls.lines.push(line);
-        dls.size += size;
+        Ok(())
     }
     fn unknown_defined(&self) -> bool {
         self.dls.contains_key(&SegmentType::Unknown)
@@ -398,6 +405,11 @@ pub fn process<B: BufRead>(lines: SourceLines<B>) -> Result<ProcessedSource> {
 
     let mut last_end = PAGE_SIZE;
     for s in dls.values_mut() {
+        if last_end > u16::MAX - (PAGE_SIZE - 1) || s.size > u16::MAX - align_end(last_end, PAGE_SIZE) {
+            let e = ErrorType::Other("segments do not fit in the address space".into());
+            add_error_opt(&mut errors, Error::new(src.clone(), 0, e));
+            break;
+        }
         s.start = align_end(last_end, PAGE_SIZE);
         last_end = s.start + s.size;
     }
@@ -518,25 +530,33 @@ fn inner_process<B: BufRead>(
                         ErrorType::UnknownInstruction(s.into_boxed_str()),
                     ));
                 };
-                state.add_line(
-                    *current_segment,
-                    DataLine::Ins(opcode, dat_op),
-                    1 + dat_op.size(),
-                );
+                state
+                    .add_line(
+                        *current_segment,
+                        DataLine::Ins(opcode, dat_op),
+                        1 + dat_op.size() as usize,
+                    )
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirByte(b) => {
-                state.add_line(*current_segment, DataLine::Raw(vec![b]), 1);
+                state
+                    .add_line(*current_segment, DataLine::Raw(vec![b]), 1)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirWide(w) => {
                 let wide = match w {
                     Ok(w) => Wide::Number(w),
                     Err(l) => Wide::Label(symbols.get_label(&l, SourceLocation::new(src, ln))),
                 };
-                state.add_line(*current_segment, DataLine::Wide(wide), 2);
+                state
+                    .add_line(*current_segment, DataLine::Wide(wide), 2)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirString(s) => {
-                let size = s.len() as u16;
-                state.add_line(*current_segment, DataLine::Raw(s), size);
+                let size = s.len();
+                state
+                    .add_line(*current_segment, DataLine::Raw(s), size)
+                    .map_err(|e| Error::new(src, ln, e))?;
             }
             SourceLine::DirInclude(path) => {
                 let pth_buf;
-- 
2.43.0


From 5eaa54933cfee98683b88a7e96e783a69f8b8298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 24/32] fix: link objects whose entry point is in a segment
 without data

---
 src/bin/tl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 25e2222..13c1891 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -167,8 +167,12 @@ fn tl_main() -> Result<(), Error> {
 
     for (input_file, mut obj) in objects {
         entry_point = entry_point.or_else(|| {
-            obj.entry
-                .map(|Entry(st, ep)| Entry(st, ep - obj.segs[&st].0 + segs[&st].0))
+            obj.entry.map(|Entry(st, ep)| {
+                // the entry point may be in a segment without any data
+                let start_in_file = obj.segs.get(&st).map(|s| s.0).unwrap_or(0);
+                let start = segs.get(&st).map(|s| s.0).unwrap_or(0);
+                Entry(st, ep - start_in_file + start)
+            })
         });
 
         let mut file_symbol_to_out_symbol = Vec::new();
-- 
2.43.0


From 263f993b71035793b25b67e372a1ed57986ffb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:29 +0000
Subject: [PATCH 25/32] fix: report relocations in missing segments instead of
 panicking

---
 src/bin/tl.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 13c1891..79c5d81 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -233,14 +233,13 @@ fn tl_main() -> Result<(), Error> {
         {
             let symbol_index = file_symbol_to_out_symbol[symbol_index as usize];
 
-            let location_in_file = reference_location - obj.segs[&reference_segment].0;
-            let reference_location = location_in_file + segs[&reference_segment].0;
-
-            let bytes = &mut obj
+            let (start_in_file, bytes) = obj
                 .segs
                 .get_mut(&reference_segment)
-                .ok_or(Error::ReferenceToNonExistantSegment)?
-                .1;
+                .ok_or(Error::ReferenceToNonExistantSegment)?;
+
+            let location_in_file = reference_location - *start_in_file;
+            let reference_location = location_in_file + segs[&reference_segment].0;
 
             let symdef = &symbols_out[symbol_index];
             let undefined = matches!(symdef.segment_type, SegmentType::Unknown);
-- 
2.43.0


From 240385b02fb9be2d1d651556ac9a6c649b09380a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 26/32] fix: report segments that do not fit the address space
 instead of overflowing

---
 src/bin/tl.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 79c5d81..9e7cf1a 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -8,7 +8,7 @@ use telda2::{
     aalv::{obj::{
         Entry, Object, RelocationEntry, RelocationTable, SegmentType, SymbolDefinition, SymbolTable,
     }, read_archive},
-    align_end, PAGE_SIZE,
+    align_end, align_start, PAGE_SIZE,
 };
 
 fn one_one(s: &str) -> Result<u16, &'static str> {
@@ -82,6 +82,7 @@ fn main() -> ExitCode {
                 Error::InvalidEntryPointFormat(e) => eprintln!("invalid entry point format: {e}"),
                 Error::NoEntryPoint => eprintln!("No entry point was defined, cannot make executable. Perhaps use -E to set one?"),
                 Error::ReferenceToNonExistantSegment => eprintln!("reference to a segment that was not defined"),
+                Error::DoesNotFit => eprintln!("the segments do not fit in the address space"),
                 Error::ObjectFailure => (),
             }
 
@@ -96,6 +97,7 @@ enum Error {
     ObjectFailure,
     NoEntryPoint,
     ReferenceToNonExistantSegment,
+    DoesNotFit,
 }
 
 fn tl_main() -> Result<(), Error> {
@@ -132,16 +134,23 @@ fn tl_main() -> Result<(), Error> {
 
         for (_, obj) in &objects {
             for (&stype, &(_start, ref v)) in &obj.segs {
-                *lengths.entry(stype).or_insert(0) += v.len() as u16;
+                let length = lengths.entry(stype).or_insert(0u16);
+                *length = u16::try_from(v.len())
+                    .ok()
+                    .and_then(|len| length.checked_add(len))
+                    .ok_or(Error::DoesNotFit)?;
             }
         }
         let mut last_end = lengths.remove(&SegmentType::Zero).unwrap_or(0);
         last_end = last_end.max(PAGE_SIZE);
 
         for (st, size) in lengths {
+            if last_end > align_start(u16::MAX, segment_alignment) {
+                return Err(Error::DoesNotFit);
+            }
             let start = align_end(last_end, segment_alignment);
             segs_out.insert(st, (start, Vec::with_capacity(size as usize)));
-            last_end = start + size;
+            last_end = start.checked_add(size).ok_or(Error::DoesNotFit)?;
 
             if verbose {
                 println!("segment {st} @ 0x{start:04x} w/ {} bytes (0x{0:02x})", size);
-- 
2.43.0


From 510a67238942c3cc7748169e53738bc589e09047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:11 +0000
Subject: [PATCH 27/32] fix: do not accept an undefined symbol as the entry
 point

---
 src/bin/tl.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin/tl.rs b/src/bin/tl.rs
index 9e7cf1a..a499a39 100644
--- a/src/bin/tl.rs
+++ b/src/bin/tl.rs
@@ -308,8 +308,11 @@ fn tl_main() -> Result<(), Error> {
                     SegmentType::Zero,
                     u16::from_str_radix(entry, 16).map_err(Error::InvalidEntryPointFormat)?,
                 )
-            } else if let Some(&pos) = global_symbols.get(&*entry) {
-                let sym = &symbols_out[pos];
+            } else if let Some(sym) = global_symbols
+                .get(&*entry)
+                .map(|&pos| &symbols_out[pos])
+                .filter(|sym| sym.segment_type != SegmentType::Unknown)
+            {
                 Entry(sym.segment_type, sym.location)
             } else {
                 eprintln!("Start symbol {entry} was not found. Perhaps it is not global?");
-- 
2.43.0


From 399a7a1ecafa46191d606cdf7fadddd6992c476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:35 +0000
Subject: [PATCH 28/32] fix: tobjdump fails when a file could not be read

---
 src/bin/tobjdump.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/tobjdump.rs b/src/bin/tobjdump.rs
index 06b2617..3330db2 100644
--- a/src/bin/tobjdump.rs
+++ b/src/bin/tobjdump.rs
@@ -93,7 +93,7 @@ fn main() -> ExitCode {
         }
     } 
 
-    ExitCode::SUCCESS
+    ret
 }
 
 fn symbols(obj: &Object) {
-- 
2.43.0


From 4fb287cbb446e30c087f000f5da96df25cc20840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:42 +0000
Subject: [PATCH 29/32] fix: an unfinished \x escape is an error instead of a
 panic

---
 src/source/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/source/mod.rs b/src/source/mod.rs
index 30e0828..901ed26 100644
--- a/src/source/mod.rs
+++ b/src/source/mod.rs
@@ -316,8 +316,11 @@ fn parse_bytechar(s: &[u8]) -> StdResult<(u8, &[u8]), ErrorType> {
             b'\'' => (b'\'', &s[2..]),
             b'\"' => (b'\"', &s[2..]),
             b'x' => (
-                u8::from_str_radix(String::from_utf8_lossy(&s[2..4]).as_ref(), 16)
-                    .map_err(|_| InvalidEscapeSequence)?,
+                u8::from_str_radix(
+                    String::from_utf8_lossy(s.get(2..4).ok_or(UnexpectedEndOfString)?).as_ref(),
+                    16,
+                )
+                .map_err(|_| InvalidEscapeSequence)?,
                 &s[4..],
             ),
             c => return Err(InvalidEscapeCharacter(*c)),
-- 
2.43.0


From 98203b566c74231e30d1807a777a9c57863fc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:23 +0000
Subject: [PATCH 30/32] fix: tdbg ends when there are no more commands instead
 of asking forever

---
 src/bin/tdbg.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index a626247..c78286d 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -184,7 +184,10 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
             stdout().flush().expect("stdout failed");
 
             input.clear();
-            stdin.read_line(&mut input).expect("stdin failed");
+            if stdin.read_line(&mut input).expect("stdin failed") == 0 {
+                // no more commands
+                break 'disassemble_loop;
+            }
 
             match input.trim() {
                 "q" | "quit" => break 'disassemble_loop,
-- 
2.43.0


From d424c72a8b8a37e2d692cabc0656511dddcc07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:23 +0000
Subject: [PATCH 31/32] fix: tdbg shows unreadable memory as such instead of
 panicking

---
 src/bin/tdbg.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index c78286d..0598f75 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -210,11 +210,14 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
                         }
                     };
                     let mut c = machine.cpu.context(&mut machine.memory);
-                    println!(
-                        " = 0x{:02x} 0x{:02x} ...",
-                        c.read(addr).unwrap(),
-                        c.read(addr + 1).unwrap()
-                    );
+                    print!(" =");
+                    for addr in [addr, addr.wrapping_add(1)] {
+                        match c.read(addr) {
+                            Ok(b) => print!(" 0x{b:02x}"),
+                            Err(_) => print!(" --"),
+                        }
+                    }
+                    println!(" ...");
                 }
                 "r0b" => print_byte_register("r0b", R0B, &machine.cpu),
                 "r1l" => print_byte_register("r1l", R1L, &machine.cpu),
-- 
2.43.0


From 3ec3564a05cf3d8983ecd8199e6faf1336fe488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:23 +0000
Subject: [PATCH 32/32] fix: tdbg does not panic where an instruction cannot be
 fetched

---
 src/bin/tdbg.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bin/tdbg.rs b/src/bin/tdbg.rs
index 0598f75..ac1d9be 100644
--- a/src/bin/tdbg.rs
+++ b/src/bin/tdbg.rs
@@ -8,7 +8,7 @@ use std::{
 use telda2::{
     aalv::obj::{Object, SymbolDefinition},
     blf4::*,
-    disassemble::disassemble_instruction,
+    disassemble::{disassemble_instruction, DisassembledInstruction},
     machine::Machine,
     mem::{Io, LazyMain},
 };
@@ -149,8 +149,14 @@ fn tdbg_loop(mut machine: Machine<LazyMain<DbgIo>, Blf4>, pos_to_labels: HashMap
     let mut current_nesting = 0;
 
     'disassemble_loop: loop {
-        let dins =
-            disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s)).unwrap();
+        let pc = machine.cpu.program_counter;
+        let dins = disassemble_instruction(&mut machine, |p| pos_to_labels.get(&p).map(|s| &**s))
+            .unwrap_or_else(|tm| DisassembledInstruction {
+                annotated_source: format!("{pc:04x}: cannot be fetched: {tm:?}"),
+                ends_block: true,
+                nesting_difference: 0,
+                next_instruction_location: pc,
+            });
 
         if false && todo!("is trapping") {
             println!("handled trap encountered!");
-- 
2.43.0

