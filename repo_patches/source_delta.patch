From 2599289709242c77a3e06c5691d0ca0aabcb11e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 01/57] fix: x86.M1: correct encodings of cmp $i8,%ebx, mov
 %cl/%cx,(%ebx), sub %al/%dl

cmp____$i8,%ebx used the imm32 opcode (81) with an 8-bit operand, the
byte and word stores to (%ebx) were loads from (%eax), and the two
byte subtractions had their operands exchanged.
---
 lib/x86-mes/x86.M1 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index ede7979..cf237a3 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -53,7 +53,7 @@ DEFINE cltd 99
 DEFINE cmp____$0x32,%eax 3d
 DEFINE cmp____$i32,%eax 3d
 DEFINE cmp____$i8,%eax 83f8
-DEFINE cmp____$i8,%ebx 81fb
+DEFINE cmp____$i8,%ebx 83fb
 DEFINE div___%ebx f7f3
 DEFINE hlt f4
 DEFINE idiv___%ebx f7fb
@@ -89,8 +89,8 @@ DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
 DEFINE mov____%ax,0x8(%ebp) 668945
 DEFINE mov____%bx,%bx 6689db
-DEFINE mov____%cl,(%ebx) 8a08
-DEFINE mov____%cx,(%ebx) 668b08
+DEFINE mov____%cl,(%ebx) 880b
+DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
 DEFINE mov____%dl,0x8(%eax) 8850
 DEFINE mov____%eax,%ebx 89c3
@@ -201,8 +201,8 @@ DEFINE shl____%cl,%ebx d3e3
 DEFINE shr____%cl,%eax d3e8
 DEFINE sub____$8,%esp 83ec
 DEFINE sub____$i32,%esp 81ec
-DEFINE sub____%al,%dl 28d0
-DEFINE sub____%dl,%al 28c2
+DEFINE sub____%al,%dl 28c2
+DEFINE sub____%dl,%al 28d0
 DEFINE sub____%ebx,%eax 29d8
 DEFINE test___%al,%al 84c0
 DEFINE test___%eax,%eax 85c0
-- 
2.43.0


From 19551cceea25a08367fa38c6760f0629b58c9a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:23 +0000
Subject: [PATCH 02/57] fix: arm.M1: correct jae, jb and mov %r3,%r1

The condition codes of jae (cs) and jb (cc) were exchanged, and
mov____%r3,%r1 copied lr instead of r3.
---
 lib/arm-mes/arm.M1 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/arm-mes/arm.M1 b/lib/arm-mes/arm.M1
index 9bf1912..a2a7a71 100644
--- a/lib/arm-mes/arm.M1
+++ b/lib/arm-mes/arm.M1
@@ -58,8 +58,8 @@ DEFINE cmp____$i32,%r2 04909fe5090052e1000000ea
 
 DEFINE swi____$0 000000ef
 DEFINE ja 8a
-DEFINE jae 3a
-DEFINE jb 2a
+DEFINE jae 2a
+DEFINE jb 3a
 DEFINE jbe 9a
 DEFINE je 0a
 DEFINE jg ca
@@ -122,7 +122,7 @@ DEFINE mov____$i32,%r2 00209fe5000000ea
 DEFINE mov____$i32,%r7 00709fe5000000ea
 DEFINE mov____%r2,(%r1) 002081e5
 DEFINE mov____%r3,%r0 0300a0e1
-DEFINE mov____%r3,%r1 0e10a0e1
+DEFINE mov____%r3,%r1 0310a0e1
 DEFINE mov____(%r0),%r0 000090e5
 DEFINE mov____(%r0),%r2 002090e5
 DEFINE mov____(%r1),%r1 001091e5
-- 
2.43.0


From 47fac42ac7ff3ee66c99db30e5e651e8af10a8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 03/57] fix: mescc: M1: write the high word of negative 64-bit
 immediates

---
 module/mescc/M1.scm | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/module/mescc/M1.scm b/module/mescc/M1.scm
index 790ef88..df979fb 100644
--- a/module/mescc/M1.scm
+++ b/module/mescc/M1.scm
@@ -92,12 +92,12 @@
 
 (define (hex2:immediate8 o)
   ;; FIXME: #x100000000 => 0 divide-by-zero when compiled with 64 bit mesc
-  (if hex? (string-append "%0x" (dec->hex (if mesc? 0 (modulo o #x100000000)))
-                          " %0x" (if (< o 0) "-1"
-                                     (dec->hex (if mesc? o (quotient o #x100000000)))))
-      (string-append "%" (number->string (dec->hex (if mesc? 0 (modulo o #x100000000))))
-                     " %" (if (< o 0) "-1"
-                              (number->string (dec->hex (if mesc? o (quotient o #x100000000))))))))
+  (let* ((low (if mesc? 0 (modulo o #x100000000)))
+         (high (if mesc? o (quotient (- o low) #x100000000))))
+    (if hex? (string-append "%0x" (dec->hex low)
+                            " %0x" (dec->hex high))
+        (string-append "%" (number->string low)
+                       " %" (number->string high)))))
 
 (define* (display-join o #:optional (sep ""))
   (let loop ((o o))
-- 
2.43.0


From a6e1fbd137cf6cde8a60d715ac3f629f65f83e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 04/57] fix: mescc: x86_64: correct wide immediates, memory
 adds, byte tests, xor-zf; add missing mnemonics

* module/mescc/x86_64/as.scm (value->r, r-and, r-cmp-value): An imm32 is
sign-extended; use it below #x80000000 only.  (r-cmp-value): Wrap both
instructions. (call-label, call-r): Use imm32 for 16 or more arguments.
(jump-byte-z): Test r. (xor-zf): Do not clobber a live rax.
* lib/x86_64-mes/x86_64.M1: Make add____ to memory operate on 64 bits; add
mnemonics that the backend issues.
---
 lib/x86_64-mes/x86_64.M1   | 29 ++++++++++++++++++++++++-----
 module/mescc/x86_64/as.scm | 30 ++++++++++++++++++------------
 2 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/lib/x86_64-mes/x86_64.M1 b/lib/x86_64-mes/x86_64.M1
index 9ffbbf1..c43e7b2 100644
--- a/lib/x86_64-mes/x86_64.M1
+++ b/lib/x86_64-mes/x86_64.M1
@@ -24,14 +24,20 @@
 DEFINE add____$i32,%rax 4805
 DEFINE add____$i32,%rbp 4881c5
 DEFINE add____$i32,%rdi 4881c7
-DEFINE add____$i32,(%rax) 8100
-DEFINE add____$i32,0x32(%rbp) 8185
+DEFINE add____$i32,%rsp 4881c4
+DEFINE add____$i32,(%rax) 488100
+DEFINE add____$i32,(%rdi) 488107
+DEFINE add____$i32,0x32 48810425
+DEFINE add____$i32,0x32(%rbp) 488185
 DEFINE add____$i8,%rax 4883c0
 DEFINE add____$i8,%rdi 4883c7
 DEFINE add____$i8,%rsp 4883c4
-DEFINE add____$i8,(%rax) 8300
-DEFINE add____$i8,(%rdi) 8307
-DEFINE add____$i8,0x8(%rbp) 8345
+DEFINE add____$i8,(%rax) 488300
+DEFINE add____$i8,(%rdi) 488307
+DEFINE add____$i8,0x32 48830425
+DEFINE add____$i8,0x8(%rbp) 488345
+DEFINE add____%r15,%rax 4c01f8
+DEFINE add____%r15,%rdi 4c01ff
 DEFINE add____%r15,(%rax) 4c0138
 DEFINE add____%r15,(%rdi) 4c013f
 DEFINE add____%rax,%rax 4801c0
@@ -54,6 +60,7 @@ DEFINE call32 e8
 DEFINE call___*%rax ffd0
 DEFINE call___*%rdi ffd7
 DEFINE cmp____$i32,%rax 483d
+DEFINE cmp____$i32,%rdi 4881ff
 DEFINE cmp____$i8,%rax 4883f8
 DEFINE cmp____$i8,%rdi 4883ff
 DEFINE cmp____%r15,%rax 4c39f8
@@ -88,7 +95,12 @@ DEFINE mov____%al,(%rdi) 8807
 DEFINE mov____%al,0x32(%rbp) 8885
 DEFINE mov____%al,0x8(%rbp) 8845
 DEFINE mov____%ax,(%rdi) 668907
+DEFINE mov____%ax,0x32(%rbp) 668985
 DEFINE mov____%ax,0x8(%rbp) 668945
+DEFINE mov____%di,0x32(%rbp) 6689bd
+DEFINE mov____%di,0x8(%rbp) 66897d
+DEFINE mov____%dil,0x32(%rbp) 4088bd
+DEFINE mov____%dil,0x8(%rbp) 40887d
 DEFINE mov____%eax,%eax 89c0
 DEFINE mov____%eax,%rax 89c0
 DEFINE mov____%eax,(%rdi) 8907
@@ -123,10 +135,14 @@ DEFINE mov____%rdx,%rax 4889d0
 DEFINE mov____%rdx,%rdi 4889d7
 DEFINE mov____%rsi,(%rdi) 488937
 DEFINE mov____%rsp,%rbp 4889e5
+DEFINE mov____%si,(%rdi) 668937
+DEFINE mov____%sil,(%rdi) 408837
 DEFINE mov____(%rax),%eax 8b00
 DEFINE mov____(%rax),%esi 8b30
 DEFINE mov____(%rax),%rax 488b00
 DEFINE mov____(%rax),%rsi 488b30
+DEFINE mov____(%rax),%si 668b30
+DEFINE mov____(%rax),%sil 408a30
 DEFINE mov____(%rdi),%edi 8b3f
 DEFINE mov____(%rdi),%rdi 488b3f
 DEFINE mov____0x32(%rbp),%rax 488b85
@@ -147,6 +163,8 @@ DEFINE mov____0x8(%rbp),%rsp 488b65
 DEFINE mov____0x8(%rdi),%rax 488b47
 DEFINE mov____0x8(%rdi),%rbp 488b6f
 DEFINE mov____0x8(%rdi),%rsp 488b67
+DEFINE movb___%al,0x32 880425
+DEFINE movb___%dil,0x32 40883c25
 DEFINE movl___%eax,0x32 890425
 DEFINE movl___%edi,0x32 893c25
 DEFINE movl___%esi,(%rdi) 8937
@@ -224,6 +242,7 @@ DEFINE sub____$i32,%rsp 4881ec
 DEFINE sub____%rdi,%rax 4829f8
 DEFINE syscall 0f05
 DEFINE test___%al,%al 84c0
+DEFINE test___%dil,%dil 4084ff
 DEFINE test___%rax,%rax 4885c0
 DEFINE test___%rdi,%rdi 4885ff
 DEFINE xchg___%rax,%rdi 4897
diff --git a/module/mescc/x86_64/as.scm b/module/mescc/x86_64/as.scm
index 7e438c6..5891c49 100644
--- a/module/mescc/x86_64/as.scm
+++ b/module/mescc/x86_64/as.scm
@@ -82,7 +82,7 @@
   (or v (error "invalid value: x86_64:value->r: " v))
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
      `((,(string-append "mov____$i32,%" r) (#:immediate ,v)))
      `((,(string-append "mov____$i64,%" r) (#:immediate8 ,v))))))
 
@@ -109,9 +109,14 @@
     `(,(if (< (abs n) #x80) `(,(string-append "mov____0x8(%rbp),%" r) (#:immediate1 ,n))
            `(,(string-append "mov____0x32(%rbp),%" r) (#:immediate ,n))))))
 
+(define (pop-args n)
+  (let ((n (* n 8)))
+    (if (< n #x80) `("add____$i8,%rsp" (#:immediate1 ,n))
+        `("add____$i32,%rsp" (#:immediate ,n)))))
+
 (define (x86_64:call-label info label n)
   `((call32 (#:offset ,label))
-    ("add____$i8,%rsp" (#:immediate1 ,(* n 8)))  ;; NOT AMD
+    ,(pop-args n)  ;; NOT AMD
     ))
 
 (define x86_64:calling-convention-registers '("rax" "rdi" "rsi" "rdx" "rcx" "r8" "r9"))
@@ -164,9 +169,9 @@
       (,(string-append "movzbq_%" l ",%" r)))))
 
 (define (x86_64:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let ((l (r->l (get-r info))))
+    `((,(string-append "sete___%" l))
+      (,(string-append "test___%" l ",%" l)))))
 
 (define (x86_64:r->local+n info id n)
   (let ((n (+ (- 0 (* 8 id)) n))
@@ -247,8 +252,9 @@
   `(("je32  " (#:offset ,label))))
 
 (define (x86_64:jump-byte-z info label)
-  `(("test___%al,%al")
-    ("je32  " (#:offset ,label))))
+  (let ((l (r->l (get-r info))))
+    `((,(string-append "test___%" l ",%" l))
+      ("je32  " (#:offset ,label)))))
 
 ;; signed
 (define (x86_64:jump-g info label)
@@ -392,7 +398,7 @@
 (define (x86_64:call-r info n)
   (let ((r (get-r info)))
     `((,(string-append "call___*%" r))
-      ("add____$i8,%rsp" (#:immediate1  ,(* n 8)))))) ;; NOT AMD
+      ,(pop-args n)))) ;; NOT AMD
 
 (define (x86_64:r0*r1 info)
   (let ((allocated (.allocated info))
@@ -520,11 +526,11 @@
     (cond ((< (abs v) #x80)
            `((,(string-append "cmp____$i8,%" r) (#:immediate1 ,v))))
           ((and (>= v 0)
-                (< v #xffffffff))
+                (< v #x80000000))
            `((,(string-append "cmp____$i32,%" r) (#:immediate ,v))))
           (else
-           `(,(string-append "mov____$i64,%r15") (#:immediate8 ,v)
-             ,(string-append "cmp____%r15,%" r))))))
+           `(("mov____$i64,%r15" (#:immediate8 ,v))
+             (,(string-append "cmp____%r15,%" r)))))))
 
 (define (x86_64:push-register info r)
   `((,(string-append "push___%" r))))
@@ -638,7 +644,7 @@
 (define (x86_64:r-and info v)
   (let ((r (get-r info)))
     (if (and (>= v 0)
-             (< v #xffffffff))
+             (< v #x80000000))
         `((,(string-append "and____$i32,%" r) (#:immediate ,v)))
         `((,(string-append "mov____$i64,%r15") (#:immediate8 ,v))
           (,(string-append "and____%r15,%" r))))))
-- 
2.43.0


From 6f12c2613ca9caf4eb9dccdf1154fc798657c4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 05/57] fix: mescc: i386: correct stack cleanup, byte test,
 xor-zf; add missing mnemonics

---
 lib/x86-mes/x86.M1       | 10 ++++++++++
 module/mescc/i386/as.scm | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/x86-mes/x86.M1 b/lib/x86-mes/x86.M1
index cf237a3..f391d40 100644
--- a/lib/x86-mes/x86.M1
+++ b/lib/x86-mes/x86.M1
@@ -21,8 +21,10 @@
 
 DEFINE add____$i32,%eax 05
 DEFINE add____$i32,%ebx 81c3
+DEFINE add____$i32,%esp 81c4
 DEFINE add____$i32,(%eax) 8100
 DEFINE add____$i32,(%ebx) 8103
+DEFINE add____$i32,0x32 8105
 DEFINE add____$i32,0x32(%eax) 8180
 DEFINE add____$i32,0x32(%ebp) 8185
 DEFINE add____$i8,%eax 83c0
@@ -52,6 +54,7 @@ DEFINE call___*%ebx ffd3
 DEFINE cltd 99
 DEFINE cmp____$0x32,%eax 3d
 DEFINE cmp____$i32,%eax 3d
+DEFINE cmp____$i32,%ebx 81fb
 DEFINE cmp____$i8,%eax 83f8
 DEFINE cmp____$i8,%ebx 83fb
 DEFINE div___%ebx f7f3
@@ -85,10 +88,16 @@ DEFINE mov____$i32,0x8(%ebp) c745
 DEFINE mov____$i8,%al b0
 DEFINE mov____$i8,%eax b0
 DEFINE mov____%al,(%ebx) 8803
+DEFINE mov____%al,0x32(%ebp) 8885
 DEFINE mov____%al,0x8(%ebp) 8845
 DEFINE mov____%ax,(%ebx) 668903
+DEFINE mov____%ax,0x32(%ebp) 668985
 DEFINE mov____%ax,0x8(%ebp) 668945
+DEFINE mov____%bl,0x32(%ebp) 889d
+DEFINE mov____%bl,0x8(%ebp) 885d
 DEFINE mov____%bx,%bx 6689db
+DEFINE mov____%bx,0x32(%ebp) 66899d
+DEFINE mov____%bx,0x8(%ebp) 66895d
 DEFINE mov____%cl,(%ebx) 880b
 DEFINE mov____%cx,(%ebx) 66890b
 DEFINE mov____%dl,(%eax) 8810
@@ -205,6 +214,7 @@ DEFINE sub____%al,%dl 28c2
 DEFINE sub____%dl,%al 28d0
 DEFINE sub____%ebx,%eax 29d8
 DEFINE test___%al,%al 84c0
+DEFINE test___%bl,%bl 84db
 DEFINE test___%eax,%eax 85c0
 DEFINE test___%ebx,%ebx 85db
 DEFINE xchg___%eax,%ebx 93
diff --git a/module/mescc/i386/as.scm b/module/mescc/i386/as.scm
index 0b786e5..b9447f1 100644
--- a/module/mescc/i386/as.scm
+++ b/module/mescc/i386/as.scm
@@ -74,9 +74,14 @@
         (r1 (get-r1 info)))
     `((,(string-append "add____%" r1 ",%" r0)))))
 
+(define (pop-args n)
+  (let ((n (* n 4)))
+    (if (< n #x80) `("add____$i8,%esp" (#:immediate1 ,n))
+        `("add____$i32,%esp" (#:immediate ,n)))))
+
 (define (i386:call-label info label n)
   `((call32 (#:offset ,label))
-    ("add____$i8,%esp" (#:immediate1 ,(* n 4)))))
+    ,(pop-args n)))
 
 (define (i386:r->arg info i)
   (let ((r (get-r info)))
@@ -103,9 +108,9 @@
       (,(string-append "movzbl_%" l ",%" r)))))
 
 (define (i386:xor-zf info)
-  '(("lahf")
-    ("xor____$i8,%ah" (#:immediate1 #x40))
-    ("sahf")))
+  (let ((l (e->l (get-r info))))
+    `((,(string-append "sete___%" l))
+      (,(string-append "test___%" l ",%" l)))))
 
 (define (i386:r->local+n info id n)
   (let ((n (+ (- 0 (* 4 id)) n))
@@ -176,8 +181,9 @@
   `(("jne32 " (#:offset ,label))))
 
 (define (i386:jump-byte-z info label)
-  `(("test___%al,%al")
-    ("je32  " (#:offset ,label))))
+  (let ((l (e->l (get-r info))))
+    `((,(string-append "test___%" l ",%" l))
+      ("je32  " (#:offset ,label)))))
 
 ;; signed
 (define (i386:jump-g info label)
@@ -312,7 +318,7 @@
 (define (i386:call-r info n)
   (let ((r (get-r info)))
     `((,(string-append "call___*%" r))
-      ("add____$i8,%esp" (#:immediate1  ,(* n 4))))))
+      ,(pop-args n))))
 
 (define (i386:r0*r1 info)
   (let ((allocated (.allocated info))
-- 
2.43.0


From e7461c9e0dc5e991048645c2cf539439f6b615bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:51 +0000
Subject: [PATCH 06/57] fix: mescc: armv4: correct clobbered operands and
 truncated immediates; add missing mnemonics

---
 lib/arm-mes/arm.M1        | 20 +++++++++
 module/mescc/armv4/as.scm | 92 ++++++++++++++++++++++++---------------
 2 files changed, 78 insertions(+), 34 deletions(-)

diff --git a/lib/arm-mes/arm.M1 b/lib/arm-mes/arm.M1
index a2a7a71..5ab907a 100644
--- a/lib/arm-mes/arm.M1
+++ b/lib/arm-mes/arm.M1
@@ -40,6 +40,8 @@ DEFINE add____%r1,%r1 011091e0 # adds    r1, r1, r1
 DEFINE and____%r1,%r0 010010e0 # ands    r0, r0, r1
 DEFINE and____$i8,%r0 0000e2
 DEFINE and____$i8,%r1 1001e2
+DEFINE and____$i32,%r0 04909fe5090010e0000000ea
+DEFINE and____$i32,%r1 04909fe5091011e0000000ea
 DEFINE call___*%r0 30ff2fe1
 DEFINE call___*%r1 31ff2fe1
 DEFINE cmp____$i8,%r0 0050e3
@@ -91,6 +93,7 @@ DEFINE mov____%r0,(%r1) 000081e5
 DEFINE mov____%r1,%r0 0100a0e1
 DEFINE mov____%r1,%r2 0120a0e1
 DEFINE mov____%esp,%r0 0d00a0e1
+DEFINE mov____%esp,%r2 0d20a0e1
 
 # e59f9004        ldr     r9, [pc, #4]    ; <L1>
 # e5890000        str     r0, [r9]
@@ -100,6 +103,10 @@ DEFINE mov____%esp,%r0 0d00a0e1
 DEFINE mov____%r0,0x32 04909fe5000089e5000000ea
 DEFINE mov____%r1,0x32 04909fe5001089e5000000ea
 DEFINE mov____%r2,0x32 04909fe5002089e5000000ea
+DEFINE movb___%r0,0x32 04909fe50000c9e5000000ea
+DEFINE movb___%r1,0x32 04909fe50010c9e5000000ea
+DEFINE movw___%r0,0x32 04909fe5b000c9e1000000ea
+DEFINE movw___%r1,0x32 04909fe5b010c9e1000000ea
 
 # e92d0005        push    {r0, r2}
 # e5910000        ldr     r0, [r1]
@@ -204,6 +211,7 @@ DEFINE str____%lr,(%fp,-#$i8) e00be5
 # Note: Loads INTO register r0 (ARM original operand order)
 DEFINE ldrsb__%r0,(%r0) d000d0e1  # ldrsb   r0, [r0]
 DEFINE ldrsb__%r0,(%r1) d000d1e1  # ldrsb   r0, [r1]
+DEFINE ldrsb__%r1,(%r0) d010d0e1  # ldrsb   r1, [r0]
 DEFINE ldrsb__%r1,(%r1) d010d1e1  # ldrsb   r1, [r1]
 DEFINE ldrsb__%r2,(%r2) d020d2e1  # ldrsb   r2, [r2]
 DEFINE ldrsb__%r3,(%r3) d030d3e1  # ldrsb   r3, [r3]
@@ -211,19 +219,24 @@ DEFINE ldrsb__%r4,(%r4) d040d4e1  # ldrsb   r4, [r4]
 DEFINE ldrsb__%r5,(%r5) d050d5e1  # ldrsb   r5, [r5]
 DEFINE ldrsh__%r0,(%r0) f000d0e1  # ldrsh   r0, [r0]
 DEFINE ldrsh__%r0,(%r1) f000d1e1  # ldrsh   r0, [r1]
+DEFINE ldrsh__%r1,(%r0) f010d0e1  # ldrsh   r1, [r0]
 DEFINE ldrsh__%r1,(%r1) f010d1e1  # ldrsh   r1, [r1]
 DEFINE ldrsh__%r2,(%r2) f020d2e1  # ldrsh   r2, [r2]
 DEFINE ldrsh__%r3,(%r3) f030d3e1  # ldrsh   r3, [r3]
 DEFINE strb___%r0,(%r0) 0000c0e5  # strb    r0, [r0]
 DEFINE strb___%r0,(%r1) 0000c1e5  # strb    r0, [r1]
+DEFINE strb___%r1,(%r0) 0010c0e5  # strb    r1, [r0]
 DEFINE strb___%r1,(%r1) 0010c1e5  # strb    r1, [r1]
 DEFINE strb___%r2,(%r2) 0020c2e5  # strb    r2, [r2]
 DEFINE strb___%r3,(%r3) 0030c3e5  # strb    r3, [r3]
 DEFINE strb___%r4,(%r4) 0040c4e5  # strb    r4, [r4]
 DEFINE strb___%r0,(%fp,+#$i8) 00cbe5 # strb    r0, [fp, +#xx]
 DEFINE strb___%r0,(%fp,-#$i8) 004be5 # strb    r0, [fp, -#xx]
+DEFINE strb___%r1,(%fp,+#$i8) 10cbe5 # strb    r1, [fp, +#xx]
+DEFINE strb___%r1,(%fp,-#$i8) 104be5 # strb    r1, [fp, -#xx]
 DEFINE strh___%r0,(%r0) b000c0e1  # strh    r0, [r0]
 DEFINE strh___%r0,(%r1) b000c1e1  # strh    r0, [r1]
+DEFINE strh___%r1,(%r0) b010c0e1  # strh    r1, [r0]
 DEFINE strh___%r1,(%r1) b010c1e1  # strh    r1, [r1]
 DEFINE strh___%r2,(%r2) b020c2e1  # strh    r2, [r2]
 DEFINE strh___%r3,(%r3) b030c3e1  # strh    r3, [r3]
@@ -239,12 +252,14 @@ DEFINE strb___%r2,(%r1) 0020c1e5  # strb    r2, [r1]
 # add %r9, %r9, %fp
 # strh %r0, [%r9]
 DEFINE strh___%r0,(%fp,+#$i8) 90a0e30b9089e0b000c9e1
+DEFINE strh___%r1,(%fp,+#$i8) 90a0e30b9089e0b010c9e1
 
 # There's a single instruction that does it--but I don't know how to encode it.
 # e3a090xx  mov %r9, immediate
 # e05b9009  sub %r9, %fp, %r9
 # e1c900b0  strh %r0, [%r9]
 DEFINE strh___%r0,(%fp,-#$i8) 90a0e309904be0b000c9e1
+DEFINE strh___%r1,(%fp,-#$i8) 90a0e309904be0b010c9e1
 
 DEFINE movle__%r0,$i8   00a0d3    # movle  r0, #xx
 DEFINE movlt__%r0,$i8   00a0b3    # movlt  r0, #xx
@@ -352,6 +367,7 @@ DEFINE ret 04e09de40ef0a0e1
 
 # The flags are also updated, but that's probably useless.
 DEFINE add____$i8,%esp d09de2
+DEFINE add____$i32,%esp 04909fe509d08de0000000ea
 
 # e24ddeff        sub     sp, sp, #4080
 # e24dd064        sub     sp, sp, #100
@@ -370,6 +386,7 @@ DEFINE mov____0x32(%ebp),%r1 08909fe50b9089e0001099e5000000ea
 # e59d0000        ldr     r0, [sp]
 # e58d9000        str     r9, [sp]
 DEFINE xchg___%r0,(%esp) 0090a0e100009de500908de5
+DEFINE xchg___%r1,(%esp) 0190a0e100109de500908de5
 
 # e52d1004        push    {r1}            ; (str r1, [sp, #-4]!)
 # e59f1010        ldr     r1, [pc, #16]   ; 1c <WERT>
@@ -401,5 +418,8 @@ DEFINE add____$i32,%r2 04909fe5092092e0000000ea
 # WERT: nop
 # WERTD:
 DEFINE strb___%r0,0x32(%ebp) 08909fe50b9089e00000c9e5000000ea
+DEFINE strb___%r1,0x32(%ebp) 08909fe50b9089e00010c9e5000000ea
+DEFINE strh___%r0,0x32(%ebp) 08909fe50b9089e0b000c9e1000000ea
+DEFINE strh___%r1,0x32(%ebp) 08909fe50b9089e0b010c9e1000000ea
 
 DEFINE wfi 03f020e3
diff --git a/module/mescc/armv4/as.scm b/module/mescc/armv4/as.scm
index e30338d..b04c9fa 100644
--- a/module/mescc/armv4/as.scm
+++ b/module/mescc/armv4/as.scm
@@ -98,9 +98,14 @@
         (r1 (get-r1 info)))
     `((,(string-append "add____%" r1 ",%" r0)))))
 
+(define (pop-args n)
+  (let ((n (* n 4)))
+    (if (< n #x100) `((#:immediate1 ,n) "add____$i8,%esp")
+        `("add____$i32,%esp" (#:immediate ,n)))))
+
 (define (armv4:call-label info label n)
   `(((#:offset3 ,label) bl)
-    ((#:immediate1 ,(* n 4)) "add____$i8,%esp")))
+    ,(pop-args n)))
 
 (define (armv4:r->arg info i)
   (let ((r (get-r info)))
@@ -126,9 +131,10 @@
   (armv4:zf->r info))
 
 (define (armv4:xor-zf info)
-  '(((#:immediate1 #x00) "mov____$i8,%r0")
-    ((#:immediate1 #x01) "moveq__%r0,$i8")
-    ((#:immediate1 #x00) "cmp____$i8,%r0")))
+  (let ((r (get-r info)))
+    `(((#:immediate1 #x00) ,(string-append "mov____$i8,%" r))
+      ((#:immediate1 #x01) ,(string-append "moveq__%" r ",$i8"))
+      ((#:immediate1 #x00) ,(string-append "cmp____$i8,%" r)))))
 
 (define (armv4:r->local+n info id n)
   (let ((n (+ (- 0 (* 4 id)) n))
@@ -146,26 +152,28 @@
    `((,(string-append "add____$i32,(%" r ")") (#:immediate ,v)))))
 
 (define (armv4:r-byte-mem-add info v)
-  (let ((r (get-r info)))
-    `((,(string-append "push___%r0"))
-      (,(string-append "ldrsb__%r0,(%" r ")"))
+  (let* ((r (get-r info))
+         (t (if (equal? r "r0") "r1" "r0")))
+    `((,(string-append "push___%" t))
+      (,(string-append "ldrsb__%" t ",(%" r ")"))
       ,(optimize-immediate v
-        `((#:immediate1 ,v) ,(string-append "add____$i8,%r0"))
-        `((#:immediate1 ,(- v)) ,(string-append "sub____$i8,%r0"))
+        `((#:immediate1 ,v) ,(string-append "add____$i8,%" t))
+        `((#:immediate1 ,(- v)) ,(string-append "sub____$i8,%" t))
         (error "armv4:r-byte-mem-add got immediate that doesn't fit into 8 bits."))
-      (,(string-append "strb___%r0,(%" r ")"))
-      (,(string-append "pop____%r0")))))
+      (,(string-append "strb___%" t ",(%" r ")"))
+      (,(string-append "pop____%" t)))))
 
 (define (armv4:r-word-mem-add info v)
-  (let ((r (get-r info)))
-    `((,(string-append "push___%r0"))
-      (,(string-append "ldrsh__%r0,(%" r ")"))
+  (let* ((r (get-r info))
+         (t (if (equal? r "r0") "r1" "r0")))
+    `((,(string-append "push___%" t))
+      (,(string-append "ldrsh__%" t ",(%" r ")"))
       ,(optimize-immediate v
-        `((#:immediate1 ,v) ,(string-append "add____$i8,%r0"))
-        `((#:immediate1 ,(- v)) ,(string-append "sub____$i8,%r0"))
-        `(("add____$i32,(%r0)" (#:immediate ,v))))
-      (,(string-append "strh___%r0,(%" r ")"))
-      (,(string-append "pop____%r0")))))
+        `((#:immediate1 ,v) ,(string-append "add____$i8,%" t))
+        `((#:immediate1 ,(- v)) ,(string-append "sub____$i8,%" t))
+        `(,(string-append "add____$i32,%" t) (#:immediate ,v)))
+      (,(string-append "strh___%" t ",(%" r ")"))
+      (,(string-append "pop____%" t)))))
 
 (define (armv4:local-ptr->r info n)
   (let ((r (get-r info)))
@@ -216,8 +224,10 @@
   `(((#:offset3 ,label) "jne")))
 
 (define (armv4:jump-byte-z info label)
-  `(("test___%r0,%r0") ; TODO: 1 Byte ?
-    ((#:offset3 ,label) "je")))
+  (let ((r (get-r info)))
+    `((,(string-append "uxtb__%" r ",%" r))
+      (,(string-append "test___%" r ",%" r))
+      ((#:offset3 ,label) "je"))))
 
 ;; signed
 (define (armv4:jump-g info label)
@@ -256,7 +266,8 @@
 
 (define (armv4:word-mem->r info)
   (let ((r (get-r info)))
-    `((,(string-append "ldrsh__%" r ",(%" r ")")))))
+    `((,(string-append "ldrsh__%" r ",(%" r ")"))
+      (,(string-append "uxth__%" r ",%" r)))))
 
 (define (armv4:mem->r info)
   (let ((r (get-r info)))
@@ -264,14 +275,24 @@
 
 (define (armv4:local-add info n v)
   (let ((n (- 0 (* 4 n))))
-    (append (immediate->r0 v)
-           `(("mov____0x32(%ebp),%r1" (#:immediate ,n))
-             ("add____%r0,%r1")
-             ("mov____%r1,0x32(%ebp)" (#:immediate ,n))))))
+    `(("push___%r0")
+      ("push___%r1")
+      ,@(immediate->r0 v)
+      ("mov____0x32(%ebp),%r1" (#:immediate ,n))
+      ("add____%r0,%r1")
+      ("mov____%r1,0x32(%ebp)" (#:immediate ,n))
+      ("pop____%r1")
+      ("pop____%r0"))))
 
 (define (armv4:label-mem-add info label v)
-  (append (immediate->r0 v)
-         `(("add____%r0,0x32" (#:address ,label)))))
+  `(("push___%r0")
+    ("push___%r1")
+    ,@(immediate->r0 v)
+    ("mov____0x32,%r1" (#:address ,label))
+    ("add____%r0,%r1")
+    ("mov____%r1,0x32" (#:address ,label))
+    ("pop____%r1")
+    ("pop____%r0")))
 
 (define (armv4:nop info)
   '(("nop")))
@@ -335,8 +356,7 @@
 (define (armv4:call-r info n)
   (let ((r (get-r info)))
     `((,(string-append "call___*%" r))
-      ;; Note: Assumes n > 0.
-      ((#:immediate1  ,(* n 4)) "add____$i8,%esp"))))
+      ,(pop-args n))))
 
 (define (armv4:r0*r1 info)
   ;; FIXME: Signedness.
@@ -384,8 +404,8 @@
                (armv4:call-label #f "__mesabi_imod" 2))
         ;; __mesabi_uldiv(a, b, remainderp)
         (append `(("push___%r0") ; slot for remainder
-                  ("mov____%esp,%r0")
-                  ("push___%r0") ; pointer to remainder
+                  ("mov____%esp,%r2")
+                  ("push___%r2") ; pointer to remainder
                   (,(string-append "push___%" r1))
                   (,(string-append "push___%" r0)))
                 (armv4:call-label #f "__mesabi_uldiv" 3)
@@ -507,11 +527,15 @@
         ,(string-append "strh___%" r ",(%fp,+#$i8)")))
      `(((#:immediate1 ,(- n))
         ,(string-append "strh___%" r ",(%fp,-#$i8)")))
-     `((,(string-append "strh___%" r ",0x32(%ebp)"))))))
+     `((,(string-append "strh___%" r ",0x32(%ebp)")
+        (#:immediate ,n))))))
 
 (define (armv4:r-and info v)
   (let ((r (get-r info)))
-    `(((#:immediate1 ,v) ,(string-append "and____$i8,%" r)))))
+    (if (and (>= v 0)
+             (< v #x100))
+        `(((#:immediate1 ,v) ,(string-append "and____$i8,%" r)))
+        `((,(string-append "and____$i32,%" r) (#:immediate ,v))))))
 
 (define (armv4:push-r0 info)
   (let ((r0 (get-r0 info)))
-- 
2.43.0


From 5bab8b6ebdaa722bd6d49a80b038103561931c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 07/57] fix: apply_builtin: do not leave the values object
 behind as an extra argument

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index bd09cb3..0692b51 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -310,7 +310,7 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
       d = x->cdr;
       if (d->type == TPAIR)
         if (d->car->type == TVALUES)
-          x = cons (a, cons (d->car->cdr->car, d));
+          x = cons (a, cons (d->car->cdr->car, d->cdr));
     }
 
   if (arity == 0)
-- 
2.43.0


From 379bb23cc345c00a45c79c955034fc2a1c60dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 08/57] fix: eval_define: decide kind of definition after
 evaluating its value

---
 src/eval-apply.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index 0692b51..a92899e 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -655,6 +655,13 @@ eval:
                     goto eval;
                   }
               eval_define:
+                /* Evaluating the value may have run a nested define. */
+                global_p = 0;
+                if (R0->car->car != cell_closure)
+                  global_p = 1;
+                macro_p = 0;
+                if (R2->car == cell_symbol_define_macro)
+                  macro_p = 1;
                 name = R2->cdr->car;
                 aa = R2->cdr->car;
                 if (aa->type == TPAIR)
-- 
2.43.0


From 9d374afee72f377585bc2bca1e959b5eb79d4368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 09/57] fix: primitive-load: restore the input port when
 loading from stdin

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index a92899e..8bf3fad 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -882,7 +882,7 @@ begin_expand:
               goto eval;
             begin_expand_primitive_load:
               if ((R1->type == TNUMBER) && R1->value == 0)
-                0;
+                input = current_input_port ();
               else if (R1->type == TSTRING)
                 input = set_current_input_port (open_input_file (R1));
               else if (R1->type == TPORT)
-- 
2.43.0


From 94aef03b3ec8f53e44710ea98723724a8491043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 10/57] fix: apply_builtin: call built-ins of four arguments
 (make-builtin)

---
 include/mes/cc.h  | 2 ++
 include/mes/mes.h | 1 +
 src/cc.c          | 7 +++++++
 src/eval-apply.c  | 2 ++
 src/m2.c          | 7 +++++++
 5 files changed, 19 insertions(+)

diff --git a/include/mes/cc.h b/include/mes/cc.h
index 1255537..0f97d29 100644
--- a/include/mes/cc.h
+++ b/include/mes/cc.h
@@ -29,6 +29,7 @@ typedef long function0_t;
 typedef long function1_t;
 typedef long function2_t;
 typedef long function3_t;
+typedef long function4_t;
 typedef long functionn_t;
 #else // !__MESC__
 typedef SCM (*FUNCTION) (void);
@@ -36,6 +37,7 @@ typedef SCM (*function0_t) (void);
 typedef SCM (*function1_t) (SCM);
 typedef SCM (*function2_t) (SCM, SCM);
 typedef SCM (*function3_t) (SCM, SCM, SCM);
+typedef SCM (*function4_t) (SCM, SCM, SCM, SCM);
 typedef SCM (*functionn_t) (SCM);
 #endif // !__MESC__
 
diff --git a/include/mes/mes.h b/include/mes/mes.h
index 9ef6491..e62445f 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -121,6 +121,7 @@ struct scm *apply_builtin0 (struct scm *fn);
 struct scm *apply_builtin1 (struct scm *fn, struct scm *x);
 struct scm *apply_builtin2 (struct scm *fn, struct scm *x, struct scm *y);
 struct scm *apply_builtin3 (struct scm *fn, struct scm *x, struct scm *y, struct scm *z);
+struct scm *apply_builtin4 (struct scm *fn, struct scm *w, struct scm *x, struct scm *y, struct scm *z);
 struct scm *builtin_name (struct scm *builtin);
 struct scm *cstring_to_list (char const *s);
 struct scm *cstring_to_symbol (char const *s);
diff --git a/src/cc.c b/src/cc.c
index 98f93af..02153cb 100644
--- a/src/cc.c
+++ b/src/cc.c
@@ -49,6 +49,13 @@ apply_builtin3 (struct scm *fn, struct scm *x, struct scm *y, struct scm *z)
   return fp (x, y, z);
 }
 
+struct scm *
+apply_builtin4 (struct scm *fn, struct scm *w, struct scm *x, struct scm *y, struct scm *z)
+{
+  struct scm *(*fp) (struct scm *, struct scm *, struct scm *, struct scm *) = (function4_t) builtin_function (fn);
+  return fp (w, x, y, z);
+}
+
 #undef cast_charp_to_scmp
 #undef cast_charp_to_scmpp
 #undef cast_voidp_to_charp
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 8bf3fad..e92f9a8 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -321,6 +321,8 @@ apply_builtin (struct scm *fn, struct scm *x)   /*:((internal)) */
     return apply_builtin2 (fn, x->car, x->cdr->car);
   else if (arity == 3)
     return apply_builtin3 (fn, x->car, x->cdr->car, x->cdr->cdr->car);
+  else if (arity == 4)
+    return apply_builtin4 (fn, x->car, x->cdr->car, x->cdr->cdr->car, x->cdr->cdr->cdr->car);
   else if (arity == -1)
     return apply_builtin1 (fn, x);
 
diff --git a/src/m2.c b/src/m2.c
index 4c8500b..82c3d34 100644
--- a/src/m2.c
+++ b/src/m2.c
@@ -49,6 +49,13 @@ apply_builtin3 (struct scm *fn, struct scm *x, struct scm *y, struct scm *z)
   return fp (x, y, z);
 }
 
+struct scm *
+apply_builtin4 (struct scm *fn, struct scm *w, struct scm *x, struct scm *y, struct scm *z)
+{
+  FUNCTION fp = builtin_function (fn);
+  return fp (w, x, y, z);
+}
+
 #undef cast_charp_to_scmp
 #undef cast_charp_to_scmpp
 #undef cast_voidp_to_charp
-- 
2.43.0


From b032175079c2741ae3a742a9fc75971bcd31972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 11/57] fix: check_formals: an improper argument list is a
 wrong number of arguments

---
 src/eval-apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval-apply.c b/src/eval-apply.c
index e92f9a8..7caec0b 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -40,7 +40,7 @@ check_formals (struct scm *f, struct scm *formals, struct scm *args)    /*:((int
   else
     flen = length__ (formals);
   long alen = length__ (args);
-  if (alen != flen && alen != -1 && flen != -1)
+  if (alen != flen && flen != -1)
     {
       char *s = "apply: wrong number of arguments; expected: ";
       eputs (s);
-- 
2.43.0


From 2f54fc6c04a35431d973177ce863820b31185f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 12/57] fix: vector, struct, string: reject indices below zero
 and at the length

---
 src/string.c | 2 +-
 src/struct.c | 2 ++
 src/vector.c | 3 +++
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/string.c b/src/string.c
index 171cb7b..d30ba92 100644
--- a/src/string.c
+++ b/src/string.c
@@ -229,7 +229,7 @@ string_ref (struct scm *str, struct scm *k)
   assert_msg (k->type == TNUMBER, "k->type == TNUMBER");
   size_t size = str->length;
   size_t i = k->value;
-  if (i > size)
+  if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
   return make_char (p[i]);
diff --git a/src/struct.c b/src/struct.c
index 19162c7..07ee1c9 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -58,6 +58,7 @@ struct scm *
 struct_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->structure, i);
   if (e->type == TREF)
@@ -73,6 +74,7 @@ struct scm *
 struct_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TSTRUCT, "x->type == TSTRUCT");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->structure, i), vector_entry (e));
   return cell_unspecified;
diff --git a/src/vector.c b/src/vector.c
index 0fc8404..570275d 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -32,6 +32,7 @@
 struct scm *
 make_vector_ (long k, struct scm *e)
 {
+  assert_msg (k >= 0, "k >= 0");
   struct scm *x = alloc (1);
   struct scm *v = alloc (k);
   x->type = TVECTOR;
@@ -68,6 +69,7 @@ struct scm *
 vector_ref_ (struct scm *x, long i)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   struct scm *e = cell_ref (x->vector, i);
   if (e->type == TREF)
@@ -97,6 +99,7 @@ struct scm *
 vector_set_x_ (struct scm *x, long i, struct scm *e)
 {
   assert_msg (x->type == TVECTOR, "x->type == TVECTOR");
+  assert_msg (i >= 0, "i >= 0");
   assert_msg (i < x->length, "i < x->length");
   copy_cell (cell_ref (x->vector, i), vector_entry (e));
   return cell_unspecified;
-- 
2.43.0


From 1193386e3c7da3b7d9a019f7e894aa2f9f5dc8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 13/57] fix: display: test the character being written, not a
 constant

---
 mes/module/mes/display.mes | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mes/module/mes/display.mes b/mes/module/mes/display.mes
index e3bbf58..ed2c7d4 100644
--- a/mes/module/mes/display.mes
+++ b/mes/module/mes/display.mes
@@ -97,8 +97,8 @@
                                cdr)))
               (write-char #\# port)
               (when (or name
-                        (and (>= (char->integer 32))
-                             (<= (char->integer 127))))
+                        (and (>= (char->integer x) 32)
+                             (<= (char->integer x) 127)))
                 (write-char #\\ port))
               (if name (display name port)
                   (write-char x port)))))
-- 
2.43.0


From 1fd4c0c0579d437cbd54f62d5eede40daf85bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:36 +0000
Subject: [PATCH 14/57] fix: type-check operands of string, vector, struct and
 char builtins

---
 src/lib.c    |  2 ++
 src/string.c | 11 +++++++++--
 src/struct.c |  2 ++
 src/vector.c |  3 +++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.c b/src/lib.c
index f892553..368b7e3 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -165,11 +165,13 @@ pair_p (struct scm *x)
 struct scm *
 char_to_integer (struct scm *x)
 {
+  assert_msg (x->type == TCHAR, "x->type == TCHAR");
   return make_number (x->value);
 }
 
 struct scm *
 integer_to_char (struct scm *x)
 {
+  assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
   return make_char (x->value);
 }
diff --git a/src/string.c b/src/string.c
index d30ba92..de30f6b 100644
--- a/src/string.c
+++ b/src/string.c
@@ -51,6 +51,7 @@ list_to_cstring (struct scm *list, size_t *size)
       if (i > MAX_STRING)
         assert_max_string (i, "list_to_string", g_buf);
       x = car (list);
+      assert_msg (x->type == TCHAR, "x->type == TCHAR");
       g_buf[i] = x->value;
       i = i + 1;
       list = cdr (list);
@@ -64,7 +65,7 @@ list_to_cstring (struct scm *list, size_t *size)
 struct scm *
 string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
 {
-  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)))
+  if (!((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)))
     {
       eputs ("type a: ");
       eputs (itoa (a->type));
@@ -78,7 +79,7 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
       eputs ("b= ");
       write_error_ (b);
       eputs ("\n");
-      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD || b->type == TKEYWORD)");
+      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)");
     }
   if (a == b)
     return cell_t;
@@ -96,24 +97,28 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
 struct scm *
 symbol_to_string (struct scm *symbol)
 {
+  assert_msg (symbol->type == TSYMBOL, "symbol->type == TSYMBOL");
   return make_cell (TSTRING, symbol->car, symbol->cdr);
 }
 
 struct scm *
 symbol_to_keyword (struct scm *symbol)
 {
+  assert_msg (symbol->type == TSYMBOL, "symbol->type == TSYMBOL");
   return make_cell (TKEYWORD, symbol->car, symbol->cdr);
 }
 
 struct scm *
 keyword_to_string (struct scm *keyword)
 {
+  assert_msg (keyword->type == TKEYWORD, "keyword->type == TKEYWORD");
   return make_cell (TSTRING, keyword->car, keyword->cdr);
 }
 
 struct scm *
 string_to_symbol (struct scm *string)
 {
+  assert_msg (string->type == TSTRING, "string->type == TSTRING");
   struct scm *x = hash_ref (g_symbols, string, cell_f);
   if (x == cell_f)
     x = make_symbol (string);
@@ -123,6 +128,7 @@ string_to_symbol (struct scm *string)
 struct scm *
 make_symbol (struct scm *string)
 {
+  assert_msg (string->type == TSTRING, "string->type == TSTRING");
   struct scm *x = make_pointer_cell (TSYMBOL, string->length, string->string);
   hash_set_x (g_symbols, string, x);
   return x;
@@ -158,6 +164,7 @@ cstring_to_symbol (char const *s)
 struct scm *
 string_to_list (struct scm *string)
 {
+  assert_msg (string->type == TSTRING || string->type == TSYMBOL || string->type == TKEYWORD || string->type == TSPECIAL, "string->type == TSTRING || string->type == TSYMBOL || string->type == TKEYWORD || string->type == TSPECIAL");
   return bytes_to_list (cell_bytes (string->string), string->length);
 }
 
diff --git a/src/struct.c b/src/struct.c
index 07ee1c9..c485701 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -83,11 +83,13 @@ struct_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 struct_ref (struct scm *x, struct scm *i)
 {
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
   return struct_ref_ (x, i->value);
 }
 
 struct scm *
 struct_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
   return struct_set_x_ (x, i->value, e);
 }
diff --git a/src/vector.c b/src/vector.c
index 570275d..a9eca06 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -84,6 +84,7 @@ vector_ref_ (struct scm *x, long i)
 struct scm *
 vector_ref (struct scm *x, struct scm *i)
 {
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
   return vector_ref_ (x, i->value);
 }
 
@@ -108,6 +109,7 @@ vector_set_x_ (struct scm *x, long i, struct scm *e)
 struct scm *
 vector_set_x (struct scm *x, struct scm *i, struct scm *e)
 {
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
   return vector_set_x_ (x, i->value, e);
 }
 
@@ -128,6 +130,7 @@ list_to_vector (struct scm *x)
 struct scm *
 vector_to_list (struct scm *v)
 {
+  assert_msg (v->type == TVECTOR, "v->type == TVECTOR");
   struct scm *x = cell_nil;
   long i;
   struct scm *e;
-- 
2.43.0


From 85e558c322f198091c592a42da2c8ffc483ddf54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 15/57] fix: gc_copy: detect the end of the memory instead of
 overrunning the stack

---
 src/gc.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/gc.c b/src/gc.c
index 62643bb..bf45256 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -483,16 +483,29 @@ gc_flip ()
     gc_stats_ (";;; => jam");
 }
 
+void
+gc_copy_check (long n)
+{
+  /* The stack sits behind the arena; its frames start at g_stack. */
+  struct scm *x = g_free + (n * M2_CELL_SIZE);
+  char *p = cast_voidp_to_charp (g_stack_array);
+  p = p + (g_stack * sizeof (struct scm *));
+  if (cast_voidp_to_charp (x) > p)
+    assert_msg (0, "gc_copy: out of memory");
+}
+
 struct scm *
 gc_copy (struct scm *old)               /*:((internal)) */
 {
   if (old->type == TBROKEN_HEART)
     return old->car;
   struct scm *new = g_free;
+  gc_copy_check (1);
   g_free = g_free + M2_CELL_SIZE;
   copy_news (new, old);
   if (new->type == TSTRUCT || new->type == TVECTOR)
     {
+      gc_copy_check (old->length);
       new->vector = g_free;
       long i;
       for (i = 0; i < old->length; i = i + 1)
@@ -506,6 +519,7 @@ gc_copy (struct scm *old)               /*:((internal)) */
       char const *src = cell_bytes (old);
       char *dest = news_bytes (new);
       size_t length = new->length;
+      gc_copy_check (bytes_cells (length) - 1);
       memcpy (dest, src, length);
       g_free = g_free + ((bytes_cells (length) - 1) * M2_CELL_SIZE);
 
-- 
2.43.0


From 784784c3f31cac013ddfbcfd194eda9365a0d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:05 +0000
Subject: [PATCH 16/57] fix: type-check operands of the posix builtins before
 using them

---
 src/posix.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index bfb1bcd..730fc18 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -128,6 +128,7 @@ read_byte ()
 struct scm *
 unread_byte (struct scm *i)
 {
+  assert_msg (i->type == TNUMBER, "i->type == TNUMBER");
   unreadchar (i->value);
   return i;
 }
@@ -153,6 +154,7 @@ read_char (struct scm *port)            /*:((arity . n)) */
 struct scm *
 unread_char (struct scm *i)
 {
+  assert_msg (i->type == TCHAR, "i->type == TCHAR");
   unreadchar (i->value);
   return i;
 }
@@ -170,6 +172,7 @@ write_byte (struct scm *x)              /*:((arity . n)) */
   struct scm *c = car (x);
   struct scm *p = cdr (x);
   int fd = __stdout;
+  assert_msg (c->type == TNUMBER || c->type == TCHAR, "c->type == TNUMBER || c->type == TCHAR");
   if (p->type == TPAIR)
     {
       struct scm *f = p->car;
@@ -184,15 +187,13 @@ write_byte (struct scm *x)              /*:((arity . n)) */
     }
   char cc = c->value;
   write (fd, &cc, 1);
-#if !__MESC__
-  assert_msg (c->type == TNUMBER || c->type == TCHAR, "c->type == TNUMBER || c->type == TCHAR");
-#endif
   return c;
 }
 
 struct scm *
 getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 {
+  assert_msg (s->type == TSTRING, "s->type == TSTRING");
   char *p;
   p = getenv (cell_bytes (s->string));
   if (p != 0)
@@ -203,6 +204,8 @@ getenv_ (struct scm *s)                 /*:((name . "getenv")) */
 struct scm *
 setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 {
+  assert_msg (s->type == TSTRING, "s->type == TSTRING");
+  assert_msg (v->type == TSTRING, "v->type == TSTRING");
   char *buf = __setenv_buf;
   strcpy (buf, cell_bytes (s->string));
   setenv (buf, cell_bytes (v->string), 1);
@@ -212,6 +215,8 @@ setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
 struct scm *
 access_p (struct scm *file_name, struct scm *mode)
 {
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
+  assert_msg (mode->type == TNUMBER, "mode->type == TNUMBER");
   int result = access (cell_bytes (file_name->string), mode->value);
   if (result == 0)
     return cell_t;
@@ -238,6 +243,7 @@ current_input_port ()
 struct scm *
 open_input_file (struct scm *file_name)
 {
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
   int filedes = mes_open (cell_bytes (file_name->string), O_RDONLY, 0);
   if (filedes == -1)
     error (cell_symbol_system_error, cons (make_string0 ("No such file or directory"), file_name));
@@ -247,6 +253,7 @@ open_input_file (struct scm *file_name)
 struct scm *
 open_input_string (struct scm *string)
 {
+  assert_msg (string->type == TSTRING, "string->type == TSTRING");
   struct scm *port = make_string_port (string);
   g_ports = cons (port, g_ports);
   return port;
@@ -285,6 +292,7 @@ struct scm *
 open_output_file (struct scm *x)        /*:((arity . n)) */
 {
   struct scm *file_name = car (x);
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
   x = cdr (x);
   int mode = S_IRUSR | S_IWUSR;
   if (x->type == TPAIR)
@@ -299,6 +307,7 @@ open_output_file (struct scm *x)        /*:((arity . n)) */
 struct scm *
 set_current_output_port (struct scm *port)
 {
+  assert_msg (port->type == TNUMBER, "port->type == TNUMBER");
   if (port->value != 0)
     __stdout = port->value;
   else
@@ -309,6 +318,7 @@ set_current_output_port (struct scm *port)
 struct scm *
 set_current_error_port (struct scm *port)
 {
+  assert_msg (port->type == TNUMBER, "port->type == TNUMBER");
   if (port->value != 0)
     __stderr = port->value;
   else
@@ -319,6 +329,8 @@ set_current_error_port (struct scm *port)
 struct scm *
 chmod_ (struct scm *file_name, struct scm *mode)        /*:((name . "chmod")) */
 {
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
+  assert_msg (mode->type == TNUMBER, "mode->type == TNUMBER");
   chmod (cell_bytes (file_name->string), mode->value);
   return cell_unspecified;
 }
@@ -326,6 +338,7 @@ chmod_ (struct scm *file_name, struct scm *mode)        /*:((name . "chmod")) */
 struct scm *
 isatty_p (struct scm *port)
 {
+  assert_msg (port->type == TNUMBER, "port->type == TNUMBER");
   if (isatty (port->value) != 0)
     return cell_t;
   return cell_f;
@@ -340,6 +353,7 @@ primitive_fork ()
 struct scm *
 execl_ (struct scm *file_name, struct scm *args)        /*:((name . "execl")) */
 {
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
   char **c_argv = __execl_c_argv;
   int i = 0;
 
@@ -372,6 +386,8 @@ execl_ (struct scm *file_name, struct scm *args)        /*:((name . "execl")) */
 struct scm *
 waitpid_ (struct scm *pid, struct scm *options)
 {
+  assert_msg (pid->type == TNUMBER, "pid->type == TNUMBER");
+  assert_msg (options->type == TNUMBER, "options->type == TNUMBER");
   int status;
   int child = waitpid (pid->value, &status, options->value);
   return cons (make_number (child), make_number (status));
@@ -392,6 +408,7 @@ init_time (struct scm *a)               /*:((internal)) */
 {
   clock_gettime (CLOCK_PROCESS_CPUTIME_ID, g_start_time);
   a = acons (cell_symbol_internal_time_units_per_second, make_number (TIME_UNITS_PER_SECOND), a);
+  return a;
 }
 
 struct scm *
@@ -441,12 +458,15 @@ getcwd_ ()                      /*:((name . "getcwd")) */
 struct scm *
 dup_ (struct scm *port)                 /*:((name . "dup")) */
 {
+  assert_msg (port->type == TNUMBER, "port->type == TNUMBER");
   return make_number (dup (port->value));
 }
 
 struct scm *
 dup2_ (struct scm *old, struct scm *new)        /*:((name . "dup2")) */
 {
+  assert_msg (old->type == TNUMBER, "old->type == TNUMBER");
+  assert_msg (new->type == TNUMBER, "new->type == TNUMBER");
   dup2 (old->value, new->value);
   return cell_unspecified;
 }
@@ -454,6 +474,7 @@ dup2_ (struct scm *old, struct scm *new)        /*:((name . "dup2")) */
 struct scm *
 delete_file (struct scm *file_name)
 {
+  assert_msg (file_name->type == TSTRING, "file_name->type == TSTRING");
   unlink (cell_bytes (file_name->string));
   return cell_unspecified;
 }
-- 
2.43.0


From 177d24425b44d918243e2f36c3758cf523367dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 17/57] fix: math: division, modulo and shifts of negative
 operands; check every operand's type

---
 src/math.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/math.c b/src/math.c
index 2d0a502..8869ec9 100644
--- a/src/math.c
+++ b/src/math.c
@@ -96,6 +96,7 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
   while (x != cell_nil)
     {
       i = car (x);
+      assert_number ("is_p", i);
       v = i->value;
       if (v != n)
         return cell_f;
@@ -107,6 +108,8 @@ is_p (struct scm *x)                    /*:((name . "=") (arity . n)) */
 struct scm *
 minus (struct scm *x)                   /*:((name . "-") (arity . n)) */
 {
+  if (x == cell_nil)
+    error (cell_symbol_wrong_number_of_args, cstring_to_symbol ("-"));
   assert_number ("minus", x->car);
   long n = x->car->value;
   x = cdr (x);
@@ -170,11 +173,11 @@ divide (struct scm *x)                  /*:((name . "/") (arity . n)) */
       assert_number ("divide", i);
       v = i->value;
       sign_p = sign_p && v > 0 || !sign_p && v < 0;
-      w = v;
       if (v == 0)
         error (cstring_to_symbol ("divide-by-zero"), x);
-      if (u == 0)
-        break;
+      w = v;
+      if (v < 0)
+        w = -v;
       if (w != 1)
         u = u / w;
       x = cdr (x);
@@ -201,14 +204,19 @@ modulo (struct scm *a, struct scm *b)
       sign_p = 1;
       w = -v;
     }
-  while (n < 0)
-    n = n + w;
   size_t u = n;
-  if (u != 0)
+  if (n < 0)
+    {
+      u = -n;
+      u = u % w;
+      if (u != 0)
+        u = w - u;
+    }
+  else
     u = u % w;
   n = u;
-  if (sign_p)
-    n = -n;
+  if (sign_p && n != 0)
+    n = n - w;
   return make_number (n);
 }
 
@@ -238,7 +246,7 @@ logand (struct scm *x)                  /*:((arity . n)) */
   while (x != cell_nil)
     {
       i = car (x);
-      assert_number ("multiply", i);
+      assert_number ("logand", i);
       v = i->value;
       n = n & v;
       x = cdr (x);
@@ -295,10 +303,15 @@ ash (struct scm *n, struct scm *count)
   assert_number ("ash", count);
   long cn = n->value;
   long ccount = count->value;
+  long bits = 8 * sizeof (long);
   long result;
+  if (ccount <= -bits)
+    ccount = 1 - bits;
   if (ccount < 0)
     result = cn >> -ccount;
-  else
+  else if (ccount < bits)
     result = cn << ccount;
+  else
+    result = 0;
   return make_number (result);
 }
-- 
2.43.0


From 953214d65fcf978b65659dda548c3c3c37e471f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 18/57] fix: assq, memq compare with eq?; append2,
 append-reverse, core:reverse! check every pair

---
 src/core.c | 19 ++++++++-----------
 src/lib.c  |  3 +--
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/core.c b/src/core.c
index 15585e4..0936d1c 100644
--- a/src/core.c
+++ b/src/core.c
@@ -166,11 +166,11 @@ append2 (struct scm *x, struct scm *y)
 {
   if (x == cell_nil)
     return y;
-  if (x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
   struct scm *r = cell_nil;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append2")));
       r = cons (x->car, r);
       x = x->cdr;
     }
@@ -180,12 +180,10 @@ append2 (struct scm *x, struct scm *y)
 struct scm *
 append_reverse (struct scm *x, struct scm *y)
 {
-  if (x == cell_nil)
-    return y;
-  if (x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("append-reverse")));
       y = cons (x->car, y);
       x = x->cdr;
     }
@@ -195,11 +193,11 @@ append_reverse (struct scm *x, struct scm *y)
 struct scm *
 reverse_x_ (struct scm *x, struct scm *t)
 {
-  if (x != cell_nil && x->type != TPAIR)
-    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
   struct scm *r = t;
   while (x != cell_nil)
     {
+      if (x->type != TPAIR)
+        error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("core:reverse!")));
       t = x->cdr;
       x->cdr = r;
       r = x;
@@ -224,10 +222,9 @@ assq (struct scm *x, struct scm *a)
       }
   else if (t == TCHAR || t == TNUMBER)
     {
-      long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->car->value)
+          if (eq_p (x, a->car->car) == cell_t)
             return a->car;
           a = a->cdr;
         }
@@ -236,7 +233,7 @@ assq (struct scm *x, struct scm *a)
     {
       while (a != cell_nil)
         {
-          if (string_equal_p (x, a->car->car) == cell_t)
+          if (eq_p (x, a->car->car) == cell_t)
             return a->car;
           a = a->cdr;
         }
diff --git a/src/lib.c b/src/lib.c
index 368b7e3..018eeb4 100644
--- a/src/lib.c
+++ b/src/lib.c
@@ -71,10 +71,9 @@ memq (struct scm *x, struct scm *a)
   int t = x->type;
   if (t == TCHAR || t == TNUMBER)
     {
-      long v = x->value;
       while (a != cell_nil)
         {
-          if (v == a->car->value)
+          if (eq_p (x, a->car) == cell_t)
             return a;
           a = a->cdr;
         }
-- 
2.43.0


From 62ac4c3eb4ed476c4482fb3883dee977f606c01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 19/57] fix: reader, string: never write beyond the string
 buffer; end of file inside a datum is an error

---
 src/reader.c | 34 ++++++++++++++++++++++------------
 src/string.c | 12 ++++++------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 6b42178..7428aec 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -50,6 +50,7 @@ reader_read_line_comment (int c)
       c = readchar ();
     }
   error (cell_symbol_system_error, make_string0 ("reader_read_line_comment"));
+  return c;
 }
 
 struct scm *reader_read_block_comment (int s, int c);
@@ -71,20 +72,22 @@ reader_end_of_word_p (int c)
 struct scm *
 reader_read_identifier_or_number (int c)
 {
-  int i = 0;
+  size_t i = 0;
   long n = 0;
   int negative_p = 0;
-  if (c == '+')
-    if (isdigit (peekchar ()) != 0)
-      c = readchar ();
-  if (c == '-')
+  if (c == '+' || c == '-')
     if (isdigit (peekchar ()) != 0)
       {
-        negative_p = 1;
+        if (c == '-')
+          negative_p = 1;
+        g_buf[i] = c;
+        i = i + 1;
         c = readchar ();
       }
   while (isdigit (c) != 0)
     {
+      if (i >= MAX_STRING - 1)
+        assert_max_string (MAX_STRING + 1, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       n = n * 10;
@@ -101,6 +104,8 @@ reader_read_identifier_or_number (int c)
   /* Fallthrough: Note that `4a', `+1b' are identifiers */
   while (reader_end_of_word_p (c) == 0)
     {
+      if (i >= MAX_STRING - 1)
+        assert_max_string (MAX_STRING + 1, "reader_read_identifier_or_number", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
@@ -185,6 +190,8 @@ reader_read_list (int c, struct scm *a)
   if (s == cell_dot)
     {
       s = reader_read_list (readchar (), a);
+      if (s->type != TPAIR)
+        error (cell_symbol_not_a_pair, make_string0 ("dot in list"));
       return s->car;
     }
   return cons (s, reader_read_list (readchar (), a));
@@ -205,6 +212,8 @@ reader_read_block_comment (int s, int c)
         readchar ();
         return cell_unspecified;
       }
+  if (c == EOF)
+    error (cell_symbol_system_error, make_string0 ("EOF in block comment"));
   return reader_read_block_comment (s, readchar ());
 }
 
@@ -287,13 +296,10 @@ reader_read_character ()
           p = peekchar ();
         }
     }
-  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'F' && p <= 'F')))
+  else if (c == 'x' && ((p >= '0' && p <= '9') || (p >= 'a' && p <= 'f') || (p >= 'A' && p <= 'F')))
     {
       struct scm *n = reader_read_hex ();
       c = n->value;
-      eputs ("reading hex c=");
-      eputs (itoa (c));
-      eputs ("\n");
     }
   else if (((c >= 'a' && c <= 'z') || c == '*') && ((p >= 'a' && p <= 'z') || p == '*'))
     {
@@ -302,6 +308,8 @@ reader_read_character ()
       i = i + 1;
       while ((p >= 'a' && p <= 'z') || p == '*')
         {
+          if (i >= 9)
+            error (cell_symbol_system_error, make_string0 ("char not supported"));
           buf[i] = readchar ();
           i = i + 1;
           p = peekchar ();
@@ -442,9 +450,11 @@ reader_read_string ()
   struct scm *n;
   do
     {
-      if (i > MAX_STRING)
-        assert_max_string (i, "reader_read_string", g_buf);
+      if (i >= MAX_STRING - 1)
+        assert_max_string (MAX_STRING + 1, "reader_read_string", g_buf);
       c = readchar ();
+      if (c == EOF)
+        error (cell_symbol_system_error, make_string0 ("EOF in string"));
       if (c == '"')
         break;
       if (c == '\\')
diff --git a/src/string.c b/src/string.c
index de30f6b..38eba2f 100644
--- a/src/string.c
+++ b/src/string.c
@@ -48,8 +48,8 @@ list_to_cstring (struct scm *list, size_t *size)
   struct scm *x;
   while (list != cell_nil)
     {
-      if (i > MAX_STRING)
-        assert_max_string (i, "list_to_string", g_buf);
+      if (i >= MAX_STRING - 1)
+        assert_max_string (MAX_STRING + 1, "list_to_string", g_buf);
       x = car (list);
       assert_msg (x->type == TCHAR, "x->type == TCHAR");
       g_buf[i] = x->value;
@@ -190,8 +190,8 @@ read_string (struct scm *port)          /*:((arity . n)) */
   size_t i = 0;
   while (c != -1)
     {
-      if (i > MAX_STRING)
-        assert_max_string (i, "read_string", g_buf);
+      if (i >= MAX_STRING - 1)
+        assert_max_string (MAX_STRING + 1, "read_string", g_buf);
       g_buf[i] = c;
       i = i + 1;
       c = readchar ();
@@ -212,11 +212,11 @@ string_append (struct scm *x)           /*:((arity . n)) */
     {
       string = x->car;
       assert_msg (string->type == TSTRING, "string->type == TSTRING");
+      if (string->length >= MAX_STRING - size)
+        assert_max_string (MAX_STRING + 1, "string_append", g_buf);
       memcpy (p, cell_bytes (string->string), string->length + 1);
       p = p + string->length;
       size = size + string->length;
-      if (size > MAX_STRING)
-        assert_max_string (size, "string_append", g_buf);
       x = x->cdr;
     }
   return make_string (g_buf, size);
-- 
2.43.0


From fa7144f734f5ca87e8d2287ec82c9fcfc0c2d0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 20/57] fix: alloc: check for space before taking it

---
 src/gc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gc.c b/src/gc.c
index bf45256..b63667a 100644
--- a/src/gc.c
+++ b/src/gc.c
@@ -157,12 +157,12 @@ struct scm *
 alloc (long n)
 {
   struct scm *x = g_free;
-  g_free = g_free + (n * M2_CELL_SIZE);
   long i = g_free - g_cells;
   i = i / M2_CELL_SIZE;
 
-  if (i > ARENA_SIZE)
+  if (n > ARENA_SIZE - i)
     assert_msg (0, "alloc: out of memory");
+  g_free = g_free + (n * M2_CELL_SIZE);
   return x;
 }
 
-- 
2.43.0


From bd3b6734f8c4689e3aa91d38d7c81e681dbbb3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 21/57] fix: hash: never a negative bucket; make-hash-table
 honours its size

---
 src/hash.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index ed1bb5d..d370561 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -32,6 +32,8 @@ hash_cstring (char const *s, long size)
       hash = hash + (s[1] * 43);
   assert_msg (size != 0, "size");
   hash = hash % size;
+  if (hash < 0)
+    hash = hash + size;
   return hash;
 }
 
@@ -208,10 +210,7 @@ struct scm *
 make_hash_table (struct scm *x)
 {
   long size = 0;
-  if (x->type == TPAIR)
-    {
-      assert_msg (x->type == TNUMBER, "x->type == TNUMBER");
-      size = x->value;
-    }
+  if (x->type == TNUMBER)
+    size = x->value;
   return make_hash_table_ (size);
 }
-- 
2.43.0


From ab8bf322f5fc1d85a52b45a94d05df2e42a0370f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 22/57] fix: make-vector, list->vector, make-struct, builtin?:
 reject what is too short or no list

---
 src/builtins.c | 2 +-
 src/struct.c   | 1 +
 src/vector.c   | 7 +++++--
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/builtins.c b/src/builtins.c
index c4ebb92..5baf017 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -67,7 +67,7 @@ builtin_function (struct scm *builtin)
 struct scm *
 builtin_p (struct scm *x)
 {
-  if (x->type == TSTRUCT)
+  if (x->type == TSTRUCT && x->length > 2)
     if (struct_ref_ (x, 2) == cell_symbol_builtin)
       return cell_t;
   return cell_f;
diff --git a/src/struct.c b/src/struct.c
index c485701..a99e030 100644
--- a/src/struct.c
+++ b/src/struct.c
@@ -25,6 +25,7 @@ struct scm *
 make_struct (struct scm *type, struct scm *fields, struct scm *printer)
 {
   long size = 2 + length__ (fields);
+  assert_msg (size >= 2, "size >= 2");
   struct scm *x = alloc (1);
   struct scm *v = alloc (size);
   x->type = TSTRUCT;
diff --git a/src/vector.c b/src/vector.c
index a9eca06..fb6fe0b 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -48,7 +48,7 @@ make_vector_ (long k, struct scm *e)
 struct scm *
 make_vector (struct scm *x)               /*:((arity . n)) */
 {
-  struct scm *k = x->car;
+  struct scm *k = car (x);
   assert_number ("make-vector", k);
   long n = k->value;
   struct scm *e = cell_unspecified;
@@ -116,7 +116,10 @@ vector_set_x (struct scm *x, struct scm *i, struct scm *e)
 struct scm *
 list_to_vector (struct scm *x)
 {
-  struct scm *v = make_vector_ (length__ (x), cell_unspecified);
+  long n = length__ (x);
+  if (n < 0)
+    error (cell_symbol_not_a_pair, cons (x, cstring_to_symbol ("list->vector")));
+  struct scm *v = make_vector_ (n, cell_unspecified);
   struct scm *p = v->vector;
   while (x != cell_nil)
     {
-- 
2.43.0


From 9b277f1b64497759087b6dc9d71972c5758d3211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 23/57] fix: vector->list: do not let references into the
 vector escape

---
 src/vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index fb6fe0b..f355603 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -142,6 +142,10 @@ vector_to_list (struct scm *v)
       e = cell_ref (v->vector, i - 1);
       if (e->type == TREF)
         e = e->ref;
+      if (e->type == TCHAR)
+        e = make_char (e->value);
+      if (e->type == TNUMBER)
+        e = make_number (e->value);
       x = cons (e, x);
     }
   return x;
-- 
2.43.0


From 525a64c13e35f34eb487f09774ede72a9baf8561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 24/57] fix: boot-0: no string port for an absent --main

---
 mes/module/mes/boot-0.scm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mes/module/mes/boot-0.scm b/mes/module/mes/boot-0.scm
index 767a1f2..8203989 100644
--- a/mes/module/mes/boot-0.scm
+++ b/mes/module/mes/boot-0.scm
@@ -288,4 +288,5 @@ General help using GNU software: <http://gnu.org/gethelp/>
            (repl))
           (else #t))))
 (primitive-load 0)
-(primitive-load (open-input-string %main))
+(when %main
+  (primitive-load (open-input-string %main)))
-- 
2.43.0


From 59e94980b8307d4412fdbe8fd408e05d59eea478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 25/57] fix: characters of strings are 0..255; bound setenv
 name, execl list

---
 src/posix.c  | 8 ++++++--
 src/string.c | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/posix.c b/src/posix.c
index 730fc18..7aeb90a 100644
--- a/src/posix.c
+++ b/src/posix.c
@@ -74,7 +74,7 @@ peekchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  return p[0];
+  return (0x100 + p[0]) % 0x100;
 }
 
 int
@@ -88,7 +88,7 @@ readchar ()
   if (length == 0)
     return -1;
   char const *p = cell_bytes (string->string);
-  int c = p[0];
+  int c = (0x100 + p[0]) % 0x100;
   p = p + 1;
   port->string = make_string (p, length - 1);
   return c;
@@ -207,6 +207,8 @@ setenv_ (struct scm *s, struct scm *v)          /*:((name . "setenv")) */
   assert_msg (s->type == TSTRING, "s->type == TSTRING");
   assert_msg (v->type == TSTRING, "v->type == TSTRING");
   char *buf = __setenv_buf;
+  if (s->length >= 1024)
+    error (cell_symbol_system_error, cons (make_string0 ("setenv: name too long"), s));
   strcpy (buf, cell_bytes (s->string));
   setenv (buf, cell_bytes (v->string), 1);
   return cell_unspecified;
@@ -357,6 +359,8 @@ execl_ (struct scm *file_name, struct scm *args)        /*:((name . "execl")) */
   char **c_argv = __execl_c_argv;
   int i = 0;
 
+  if (length__ (args) < 0)
+    error (cell_symbol_not_a_pair, cons (args, cstring_to_symbol ("execl")));
   if (length__ (args) > 1000)
     error (cell_symbol_system_error,
            cons (file_name, cons (make_string0 ("too many arguments"), cons (file_name, args))));
diff --git a/src/string.c b/src/string.c
index 38eba2f..242a546 100644
--- a/src/string.c
+++ b/src/string.c
@@ -239,5 +239,6 @@ string_ref (struct scm *str, struct scm *k)
   if (i >= size)
     error (cell_symbol_system_error, cons (make_string0 ("value out of range"), k));
   char const *p = cell_bytes (str->string);
-  return make_char (p[i]);
+  int c = (0x100 + p[i]) % 0x100;
+  return make_char (c);
 }
-- 
2.43.0


From 735616e22fd60a8bf4e6af95f1c55edc778510a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 26/57] fix: write every character as a readable #\ literal

---
 src/display.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/display.c b/src/display.c
index 0d6db3a..1626986 100644
--- a/src/display.c
+++ b/src/display.c
@@ -51,8 +51,7 @@ fdwrite_char (char v, int fd)
     fdputs ("\\space", fd);
   else
     {
-      if (v >= 32 && v <= 127)
-        fdputc ('\\', fd);
+      fdputc ('\\', fd);
       fdputc (v, fd);
     }
 }
-- 
2.43.0


From 18f527cef1a11cbd27282ad97370f60ee3a3c846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 27/57] fix: printers and unsupported hashes return a value

---
 src/builtins.c | 1 +
 src/hash.c     | 4 ++++
 src/module.c   | 1 +
 src/stack.c    | 1 +
 4 files changed, 7 insertions(+)

diff --git a/src/builtins.c b/src/builtins.c
index 5baf017..bc78df5 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -95,6 +95,7 @@ builtin_printer (struct scm *builtin)
         }
     }
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/hash.c b/src/hash.c
index d370561..0c19fe9 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -43,6 +43,7 @@ hashq_ (struct scm *x, long size)
   if (x->type == TSPECIAL || x->type == TSYMBOL)
     return hash_cstring (cell_bytes (x->string), size);    /* FIXME: hash x directly. */
   error (cell_symbol_system_error, cons (make_string0 ("hashq_: not a symbol"), x));
+  return 0;
 }
 
 int
@@ -62,6 +63,7 @@ hashq (struct scm *x, struct scm *size)
 {
   eputs ("hashq not supporteed\n");
   assert_msg (0, "0");
+  return cell_unspecified;
 }
 
 struct scm *
@@ -69,6 +71,7 @@ hash (struct scm *x, struct scm *size)
 {
   eputs ("hash not supporteed\n");
   assert_msg (0, "0");
+  return cell_unspecified;
 }
 
 struct scm *
@@ -176,6 +179,7 @@ hash_table_printer (struct scm *table)
         }
     }
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/module.c b/src/module.c
index 98c382f..101f260 100644
--- a/src/module.c
+++ b/src/module.c
@@ -81,6 +81,7 @@ module_printer (struct scm *module)
   fdputs ("globals:\n  ", __stdout);
   display_ (table);
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
diff --git a/src/stack.c b/src/stack.c
index 02d58f7..5ba8c3b 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -33,6 +33,7 @@ frame_printer (struct scm *frame)
   fdputs ("procedure: ", __stdout);
   display_ (struct_ref_ (frame, 3));
   fdputc ('>', __stdout);
+  return cell_unspecified;
 }
 
 struct scm *
-- 
2.43.0


From a8b0348f00ebf2d06ab9afe9f26c20445b21bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 28/57] fix: isnumber, raise and atexit return their result

---
 lib/ctype/isnumber.c | 1 +
 lib/posix/raise.c    | 2 +-
 lib/stdlib/atexit.c  | 1 +
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ctype/isnumber.c b/lib/ctype/isnumber.c
index 4c37886..3b6cb64 100644
--- a/lib/ctype/isnumber.c
+++ b/lib/ctype/isnumber.c
@@ -31,4 +31,5 @@ isnumber (int c, int base)
     return isdigit (c);
   if (base == 16)
     return isxdigit (c);
+  return 0;
 }
diff --git a/lib/posix/raise.c b/lib/posix/raise.c
index f693719..701be6a 100644
--- a/lib/posix/raise.c
+++ b/lib/posix/raise.c
@@ -24,5 +24,5 @@
 int
 raise (int signum)
 {
-  kill (getpid (), signum);
+  return kill (getpid (), signum);
 }
diff --git a/lib/stdlib/atexit.c b/lib/stdlib/atexit.c
index 218ae85..1e99a1b 100644
--- a/lib/stdlib/atexit.c
+++ b/lib/stdlib/atexit.c
@@ -25,4 +25,5 @@ int
 atexit (void (*function) (void))
 {
   __call_at_exit = function;
+  return 0;
 }
-- 
2.43.0


From cc1b68445bdfb3c8ac8bc3fcca2bb716a33d3a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 29/57] fix: abtol, ctype: long results, hex digits in either
 case, DEL is a control character

---
 lib/ctype/iscntrl.c  | 2 +-
 lib/ctype/isxdigit.c | 2 +-
 lib/mes/abtol.c      | 9 ++++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/ctype/iscntrl.c b/lib/ctype/iscntrl.c
index 82d4c3d..73ad555 100644
--- a/lib/ctype/iscntrl.c
+++ b/lib/ctype/iscntrl.c
@@ -23,5 +23,5 @@
 int
 iscntrl (int c)
 {
-  return c >= 0 && c < 32;
+  return (c >= 0 && c < 32) || c == 127;
 }
diff --git a/lib/ctype/isxdigit.c b/lib/ctype/isxdigit.c
index 13f7a66..b15546e 100644
--- a/lib/ctype/isxdigit.c
+++ b/lib/ctype/isxdigit.c
@@ -24,5 +24,5 @@
 int
 isxdigit (int c)
 {
-  return isdigit (c) || (c >= 'a' && c <= 'f');
+  return isdigit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
 }
diff --git a/lib/mes/abtol.c b/lib/mes/abtol.c
index 1f297b4..6d5a33b 100644
--- a/lib/mes/abtol.c
+++ b/lib/mes/abtol.c
@@ -25,16 +25,16 @@ long
 abtol (char const **p, int base)
 {
   char const *s = p[0];
-  int i = 0;
+  long i = 0;
   int sign_p = 0;
-  int m = '0';
+  int m;
   if (base == 0)
     base = 10;
   while (isspace (s[0]) != 0)
     s = s + 1;
   if (s[0] != 0 && s[0] == '+')
     s = s + 1;
-  if (s[0] != 0 && s[0] == '-')
+  else if (s[0] != 0 && s[0] == '-')
     {
       sign_p = 1;
       s = s + 1;
@@ -42,7 +42,10 @@ abtol (char const **p, int base)
   while (isnumber (s[0], base) != 0)
     {
       i = i * base;
+      m = '0';
       if (s[0] > '9')
+        m = 'A' - 10;
+      if (s[0] >= 'a')
         m = 'a' - 10;
       i = i + s[0] - m;
       s = s + 1;
-- 
2.43.0


From dd5eb54ab16682285a36ce05b590834a4c27b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 30/57] fix: ntoab: make room for every digit of a long

---
 lib/mes/ntoab.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mes/ntoab.c b/lib/mes/ntoab.c
index e75108b..765284a 100644
--- a/lib/mes/ntoab.c
+++ b/lib/mes/ntoab.c
@@ -38,8 +38,9 @@ char *
 ntoab (long x, unsigned base, int signed_p)
 {
   if (__itoa_buf == 0)
-    __itoa_buf = malloc (20);
-  char *p = __itoa_buf + 11;
+    __itoa_buf = malloc (72);
+  assert_msg (__itoa_buf != 0, "__itoa_buf != 0");
+  char *p = __itoa_buf + 70;
 
   p[0] = 0;
   p = p - 1;
-- 
2.43.0


From e51c3073f7c14b4b15235806490b78dff53b153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 31/57] fix: string: compare and search bytes as unsigned,
 never read beyond the count, strpbrk and strrchr results

---
 lib/string/memchr.c  |  2 +-
 lib/string/memcmp.c  |  2 +-
 lib/string/strchr.c  |  8 ++++----
 lib/string/strcmp.c  |  2 +-
 lib/string/strncat.c |  7 +++++--
 lib/string/strncmp.c |  2 +-
 lib/string/strncpy.c | 11 +++++------
 lib/string/strpbrk.c |  4 ++--
 lib/string/strrchr.c | 16 +++++-----------
 9 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/lib/string/memchr.c b/lib/string/memchr.c
index 255fdf6..2180d63 100644
--- a/lib/string/memchr.c
+++ b/lib/string/memchr.c
@@ -28,7 +28,7 @@ memchr (void const *block, int c, size_t size)
   while (size != 0)
     {
       size = size - 1;
-      if (c == p[0])
+      if ((c & 255) == (p[0] & 255))
         return (void*) p;
       p = p + 1;
     }
diff --git a/lib/string/memcmp.c b/lib/string/memcmp.c
index ca72f63..8fd0744 100644
--- a/lib/string/memcmp.c
+++ b/lib/string/memcmp.c
@@ -36,5 +36,5 @@ memcmp (void const *s1, void const *s2, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strchr.c b/lib/string/strchr.c
index da1a707..2ee20f5 100644
--- a/lib/string/strchr.c
+++ b/lib/string/strchr.c
@@ -24,11 +24,11 @@ char *
 strchr (char const *s, int c)
 {
   char const *p = s;
-  while (*p || !c)
+  while ((c & 255) != (*p & 255))
     {
-      if (c == *p)
-        return (char *) p;
+      if (!*p)
+        return 0;
       p++;
     }
-  return 0;
+  return (char *) p;
 }
diff --git a/lib/string/strcmp.c b/lib/string/strcmp.c
index b0fee26..f5d2591 100644
--- a/lib/string/strcmp.c
+++ b/lib/string/strcmp.c
@@ -29,5 +29,5 @@ strcmp (char const *a, char const *b)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncat.c b/lib/string/strncat.c
index 9683f91..1646104 100644
--- a/lib/string/strncat.c
+++ b/lib/string/strncat.c
@@ -26,8 +26,11 @@ strncat (char *to, char const *from, size_t size)
   if (size == 0)
     return to;
   char *p = strchr (to, '\0');
-  while (*from && size-- > 0)
-    *p++ = *from++;
+  while (size && *from)
+    {
+      size--;
+      *p++ = *from++;
+    }
   *p = 0;
   return to;
 }
diff --git a/lib/string/strncmp.c b/lib/string/strncmp.c
index 75c84b7..f0bf698 100644
--- a/lib/string/strncmp.c
+++ b/lib/string/strncmp.c
@@ -33,5 +33,5 @@ strncmp (char const *a, char const *b, size_t size)
       b = b + 1;
     }
 
-  return a[0] - b[0];
+  return (a[0] & 255) - (b[0] & 255);
 }
diff --git a/lib/string/strncpy.c b/lib/string/strncpy.c
index 34ea0f8..630aef0 100644
--- a/lib/string/strncpy.c
+++ b/lib/string/strncpy.c
@@ -23,13 +23,12 @@
 char *
 strncpy (char *to, char const *from, size_t size)
 {
-  if (size == 0)
-    return to;
   char *p = to;
-  while (*from && size--)
-    *p++ = *from++;
-  if (*from)
-    size++;
+  while (size && *from)
+    {
+      size--;
+      *p++ = *from++;
+    }
   while (size--)
     *p++ = 0;
   return to;
diff --git a/lib/string/strpbrk.c b/lib/string/strpbrk.c
index 57583ee..14000c4 100644
--- a/lib/string/strpbrk.c
+++ b/lib/string/strpbrk.c
@@ -26,8 +26,8 @@ strpbrk (char const *string, char const *stopset)
   char *p = (char *) string;
   while (*p)
     if (strchr (stopset, *p))
-      break;
+      return p;
     else
       p++;
-  return p;
+  return 0;
 }
diff --git a/lib/string/strrchr.c b/lib/string/strrchr.c
index 08766fd..9b69c55 100644
--- a/lib/string/strrchr.c
+++ b/lib/string/strrchr.c
@@ -23,18 +23,12 @@
 char *
 strrchr (char const *s, int c)
 {
-  int n = strlen (s);
-  if (!n)
-    return 0;
-  char const *p = s + n;
-  if (!*p && !c)
-    return (char *) p;
-  p--;
-  while (n-- && (*p || !c))
+  char const *p = s + strlen (s);
+  while ((c & 255) != (*p & 255))
     {
-      if (c == *p)
-        return (char *) p;
+      if (p == s)
+        return 0;
       p--;
     }
-  return 0;
+  return (char *) p;
 }
-- 
2.43.0


From 2b1bc50bbdcc034f2a2f9707927b2521fa964428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 32/57] fix: malloc: notice that the kernel refused; calloc,
 setenv and buffers check for it

---
 lib/linux/malloc.c        | 4 +++-
 lib/m2/getcwd.c           | 2 ++
 lib/m2/malloc.c           | 2 +-
 lib/mes/__buffered_read.c | 1 +
 lib/mes/fdgetc.c          | 1 +
 lib/posix/setenv.c        | 4 +++-
 lib/stdlib/calloc.c       | 5 ++++-
 7 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index ea609d5..85f4241 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,7 +34,9 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
-  if (brk (__brk + size) == -1)
+  /* The kernel answers with the break as it is: the new one or, if it
+     refuses, the old one. */
+  if (brk (__brk + size) != cast_charp_to_long (__brk + size))
     return 0;
   char *p = __brk;
   __brk = __brk + size;
diff --git a/lib/m2/getcwd.c b/lib/m2/getcwd.c
index 849c0a0..1a2a5ce 100644
--- a/lib/m2/getcwd.c
+++ b/lib/m2/getcwd.c
@@ -37,6 +37,8 @@ getcwd (char *buffer, int size)
     {
       __getcwd_buf = malloc (PATH_MAX);
       buffer = __getcwd_buf;
+      if (buffer == 0)
+        return 0;
     }
   return _getcwd (buffer, size);
 }
diff --git a/lib/m2/malloc.c b/lib/m2/malloc.c
index 4c3488d..3083cbd 100644
--- a/lib/m2/malloc.c
+++ b/lib/m2/malloc.c
@@ -28,7 +28,7 @@ malloc (size_t size)
 {
   if (!__brk)
     __brk = cast_long_to_charp (brk (0));
-  if (brk (__brk + size) == -1)
+  if (brk (__brk + size) != cast_charp_to_long (__brk + size))
     return 0;
   char *p = __brk;
   __brk = __brk + size;
diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index bac1f30..3bee5e5 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -44,6 +44,7 @@ __buffered_read_init (int filedes)
   if (!__read_cache)
     {
       __read_cache = (struct __read_buffer *) malloc (sizeof (struct __read_buffer) * __FILEDES_MAX);
+      assert_msg (__read_cache != 0, "__read_cache != 0");
 #if !__MESC__
       __read_buffer_max = __READ_BUFFER_MAX;
       char *p = getenv ("MES_READ_BUFFER");
diff --git a/lib/mes/fdgetc.c b/lib/mes/fdgetc.c
index e5c63a7..904e558 100644
--- a/lib/mes/fdgetc.c
+++ b/lib/mes/fdgetc.c
@@ -44,6 +44,7 @@ __ungetc_init ()
       int save_errno = errno;
       __ungetc_buf = malloc ((__FILEDES_MAX + 1) * sizeof (int));
       errno = save_errno;
+      assert_msg (__ungetc_buf != 0, "__ungetc_buf != 0");
       memset (__ungetc_buf, -1, (__FILEDES_MAX + 1) * sizeof (int));
     }
 }
diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index 321a5ab..cbf426b 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -43,12 +43,14 @@ setenv (char const *s, char const *v, int overwrite_p)
       p = p + M2_PTR_SIZE;
     }
   char *entry = malloc (length + strlen (v) + 2);
+  if (entry == 0)
+    return -1;
   int end_p = p[0] == 0;
   p[0] = entry;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
-  entry[length + strlen (v) + 2] = 0;
+  entry[length + strlen (v) + 1] = 0;
   if (end_p != 0)
     p[1] = 0;
 
diff --git a/lib/stdlib/calloc.c b/lib/stdlib/calloc.c
index 1a10618..0328a8b 100644
--- a/lib/stdlib/calloc.c
+++ b/lib/stdlib/calloc.c
@@ -25,7 +25,10 @@ void *
 calloc (size_t nmemb, size_t size)
 {
   size_t count = nmemb * size;
+  if (size != 0 && count / size != nmemb)
+    return 0;
   void *p = malloc (count);
-  memset (p, 0, count);
+  if (p != 0)
+    memset (p, 0, count);
   return p;
 }
-- 
2.43.0


From 1abcb0930075f398a11a640b65dff677bc55bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 33/57] fix: sigprocmask passes the set size; ioctl, fcntl pass
 a whole word; signal fails with SIG_ERR

---
 lib/linux/fcntl.c       | 4 ++--
 lib/linux/ioctl.c       | 4 ++--
 lib/linux/signal.c      | 2 +-
 lib/linux/sigprogmask.c | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/linux/fcntl.c b/lib/linux/fcntl.c
index e10e734..27e2f59 100644
--- a/lib/linux/fcntl.c
+++ b/lib/linux/fcntl.c
@@ -27,8 +27,8 @@ fcntl (int filedes, int command, ...)
 {
   va_list ap;
   va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, (int) data);
+  long data = va_arg (ap, long);
+  int r = _sys_call3 (SYS_fcntl, (int) filedes, (int) command, data);
   va_end (ap);
   return r;
 }
diff --git a/lib/linux/ioctl.c b/lib/linux/ioctl.c
index 0e6e14a..cefbd3d 100644
--- a/lib/linux/ioctl.c
+++ b/lib/linux/ioctl.c
@@ -28,8 +28,8 @@ ioctl (int filedes, unsigned long command, ...)
 {
   va_list ap;
   va_start (ap, command);
-  int data = va_arg (ap, int);
-  int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, (int) data);
+  long data = va_arg (ap, long);
+  int r = _sys_call3 (SYS_ioctl, (int) filedes, (long) command, data);
   va_end (ap);
   return r;
 }
diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 11174be..1973dcc 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -66,7 +66,7 @@ signal (int signum, sighandler_t action)
 #endif
   int r = _sys_call4 (SYS_rt_sigaction, signum, (long) &setup_action, (long) &old, sizeof (sigset_t));
   if (r)
-    return 0;
+    return SIG_ERR;
   return old.sa_handler;
 #endif
 }
diff --git a/lib/linux/sigprogmask.c b/lib/linux/sigprogmask.c
index c0326a2..10936de 100644
--- a/lib/linux/sigprogmask.c
+++ b/lib/linux/sigprogmask.c
@@ -29,6 +29,6 @@ sigprocmask (int how, sigset_t const *set, sigset_t * oldset)
 #if __i386__
   return _sys_call3 (SYS_sigprocmask, (long) how, (long) set, (long) oldset);
 #else
-  return _sys_call3 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset);
+  return _sys_call4 (SYS_rt_sigprocmask, (long) how, (long) set, (long) oldset, sizeof (sigset_t));
 #endif
 }
-- 
2.43.0


From 4ee96f965b71bca66aefd719322bd68b743197e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 34/57] fix: snprintf terminates a truncated text; do not read
 ap before va_start

---
 lib/stdio/printf.c    | 5 -----
 lib/stdio/snprintf.c  | 5 -----
 lib/stdio/sprintf.c   | 5 -----
 lib/stdio/vsnprintf.c | 2 ++
 4 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/lib/stdio/printf.c b/lib/stdio/printf.c
index dd90347..f055269 100644
--- a/lib/stdio/printf.c
+++ b/lib/stdio/printf.c
@@ -27,11 +27,6 @@ printf (char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 1
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
   va_start (ap, format);
   r = vprintf (format, ap);
   va_end (ap);
diff --git a/lib/stdio/snprintf.c b/lib/stdio/snprintf.c
index b0c2bd5..a25cc41 100644
--- a/lib/stdio/snprintf.c
+++ b/lib/stdio/snprintf.c
@@ -27,11 +27,6 @@ snprintf (char *str, size_t size, char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 3
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
   va_start (ap, format);
   r = vsnprintf (str, size, format, ap);
   va_end (ap);
diff --git a/lib/stdio/sprintf.c b/lib/stdio/sprintf.c
index 38147d8..4deeb60 100644
--- a/lib/stdio/sprintf.c
+++ b/lib/stdio/sprintf.c
@@ -27,11 +27,6 @@ sprintf (char *str, char const *format, ...)
 {
   va_list ap;
   int r;
-#if __GNUC__ && __x86_64__ && !SYSTEM_LIBC
-#define __FUNCTION_ARGS 2
-  ap += (__FOO_VARARGS + (__FUNCTION_ARGS << 1)) << 3;
-#undef __FUNCTION_ARGS
-#endif
   va_start (ap, format);
   r = vsprintf (str, format, ap);
   va_end (ap);
diff --git a/lib/stdio/vsnprintf.c b/lib/stdio/vsnprintf.c
index 9a8d796..8149b45 100644
--- a/lib/stdio/vsnprintf.c
+++ b/lib/stdio/vsnprintf.c
@@ -271,5 +271,7 @@ vsnprintf (char *str, size_t size, char const *format, va_list ap)
   va_end (ap);
   if (count < size)
     *str = 0;
+  else if (size)
+    str[-1] = 0;
   return count;
 }
-- 
2.43.0


From f6158b3dc556027d402f343ca487f8f9d8bf763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 35/57] fix: perror: message first; search_path, execl stay
 within their buffers

---
 lib/mes/search-path.c | 11 +++++++++++
 lib/posix/execl.c     |  6 ++++++
 lib/stdio/perror.c    |  2 +-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/mes/search-path.c b/lib/mes/search-path.c
index afedf13..5b05c12 100644
--- a/lib/mes/search-path.c
+++ b/lib/mes/search-path.c
@@ -28,6 +28,8 @@ search_path (char const *file_name)
 {
   static char buf[256];
   char *path = getenv ("PATH");
+  if (!path)
+    return 0;
   if (__mes_debug ())
     {
       eputs ("\n search-path: ");
@@ -39,6 +41,13 @@ search_path (char const *file_name)
       char *end = strchr (path, ':');
       if (!end)
         end = strchr (path, '\0');
+      if (end - path + strlen (file_name) + 2 > sizeof (buf))
+        {
+          if (!*end)
+            break;
+          path = end + 1;
+          continue;
+        }
       strncpy (buf, path, end - path);
       buf[end - path] = 0;
       if (__mes_debug ())
@@ -60,6 +69,8 @@ search_path (char const *file_name)
             }
           return buf;
         }
+      if (!*end)
+        break;
       path = end + 1;
     }
   return 0;
diff --git a/lib/posix/execl.c b/lib/posix/execl.c
index 4513586..7c95916 100644
--- a/lib/posix/execl.c
+++ b/lib/posix/execl.c
@@ -19,6 +19,7 @@
  */
 
 #include <mes/lib.h>
+#include <errno.h>
 #include <stdarg.h>
 #include <unistd.h>
 
@@ -32,6 +33,11 @@ vexec (char const *file_name, va_list ap)
   argv[i++] = (char *) file_name;
   while (arg)
     {
+      if (i == 999)
+        {
+          errno = E2BIG;
+          return -1;
+        }
       argv[i++] = arg;
       arg = va_arg (ap, char *);
       if (__mes_debug () > 2)
diff --git a/lib/stdio/perror.c b/lib/stdio/perror.c
index 3db9bb2..4f3444e 100644
--- a/lib/stdio/perror.c
+++ b/lib/stdio/perror.c
@@ -26,5 +26,5 @@
 void
 perror (char const *message)
 {
-  fprintf (stderr, "%s: %s\n", strerror (errno), message);
+  fprintf (stderr, "%s: %s\n", message, strerror (errno));
 }
-- 
2.43.0


From 65ea8d26dddb2466ac5229743576372f8e1221b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 36/57] fix: system calls with gcc: third argument of arm
 _write in r2; x86_64 clobbers rcx and r11, takes int as long

---
 lib/linux/arm-mes-gcc/_write.c              |  2 +-
 lib/linux/x86_64-mes-gcc/_exit.c            |  3 ++-
 lib/linux/x86_64-mes-gcc/_write.c           |  4 ++--
 lib/linux/x86_64-mes-gcc/syscall-internal.c |  4 ++--
 lib/linux/x86_64-mes-gcc/syscall.c          | 10 +++++-----
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/linux/arm-mes-gcc/_write.c b/lib/linux/arm-mes-gcc/_write.c
index 8711bde..e75d0fc 100644
--- a/lib/linux/arm-mes-gcc/_write.c
+++ b/lib/linux/arm-mes-gcc/_write.c
@@ -32,7 +32,7 @@ _write (int filedes, void const *buffer, size_t size)
        "mov    r7, $"SYS_write"\n\t"
        "mov    r0, %1\n\t"
        "mov    r1, %2\n\t"
-       "mov    r3, %3\n\t"
+       "mov    r2, %3\n\t"
        "swi    $0\n\t"
        "mov    %0, r0\n\t"
        : "=r" (r)
diff --git a/lib/linux/x86_64-mes-gcc/_exit.c b/lib/linux/x86_64-mes-gcc/_exit.c
index 917bf80..0586938 100644
--- a/lib/linux/x86_64-mes-gcc/_exit.c
+++ b/lib/linux/x86_64-mes-gcc/_exit.c
@@ -31,7 +31,8 @@ _exit (int code)
        "mov     %0,%%rdi\n\t"
        "syscall \n\t"
        : // no outputs "=" (r)
-       : "rm" (code)
+       : "rm" ((long) code)
+       : "rax", "rdi", "rcx", "r11"
        );
   // not reached
   _exit (0);
diff --git a/lib/linux/x86_64-mes-gcc/_write.c b/lib/linux/x86_64-mes-gcc/_write.c
index f206c88..fda7f47 100644
--- a/lib/linux/x86_64-mes-gcc/_write.c
+++ b/lib/linux/x86_64-mes-gcc/_write.c
@@ -35,8 +35,8 @@ _write (int filedes, void const *buffer, size_t size)
        "syscall \n\t"
        "mov     %%rax,%0\n\t"
        : "=r" (r)
-       : "rm" (filedes), "rm" (buffer), "rm" (size)
-       : "rax", "rdi", "rsi", "rdx"
+       : "rm" ((long) filedes), "rm" (buffer), "rm" (size)
+       : "rax", "rdi", "rsi", "rdx", "rcx", "r11"
        );
   return r;
 }
diff --git a/lib/linux/x86_64-mes-gcc/syscall-internal.c b/lib/linux/x86_64-mes-gcc/syscall-internal.c
index c9d0546..53069e1 100644
--- a/lib/linux/x86_64-mes-gcc/syscall-internal.c
+++ b/lib/linux/x86_64-mes-gcc/syscall-internal.c
@@ -32,7 +32,7 @@ __sys_call_internal (long sys_call)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call)
-       : "rax"
+       : "rax", "rcx", "r11"
        );
   return r;
 }
@@ -49,7 +49,7 @@ __sys_call2_internal (long sys_call, long one, long two)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call), "rm" (one), "rm" (two)
-       : "rax", "rdi", "rsi"
+       : "rax", "rdi", "rsi", "rcx", "r11"
        );
   return r;
 }
diff --git a/lib/linux/x86_64-mes-gcc/syscall.c b/lib/linux/x86_64-mes-gcc/syscall.c
index f55a4a3..1adae28 100644
--- a/lib/linux/x86_64-mes-gcc/syscall.c
+++ b/lib/linux/x86_64-mes-gcc/syscall.c
@@ -32,7 +32,7 @@ __sys_call (long sys_call)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call)
-       : "rax"
+       : "rax", "rcx", "r11"
        );
   return r;
 }
@@ -48,7 +48,7 @@ __sys_call1 (long sys_call, long one)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call), "rm" (one)
-       : "rax", "rdi"
+       : "rax", "rdi", "rcx", "r11"
        );
   return r;
 }
@@ -65,7 +65,7 @@ __sys_call2 (long sys_call, long one, long two)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call), "rm" (one), "rm" (two)
-       : "rax", "rdi", "rsi"
+       : "rax", "rdi", "rsi", "rcx", "r11"
        );
   return r;
 }
@@ -83,7 +83,7 @@ __sys_call3 (long sys_call, long one, long two, long three)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call), "rm" (one), "rm" (two), "rm" (three)
-       : "rax", "rdi", "rsi", "rdx"
+       : "rax", "rdi", "rsi", "rdx", "rcx", "r11"
        );
   return r;
 }
@@ -104,7 +104,7 @@ __sys_call4 (long sys_call, long one, long two, long three, long four)
        "mov     %%rax,%0\n\t"
        : "=r" (r)
        : "rm" (sys_call), "rm" (one), "rm" (two), "rm" (three), "rm" (four)
-       : "rax", "rdi", "rsi", "rdx", "r10"
+       : "rax", "rdi", "rsi", "rdx", "r10", "rcx", "r11"
        );
   return r;
 }
-- 
2.43.0


From 3c9f648f788dddb945f01704c3118f5eea2bc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 37/57] fix: va_start skips whole words

---
 include/stdarg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdarg.h b/include/stdarg.h
index 6a8fee6..0b07b0e 100644
--- a/include/stdarg.h
+++ b/include/stdarg.h
@@ -35,7 +35,8 @@
 #endif
 
 typedef char *va_list;
-#define va_start(ap, last) (void)((ap) = (char*)(&(last) + 1))
+/* Every argument takes a whole number of words. */
+#define va_start(ap, last) (void)((ap) = ((char*)(&(last))) + ((sizeof (last) + sizeof (void*) - 1) & -sizeof (void*)))
 #define va_arg(ap, type) (type)(((long*)((ap) = ((ap) + sizeof (void*))))[-1])
 #define va_align(ap, alignment) ((char*)((((unsigned long) (ap)) + (alignment) - 1) &~ ((alignment) - 1)))
 #define va_arg8(ap, type) (type)(((double*)((ap) = (va_align((ap), 8) + sizeof(double))))[-1])
-- 
2.43.0


From 52269b2caf7c4cbf2a3f8318812b80a353eb41eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 38/57] fix: system call numbers of nanosleep (x86_64) and
 setgid (x86)

---
 include/linux/x86/syscall.h    | 2 +-
 include/linux/x86_64/syscall.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/linux/x86/syscall.h b/include/linux/x86/syscall.h
index 01c46a3..8aa615d 100644
--- a/include/linux/x86/syscall.h
+++ b/include/linux/x86/syscall.h
@@ -101,7 +101,7 @@
 #define SYS_setuid    0x17
 #define SYS_geteuid   0x31
 #define SYS_getegid   0x32
-#define SYS_setgid    0x3e
+#define SYS_setgid    0x2e
 #define SYS_getppid   0x40
 
 /* make+POSIX */
diff --git a/include/linux/x86_64/syscall.h b/include/linux/x86_64/syscall.h
index 36ef06b..734b250 100644
--- a/include/linux/x86_64/syscall.h
+++ b/include/linux/x86_64/syscall.h
@@ -66,7 +66,7 @@
 #define SYS_lstat     0x06
 #define SYS_setitimer 0x26
 #define SYS_fstat     0x05
-#define SYS_nanosleep 0x33
+#define SYS_nanosleep 0x23
 #define SYS_getdents  0x4e
 #define SYS_clock_gettime 0xe4
 
-- 
2.43.0


From e5ef577b110f721983be29cac0ebaaeca12913f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 39/57] fix: signal refuses a signal number beyond the set

---
 lib/linux/signal.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/linux/signal.c b/lib/linux/signal.c
index 1973dcc..de2ccde 100644
--- a/lib/linux/signal.c
+++ b/lib/linux/signal.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <errno.h>
 #include <linux/syscall.h>
 #include <syscall.h>
 #include <unistd.h>
@@ -43,6 +44,12 @@ signal (int signum, sighandler_t action)
   unsigned short bitindex;
   unsigned short itembitcount;
 
+  if (signum < 1 || signum > 8 * sizeof (sigset_t))
+    {
+      errno = EINVAL;
+      return SIG_ERR;
+    }
+
   setup_action.sa_handler = action;
   /* The sa_restorer is not used.  Reason:
      * The kernel uses its own restorer anyway by pretending we gave one on
-- 
2.43.0


From 2dd0bd1ad2a2402af44d9ab75d989585f24c5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 40/57] fix: x86_64 struct stat has the kernel's layout

st_nlink comes first and is a full word, and 24 bytes are left at the end:
the kernel wrote 144 bytes where callers reserved 128, and st_mode, st_nlink
and st_uid were read from each other's place.
---
 include/sys/stat.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sys/stat.h b/include/sys/stat.h
index 0aefa28..f77e2cd 100644
--- a/include/sys/stat.h
+++ b/include/sys/stat.h
@@ -63,10 +63,11 @@ struct stat
 {
   unsigned long  st_dev;
   unsigned long  st_ino;
+  unsigned long  st_nlink;
   unsigned int   st_mode;
-  unsigned int   st_nlink;
   unsigned int   st_uid;
   unsigned int   st_gid;
+  unsigned int   __pad0;
   unsigned long  st_rdev;
   long           st_size;
   unsigned long  st_blksize;
@@ -79,6 +80,7 @@ struct stat
   unsigned long  st_ctime_usec;
   unsigned long  __foo0;
   unsigned long  __foo1;
+  unsigned long  __foo2;
 };
 #endif
 // *INDENT-ON*
-- 
2.43.0


From e8c8ac0d1798d3535397b36038a7430c2f36f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:39 +0000
Subject: [PATCH 41/57] fix: setjmp and longjmp with gcc on x86 and x86_64

On x86_64 setjmp saved its own frame pointer, and its caller's frame pointer
as the stack pointer; longjmp took its arguments from registers that the
compiler had already reused and left the result to chance.
---
 lib/x86-mes-gcc/setjmp.c    | 12 +++++++-----
 lib/x86_64-mes-gcc/setjmp.c | 14 ++++++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/x86-mes-gcc/setjmp.c b/lib/x86-mes-gcc/setjmp.c
index 5a3ac86..01a2274 100644
--- a/lib/x86-mes-gcc/setjmp.c
+++ b/lib/x86-mes-gcc/setjmp.c
@@ -27,12 +27,14 @@ longjmp (jmp_buf env, int val)
   val = val == 0 ? 1 : val;
   // *INDENT-OFF*
   asm (
-       "mov    0x8(%ebp),%ebp\n\t"     // env*
+       "mov    0x8(%%ebp),%%ebp\n\t"   // env*
 
-       "mov    0x4(%ebp),%ebx\n\t"     // env->__pc
-       "mov    0x8(%ebp),%esp\n\t"     // env->__sp
-       "mov    0x0(%ebp),%ebp\n\t"     // env->__bp
-       "jmp    *%ebx\n\t"              // jmp *PC
+       "mov    0x4(%%ebp),%%ebx\n\t"   // env->__pc
+       "mov    0x8(%%ebp),%%esp\n\t"   // env->__sp
+       "mov    0x0(%%ebp),%%ebp\n\t"   // env->__bp
+       "jmp    *%%ebx\n\t"              // jmp *PC
+       : // no outputs ""
+       : "a" (val)
        );
   // *INDENT-ON*
   // not reached
diff --git a/lib/x86_64-mes-gcc/setjmp.c b/lib/x86_64-mes-gcc/setjmp.c
index b274160..5084c4a 100644
--- a/lib/x86_64-mes-gcc/setjmp.c
+++ b/lib/x86_64-mes-gcc/setjmp.c
@@ -27,10 +27,12 @@ longjmp (jmp_buf env, int val)
   val = val == 0 ? 1 : val;
   // *INDENT-OFF*
   asm (
-       "mov    0x00(%rdi),%rbp\n\t"     // env->__bp
-       "mov    0x08(%rdi),%rbx\n\t"     // env->__pc
-       "mov    0x10(%rdi),%rsp\n\t"     // env->__sp
-       "jmp    *%rbx\n\t"               // jmp *PC
+       "mov    0x00(%%rdi),%%rbp\n\t"   // env->__bp
+       "mov    0x08(%%rdi),%%rbx\n\t"   // env->__pc
+       "mov    0x10(%%rdi),%%rsp\n\t"   // env->__sp
+       "jmp    *%%rbx\n\t"              // jmp *PC
+       : // no outputs ""
+       : "D" (env), "a" (val)
        );
   // *INDENT-ON*
   // not reached
@@ -47,8 +49,8 @@ setjmp (jmp_buf env)
        : //no inputs ""
        );
   // *INDENT-ON*
-  env[0].__bp = (long) p;
+  env[0].__bp = p[0];
   env[0].__pc = p[1];
-  env[0].__sp = p[0];
+  env[0].__sp = (long) (p + 2);
   return 0;
 }
-- 
2.43.0


From 02002a978497f8ee13ab9dd1caecb5dd37c4fc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 42/57] fix: getcwd without a buffer stays within its own

getcwd (0, n) with n greater than PATH_MAX let the kernel write n bytes to a
buffer of PATH_MAX.
---
 lib/posix/getcwd.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/posix/getcwd.c b/lib/posix/getcwd.c
index e3e6d67..43351ea 100644
--- a/lib/posix/getcwd.c
+++ b/lib/posix/getcwd.c
@@ -30,6 +30,10 @@ getcwd (char *buffer, size_t size)
 {
   static char buf[PATH_MAX];
   if (buffer == 0)
-    buffer = buf;
+    {
+      buffer = buf;
+      if (size > PATH_MAX)
+        size = PATH_MAX;
+    }
   return _getcwd (buffer, size);
 }
-- 
2.43.0


From 389d837da16db41f516251ea92780c73692850ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 43/57] fix: buffered read keeps the bytes it delivered before
 an error

---
 lib/mes/__buffered_read.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mes/__buffered_read.c b/lib/mes/__buffered_read.c
index 3bee5e5..1ca8d51 100644
--- a/lib/mes/__buffered_read.c
+++ b/lib/mes/__buffered_read.c
@@ -87,7 +87,12 @@ __buffered_read (int filedes, void *buffer, size_t size)
     {
 #if !__MESC__
       if (todo > __read_buffer_max)
-        return size - todo + _read (filedes, p, todo);
+        {
+          ssize_t more = _read (filedes, p, todo);
+          if (more < 0 && size > todo)
+            return size - todo;
+          return size - todo + more;
+        }
       if (__mes_debug () > 4)
         {
           eputs ("__buffered_read: ");
@@ -97,7 +102,11 @@ __buffered_read (int filedes, void *buffer, size_t size)
 #endif
       ssize_t bytes = _read (filedes, cache->string, __read_buffer_max);
       if (bytes < 0)
-        return -1;
+        {
+          if (size > todo)
+            return size - todo;
+          return -1;
+        }
       if (bytes)
         {
           cache->size = bytes;
-- 
2.43.0


From 60d87f2f2857bb26b62e148d29879789ffb88536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 44/57] fix: fread keeps a pushed-back character when the read
 after it fails

---
 lib/stdio/fread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stdio/fread.c b/lib/stdio/fread.c
index 505700c..22a860c 100644
--- a/lib/stdio/fread.c
+++ b/lib/stdio/fread.c
@@ -47,7 +47,7 @@ fread (void *data, size_t size, size_t count, FILE * stream)
       int r = read (filedes, buf, todo);
       if (r < 0 && !bytes)
         bytes = r;
-      else
+      else if (r > 0)
         bytes += r;
     }
 
-- 
2.43.0


From 88a5ea8a130fbef123ff6e578c8a33b10e1da65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 45/57] fix: fseek and ftell account for a pushed-back
 character

---
 lib/stdio/fseek.c | 4 ++++
 lib/stdio/ftell.c | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/stdio/fseek.c b/lib/stdio/fseek.c
index ce468ab..a136d80 100644
--- a/lib/stdio/fseek.c
+++ b/lib/stdio/fseek.c
@@ -26,7 +26,11 @@ int
 fseek (FILE * stream, long offset, int whence)
 {
   int filedes = (long) stream;
+  if (whence == SEEK_CUR && __ungetc_p (filedes))
+    offset--;
   off_t pos = lseek (filedes, offset, whence);
+  if (pos >= 0)
+    __ungetc_clear (filedes);
   if (__mes_debug ())
     {
       eputs ("fread fd=");
diff --git a/lib/stdio/ftell.c b/lib/stdio/ftell.c
index aa8ddd3..8dfad4e 100644
--- a/lib/stdio/ftell.c
+++ b/lib/stdio/ftell.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <fcntl.h>
 #include <stdio.h>
 #include <unistd.h>
@@ -25,5 +26,9 @@
 long
 ftell (FILE * stream)
 {
-  return lseek ((int) (long) stream, 0, SEEK_CUR);
+  int filedes = (long) stream;
+  off_t pos = lseek (filedes, 0, SEEK_CUR);
+  if (pos > 0 && __ungetc_p (filedes))
+    pos--;
+  return pos;
 }
-- 
2.43.0


From 074a70bfb62e702ea370b994f2bf1f8fbbf02e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:33 +0000
Subject: [PATCH 46/57] fix: dup2 forgets the input of the file it closed

---
 lib/linux/dup2.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/linux/dup2.c b/lib/linux/dup2.c
index ef99627..ee86672 100644
--- a/lib/linux/dup2.c
+++ b/lib/linux/dup2.c
@@ -18,6 +18,7 @@
  * along with GNU Mes.  If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
 
@@ -26,5 +27,11 @@ dup2 (int old, int new)
 {
   long long_old = old;
   long long_new = new;
-  return _sys_call2 (SYS_dup2, long_old, long_new);
+  int r = _sys_call2 (SYS_dup2, long_old, long_new);
+  if (r >= 0 && old != new && new < __FILEDES_MAX)
+    {
+      __ungetc_clear (new);
+      __buffered_read_clear (new);
+    }
+  return r;
 }
-- 
2.43.0


From 3001f01e82534455b2116a8b3fefaf0f40092413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 47/57] fix: a failing lseek does not drop buffered input

---
 lib/linux/lseek.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/linux/lseek.c b/lib/linux/lseek.c
index f71af59..d8073ec 100644
--- a/lib/linux/lseek.c
+++ b/lib/linux/lseek.c
@@ -21,6 +21,7 @@
 #include <mes/lib.h>
 #include <linux/syscall.h>
 #include <syscall.h>
+#include <errno.h>
 #include <stdio.h>
 #include <sys/types.h>
 
@@ -42,5 +43,16 @@ lseek (int filedes, off_t offset, int whence)
   size_t skip = __buffered_read_clear (filedes);
   if (whence == SEEK_CUR)
     offset -= skip;
+#if !__MESC__
+  off_t pos = _lseek (filedes, offset, whence);
+  if (pos == -1 && skip)
+    {
+      int save_errno = errno;
+      _lseek (filedes, -(off_t) skip, SEEK_CUR);
+      errno = save_errno;
+    }
+  return pos;
+#else
   return _sys_call3 (SYS_lseek, (int) filedes, (long) offset, (int) whence);
+#endif
 }
-- 
2.43.0


From 1d22bbfde52e13f42c1e15d2e84e4bbf0be5575b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 48/57] fix: malloc refuses sizes that the address space does
 not hold

---
 lib/linux/malloc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/linux/malloc.c b/lib/linux/malloc.c
index 85f4241..8fe6760 100644
--- a/lib/linux/malloc.c
+++ b/lib/linux/malloc.c
@@ -34,6 +34,8 @@ malloc (size_t size)
   /* align what we give back. */
   __brk = (char*) (((uintptr_t) __brk
                     + sizeof (max_align_t) - 1) & -sizeof (max_align_t));
+  if ((uintptr_t) __brk + size < (uintptr_t) __brk)
+    return 0;
   /* The kernel answers with the break as it is: the new one or, if it
      refuses, the old one. */
   if (brk (__brk + size) != cast_charp_to_long (__brk + size))
-- 
2.43.0


From 1922b1bcfef7b670f74eed6e60f13493301b23a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 49/57] fix: open_boot makes room for long environment values

---
 src/mes.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mes.c b/src/mes.c
index 86699ba..e3b8a4a 100644
--- a/src/mes.c
+++ b/src/mes.c
@@ -101,6 +101,24 @@ void
 open_boot ()
 {
   __stdin = -1;
+  /* Room for the longest of the names below. */
+  size_t size = 64;
+  char *p = getenv ("MES_BOOT");
+  if (p != 0)
+    size = size + strlen (p);
+  p = getenv ("MES_PREFIX");
+  if (p != 0)
+    size = size + strlen (p);
+  p = getenv ("srcdest");
+  if (p != 0)
+    size = size + strlen (p);
+  if (size > PATH_MAX)
+    {
+      __open_boot_buf = malloc (size);
+      __open_boot_file_name = malloc (size);
+    }
+  if (size > 1024)
+    g_datadir = malloc (size);
   char *boot = __open_boot_buf;
   char *file_name = __open_boot_file_name;
   strcpy (g_datadir, ".");
-- 
2.43.0


From 09055b6df1e485aa3dc593e9ee2b901339933671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 50/57] fix: printing survives a collection made by a record's
 printer

display_helper and the printers held on to the object they print while
running a record's printer, which may collect.
---
 include/mes/mes.h |  1 +
 src/builtins.c    |  2 +-
 src/core.c        |  2 +-
 src/display.c     | 36 ++++++++++++++++++++++++++++--------
 src/eval-apply.c  |  6 +++---
 src/hash.c        | 10 ++++++----
 src/module.c      |  6 +++---
 src/stack.c       |  2 +-
 src/string.c      |  4 ++--
 9 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/include/mes/mes.h b/include/mes/mes.h
index e62445f..d259d04 100644
--- a/include/mes/mes.h
+++ b/include/mes/mes.h
@@ -127,6 +127,7 @@ struct scm *cstring_to_list (char const *s);
 struct scm *cstring_to_symbol (char const *s);
 struct scm *cell_ref (struct scm *cell, long index);
 struct scm *fdisplay_ (struct scm *, int, int);
+struct scm *fdisplay_part (struct scm *, struct scm *, int, int);
 struct scm *init_symbols ();
 struct scm *init_time (struct scm *a);
 struct scm *make_builtin_type ();
diff --git a/src/builtins.c b/src/builtins.c
index bc78df5..af5bd16 100644
--- a/src/builtins.c
+++ b/src/builtins.c
@@ -77,7 +77,7 @@ struct scm *
 builtin_printer (struct scm *builtin)
 {
   fdputs ("#<procedure ", __stdout);
-  display_ (builtin_name (builtin));
+  builtin = fdisplay_part (builtin, builtin_name (builtin), __stdout, 0);
   fdputc (' ', __stdout);
   struct scm *x = builtin_arity (builtin);
   int arity = x->value;
diff --git a/src/core.c b/src/core.c
index 0936d1c..ed6c817 100644
--- a/src/core.c
+++ b/src/core.c
@@ -153,7 +153,7 @@ error (struct scm *key, struct scm *x)
   if (throw != cell_undefined)
     return apply (throw, cons (key, cons (x, cell_nil)), R0);
 #endif
-  display_error_ (key);
+  x = fdisplay_part (x, key, __stderr, 0);
   eputs (": ");
   write_error_ (x);
   eputs ("\n");
diff --git a/src/display.c b/src/display.c
index 1626986..f7a7f39 100644
--- a/src/display.c
+++ b/src/display.c
@@ -99,6 +99,28 @@ fdwrite_string (char *s, int length, int fd)
 
 struct scm *display_helper (struct scm *x, int cont, char *sep, int fd, int write_p);
 
+/* Display PART while still needing X: a record's printer may collect.
+   Return X, wherever it is now. */
+struct scm *
+display_part (struct scm *x, struct scm *part, int fd, int write_p)     /*:((internal)) */
+{
+  gc_push_frame ();
+  R2 = x;
+  gc_push_frame ();
+  display_helper (part, 0, "", fd, write_p);
+  gc_pop_frame ();
+  x = R2;
+  gc_pop_frame ();
+  return x;
+}
+
+struct scm *
+fdisplay_part (struct scm *x, struct scm *part, int fd, int write_p)    /*:((internal)) */
+{
+  g_depth = 5;
+  return display_part (x, part, fd, write_p);
+}
+
 struct scm *
 display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
 {
@@ -123,8 +145,8 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       fdputs ("#<closure ", fd);
       struct scm *circ = x->cdr->car;
       struct scm *name = circ->cdr->car;
+      x = display_part (x, name->car, fd, 0);
       struct scm *args = x->cdr->cdr->car;
-      display_helper (name->car, 0, "", fd, 0);
       fdputc (' ', fd);
       display_helper (args, 0, "", fd, 0);
       fdputs (">", fd);
@@ -157,7 +179,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
           while (x != cell_nil && i < 10)
             {
               i = i + 1;
-              fdisplay_ (x->car->car, fd, write_p);
+              x = fdisplay_part (x, x->car->car, fd, write_p);
               fdputs (" ", fd);
               x = x->cdr;
             }
@@ -166,7 +188,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       else
         {
           if (x != 0 && x != cell_nil)
-            fdisplay_ (x->car, fd, write_p);
+            x = fdisplay_part (x, x->car, fd, write_p);
           if (x->cdr != 0 && x->cdr->type == TPAIR)
             display_helper (x->cdr, 1, " ", fd, write_p);
           else if (x->cdr != 0 && x->cdr != cell_nil)
@@ -220,14 +242,13 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
       else
         {
           fdputs ("#<", fd);
-          fdisplay_ (x->structure, fd, write_p);
-          struct scm *t = x->car;
+          x = fdisplay_part (x, x->structure, fd, write_p);
           long size = x->length;
           long i;
           for (i = 2; i < size; i = i + 1)
             {
               fdputc (' ', fd);
-              fdisplay_ (cell_ref (x->structure, i), fd, write_p);
+              x = fdisplay_part (x, cell_ref (x->structure, i), fd, write_p);
             }
           fdputc ('>', fd);
         }
@@ -235,13 +256,12 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
   else if (t == TVECTOR)
     {
       fdputs ("#(", fd);
-      struct scm *t = x->car;
       long i;
       for (i = 0; i < x->length; i = i + 1)
         {
           if (i != 0)
             fdputc (' ', fd);
-          fdisplay_ (cell_ref (x->vector, i), fd, write_p);
+          x = fdisplay_part (x, cell_ref (x->vector, i), fd, write_p);
         }
       fdputc (')', fd);
     }
diff --git a/src/eval-apply.c b/src/eval-apply.c
index 7caec0b..4744c9d 100644
--- a/src/eval-apply.c
+++ b/src/eval-apply.c
@@ -48,7 +48,7 @@ check_formals (struct scm *f, struct scm *formals, struct scm *args)    /*:((int
       eputs (", got: ");
       eputs (itoa (alen));
       eputs ("\n");
-      write_error_ (f);
+      f = fdisplay_part (f, f, __stderr, 1);
       struct scm *e = make_string0 (s);
       return error (cell_symbol_wrong_number_of_args, cons (e, f));
     }
@@ -84,9 +84,9 @@ check_apply (struct scm *f, struct scm *e)      /*:((internal)) */
       eputs (s);
       eputs (type);
       eputs ("[");
-      write_error_ (e);
+      f = fdisplay_part (f, e, __stderr, 1);
       eputs ("]\n");
-      struct scm *e = make_string0 (s);
+      e = make_string0 (s);
       return error (cell_symbol_wrong_type_arg, cons (e, f));
     }
   return cell_unspecified;
diff --git a/src/hash.c b/src/hash.c
index 0c19fe9..a02ff86 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -153,15 +153,16 @@ struct scm *
 hash_table_printer (struct scm *table)
 {
   fdputs ("#<", __stdout);
-  display_ (struct_ref_ (table, 2));
+  table = fdisplay_part (table, struct_ref_ (table, 2), __stdout, 0);
   fdputc (' ', __stdout);
   fdputs ("size: ", __stdout);
-  display_ (struct_ref_ (table, 3));
+  table = fdisplay_part (table, struct_ref_ (table, 3), __stdout, 0);
   fdputc (' ', __stdout);
   struct scm *buckets = struct_ref_ (table, 4);
   fdputs ("buckets: ", __stdout);
   int i;
   struct scm *e;
+  struct scm *x;
   for (i = 0; i < buckets->length; i = i + 1)
     {
       e = vector_ref_ (buckets, i);
@@ -170,8 +171,9 @@ hash_table_printer (struct scm *table)
           fdputc ('[', __stdout);
           while (e->type == TPAIR)
             {
-              write_ (e->car->car);
-              e = e->cdr;
+              x = fdisplay_part (cons (e, buckets), e->car->car, __stdout, 1);
+              buckets = x->cdr;
+              e = x->car->cdr;
               if (e->type == TPAIR)
                 fdputc (' ', __stdout);
             }
diff --git a/src/module.c b/src/module.c
index 101f260..ad82548 100644
--- a/src/module.c
+++ b/src/module.c
@@ -69,13 +69,13 @@ struct scm *
 module_printer (struct scm *module)
 {
   fdputs ("#<", __stdout);
-  display_ (struct_ref_ (module, 2));
+  module = fdisplay_part (module, struct_ref_ (module, 2), __stdout, 0);
   fdputc (' ', __stdout);
   fdputs ("name: ", __stdout);
-  display_ (struct_ref_ (module, 3));
+  module = fdisplay_part (module, struct_ref_ (module, 3), __stdout, 0);
   fdputc (' ', __stdout);
   fdputs ("locals: ", __stdout);
-  display_ (struct_ref_ (module, 4));
+  module = fdisplay_part (module, struct_ref_ (module, 4), __stdout, 0);
   fdputc (' ', __stdout);
   struct scm *table = struct_ref_ (module, 5);
   fdputs ("globals:\n  ", __stdout);
diff --git a/src/stack.c b/src/stack.c
index 5ba8c3b..eaf36bc 100644
--- a/src/stack.c
+++ b/src/stack.c
@@ -28,7 +28,7 @@ struct scm *
 frame_printer (struct scm *frame)
 {
   fdputs ("#<", __stdout);
-  display_ (struct_ref_ (frame, 2));
+  frame = fdisplay_part (frame, struct_ref_ (frame, 2), __stdout, 0);
   fdputc (' ', __stdout);
   fdputs ("procedure: ", __stdout);
   display_ (struct_ref_ (frame, 3));
diff --git a/src/string.c b/src/string.c
index 242a546..1323cf6 100644
--- a/src/string.c
+++ b/src/string.c
@@ -74,12 +74,12 @@ string_equal_p (struct scm *a, struct scm *b)   /*:((name . "string=?")) */
       eputs (itoa (b->type));
       eputs ("\n");
       eputs ("a= ");
-      write_error_ (a);
+      b = fdisplay_part (b, a, __stderr, 1);
       eputs ("\n");
       eputs ("b= ");
       write_error_ (b);
       eputs ("\n");
-      assert_msg ((a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD), "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)");
+      assert_msg (0, "(a->type == TSTRING && b->type == TSTRING) || (a->type == TKEYWORD && b->type == TKEYWORD)");
     }
   if (a == b)
     return cell_t;
-- 
2.43.0


From e7a42bf3dd6bcddec5e627bf06925f59794cae98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 51/57] fix: ultoa converts numbers above LONG_MAX as unsigned

---
 lib/mes/ultoa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mes/ultoa.c b/lib/mes/ultoa.c
index 3319296..e769eb2 100644
--- a/lib/mes/ultoa.c
+++ b/lib/mes/ultoa.c
@@ -23,5 +23,5 @@
 char *
 ultoa (unsigned long x)
 {
-  return ntoab (x, 10, 1);
+  return ntoab (x, 10, 0);
 }
-- 
2.43.0


From 017c09fefcda301c2fe74631f4476bb0a113dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:21 +0000
Subject: [PATCH 52/57] fix: qsort sorts when elements compare equal to the
 pivot

---
 lib/stdlib/qsort.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/stdlib/qsort.c b/lib/stdlib/qsort.c
index 68352f5..7830667 100644
--- a/lib/stdlib/qsort.c
+++ b/lib/stdlib/qsort.c
@@ -43,7 +43,7 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
   for (size_t j = 0; j < count; j++)
     {
       int c = compare (base + j * size, p);
-      if (c < 0)
+      if (c <= 0)
         {
 #if 1                           //__x86_64__
           qswap (base + i * size, base + j * size, size);
@@ -54,8 +54,6 @@ qpart (void *base, size_t count, size_t size, int (*compare) (void const *, void
 #endif
           i++;
         }
-      else if (c == 0)
-        i++;
     }
   if (compare (base + count * size, base + i * size) < 0)
     qswap (base + i * size, base + count * size, size);
-- 
2.43.0


From a2888c4de591acb97965b870cd6550a39bdc3ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 53/57] fix: setenv heeds its overwrite argument and makes room
 for new variables

---
 lib/posix/setenv.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/posix/setenv.c b/lib/posix/setenv.c
index cbf426b..b385b7b 100644
--- a/lib/posix/setenv.c
+++ b/lib/posix/setenv.c
@@ -30,6 +30,7 @@ setenv (char const *s, char const *v, int overwrite_p)
 {
   char **p = environ;
   int length = strlen (s);
+  int count = 0;
   char* q;
 
   while (p[0] != 0)
@@ -41,18 +42,29 @@ setenv (char const *s, char const *v, int overwrite_p)
             break;
         }
       p = p + M2_PTR_SIZE;
+      count = count + 1;
     }
+  if (p[0] != 0 && overwrite_p == 0)
+    return 0;
   char *entry = malloc (length + strlen (v) + 2);
   if (entry == 0)
     return -1;
-  int end_p = p[0] == 0;
+  if (p[0] == 0)
+    {
+      /* There is no room behind the last variable.  */
+      char **copy = malloc ((count + 2) * sizeof (char *));
+      if (copy == 0)
+        return -1;
+      memcpy (copy, environ, count * sizeof (char *));
+      environ = copy;
+      p = environ + (count * M2_PTR_SIZE);
+      p[1] = 0;
+    }
   p[0] = entry;
   strcpy (entry, s);
   strcpy (entry + length, "=");
   strcpy (entry + length + 1, v);
   entry[length + strlen (v) + 1] = 0;
-  if (end_p != 0)
-    p[1] = 0;
 
   return 0;
 }
-- 
2.43.0


From 290f3f3ec6fdc1050f71ff5acecc691150f37e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:31 +0000
Subject: [PATCH 54/57] fix: vfprintf returns the number of characters written

---
 lib/stdio/vfprintf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/stdio/vfprintf.c b/lib/stdio/vfprintf.c
index 0b2c30a..98ed245 100644
--- a/lib/stdio/vfprintf.c
+++ b/lib/stdio/vfprintf.c
@@ -102,6 +102,7 @@ vfprintf (FILE * f, char const *format, va_list ap)
               char _c;
               _c = va_arg (ap, long);
               fputc (_c, f);
+              count++;
               break;
             }
           case 'd':
@@ -248,5 +249,5 @@ vfprintf (FILE * f, char const *format, va_list ap)
         p++;
       }
   va_end (ap);
-  return 0;
+  return count;
 }
-- 
2.43.0


From 53367d159220850076ac849e6c0217fe99972b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:21 +0000
Subject: [PATCH 55/57] fix: display and write print the whole of a number

---
 src/display.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/display.c b/src/display.c
index f7a7f39..66d793c 100644
--- a/src/display.c
+++ b/src/display.c
@@ -165,7 +165,7 @@ display_helper (struct scm *x, int cont, char *sep, int fd, int write_p)
     }
   else if (t == TNUMBER)
     {
-      fdputs (itoa (x->value), fd);
+      fdputs (ltoa (x->value), fd);
     }
   else if (t == TPAIR)
     {
-- 
2.43.0


From 841ab413b26d877c2aeb1e5c902da267692ffe52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:53 +0000
Subject: [PATCH 56/57] fix: vfscanf keeps within its digit buffer

---
 lib/stdio/vfscanf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/stdio/vfscanf.c b/lib/stdio/vfscanf.c
index b1083a5..1ba03d5 100644
--- a/lib/stdio/vfscanf.c
+++ b/lib/stdio/vfscanf.c
@@ -70,7 +70,8 @@ vfscanf (FILE * stream, char const *template, va_list ap)
                 }
               while (isdigit (p))
                 {
-                  *q++ = p;
+                  if (q < buf + sizeof (buf) - 1)
+                    *q++ = p;
                   p = fgetc (stream);
                 }
               ungetc (p, stream);
@@ -96,7 +97,8 @@ vfscanf (FILE * stream, char const *template, va_list ap)
                 }
               while (isdigit (p))
                 {
-                  *q++ = p;
+                  if (q < buf + sizeof (buf) - 1)
+                    *q++ = p;
                   p = fgetc (stream);
                 }
               ungetc (p, stream);
-- 
2.43.0


From c0e26d19453063aba5d38cf5a199552c796ce423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:22 +0000
Subject: [PATCH 57/57] fix: hash-ref and hashq-ref give their default for keys
 that are not there

---
 src/hash.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index a02ff86..773e384 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -85,17 +85,23 @@ hashq_get_handle (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *x = cell_f;
   if (dflt->type == TPAIR)
     x = dflt->car;
+  struct scm *handle = cell_f;
   if (bucket->type == TPAIR)
-    x = assq (key, bucket);
+    handle = assq (key, bucket);
+  if (handle != cell_f)
+    x = handle;
   return x;
 }
 
 struct scm *
 hashq_ref (struct scm *table, struct scm *key, struct scm *dflt)
 {
-  struct scm *x = hashq_get_handle (table, key, dflt);
-  if (x != cell_f)
-    x = x->cdr;
+  struct scm *handle = hashq_get_handle (table, key, cell_f);
+  struct scm *x = cell_f;
+  if (dflt->type == TPAIR)
+    x = dflt->car;
+  if (handle != cell_f)
+    x = handle->cdr;
   return x;
 }
 
@@ -110,12 +116,11 @@ hash_ref (struct scm *table, struct scm *key, struct scm *dflt)
   struct scm *x = cell_f;
   if (dflt->type == TPAIR)
     x = dflt->car;
+  struct scm *handle = cell_f;
   if (bucket->type == TPAIR)
-    {
-      x = assoc (key, bucket);
-      if (x != cell_f)
-        x = x->cdr;
-    }
+    handle = assoc (key, bucket);
+  if (handle != cell_f)
+    x = handle->cdr;
   return x;
 }
 
-- 
2.43.0

