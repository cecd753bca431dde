From 7ceaf19c05459d3933d8870d9f3cbb8ff0c42cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 001/256] fix: z80: rotate and shift instructions set P from
 the parity of their result, not of A

---
 src/sims/z80.src/z80mac.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index 93696ed..b14fa5c 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -186,7 +186,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -201,7 +201,7 @@
       reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -220,7 +220,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -234,7 +234,7 @@
       reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
 }
 
@@ -246,7 +246,7 @@
     reg = (reg << 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -264,7 +264,7 @@
     }							    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -276,7 +276,7 @@
     reg = (reg >> 1);					    \
     if (reg == 0)       regs.raf.F |= BIT_Z;		    \
     if (reg & 0x80)     regs.raf.F |= BIT_S;		    \
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	    \
+    if (parity(reg)) regs.raf.F |= BIT_P;	    \
     xy(reg);						    \
   }
 
@@ -289,7 +289,7 @@
     reg = (reg << 1) | 1;				\
     if (reg == 0) regs.raf.F |= BIT_Z;			\
     if (reg & 0x80) regs.raf.F |= BIT_S;		\
-    if (parity(regs.raf.A)) regs.raf.F |= BIT_P;	\
+    if (parity(reg)) regs.raf.F |= BIT_P;	\
     xy(reg);						\
   }
 
-- 
2.43.0


From d32f7063c9e53f2042bf0dae616b3161e5410902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:39 +0000
Subject: [PATCH 002/256] fix: z80: ADC and SBC take the carry into account in
 the half carry flag

---
 src/sims/z80.src/z80mac.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/z80mac.h b/src/sims/z80.src/z80mac.h
index b14fa5c..7b8edb2 100644
--- a/src/sims/z80.src/z80mac.h
+++ b/src/sims/z80.src/z80mac.h
@@ -57,10 +57,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A + (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;				\
+    oper+= cin; res+= cin;						\
     regs.raf.F &= ~(BIT_ALL);  /* clear these */			\
     regs.raf.F &= ~BIT_N;      /* addition */				\
-    if ((accu & 0x0F) + (oper & 0x0F) > 0x0F)  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) + ((oper-cin) & 0x0F) + cin > 0x0F)  regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))           regs.raf.F |= BIT_P;	\
     if (accu + oper > 0xFF)                    regs.raf.F |= BIT_C;	\
     regs.raf.A += oper;							\
@@ -96,10 +97,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)(reg);				\
     signed int res = (signed short)regs.HL + (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; ++res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;				\
+    oper+= cin; res+= cin;						\
     regs.raf.F &= ~(BIT_ALL);        /* clear these */			\
     regs.raf.F &= ~BIT_N;            /* addition */			\
-    if ((accu & 0x0FFF) + (oper & 0x0FFF) > 0x0FFF) regs.raf.F |= BIT_A; \
+    if ((accu & 0x0FFF) + ((oper-cin) & 0x0FFF) + cin > 0x0FFF) regs.raf.F |= BIT_A; \
     if ((res < -32768) || (res > 32767))            regs.raf.F |= BIT_P; \
     if (accu + oper > 0xFFFF)                       regs.raf.F |= BIT_C; \
     regs.HL += oper;							\
@@ -128,10 +130,11 @@
     unsigned int accu = (unsigned int)regs.raf.A;			\
     unsigned int oper = (unsigned int)(br);				\
     signed int res = (signed char)regs.raf.A - (signed char)(br);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;				\
+    oper+= cin; res-= cin;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0F) < (oper & 0x0F))      regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0F) < ((oper-cin) & 0x0F) + cin)      regs.raf.F |= BIT_A;	\
     if ((res < -128) || (res > 127))        regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.raf.A -= oper;							\
@@ -145,10 +148,11 @@
     unsigned int accu = (unsigned int)regs.HL;				\
     unsigned int oper = (unsigned int)reg;				\
     signed int res = (signed short)regs.HL - (signed short)(reg);	\
-    if (regs.raf.F & BIT_C) { ++oper; --res; }				\
+    unsigned int cin = (regs.raf.F & BIT_C)?1:0;				\
+    oper+= cin; res-= cin;						\
     regs.raf.F &= ~(BIT_ALL); /* clear these */				\
     regs.raf.F |= BIT_N;      /* not addition */			\
-    if ((accu & 0x0FFF) < (oper & 0x0FFF))  regs.raf.F |= BIT_A;	\
+    if ((accu & 0x0FFF) < ((oper-cin) & 0x0FFF) + cin)  regs.raf.F |= BIT_A;	\
     if ((res < -32768) || (res > 32767))    regs.raf.F |= BIT_P;	\
     if (accu < oper)                        regs.raf.F |= BIT_C;	\
     regs.HL -= oper;							\
-- 
2.43.0


From 4f3c69c668e744889fc6e4bd3870991b77787bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 003/256] fix: z80: 16 bit memory operand at 0xffff continues
 at 0

---
 src/sims/z80.src/z80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 3d186e5..9d99ad6 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -1111,7 +1111,7 @@ void cl_z80::store1( u16_t addr, t_mem val ) {
 
 void cl_z80::store2( u16_t addr, u16_t val ) {
   ram->write(addr,   val & 0xff);
-  ram->write(addr+1, (val >> 8) & 0xff);
+  ram->write((addr+1) & 0xffff, (val >> 8) & 0xff);
 }
 
 u8_t  cl_z80::get1( u16_t addr ) {
@@ -1122,7 +1122,7 @@ u16_t  cl_z80::get2( u16_t addr ) {
   u16_t  l, h;
   
   l = ram->read(addr  );
-  h = ram->read(addr+1);
+  h = ram->read((addr+1) & 0xffff);
   
   return (h << 8) | l;
 }
-- 
2.43.0


From 79180c7973b84d4f551ae5cc597f8c0a8756a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 004/256] fix: z80: IN r,(C) sets the S, Z and H flags

---
 src/sims/z80.src/inst_ed.cc | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 2310ff3..b46300a 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -86,7 +86,9 @@ int  cl_z80::inst_ed_(t_mem code)
     {
     case 0x40: // IN B,(C)
       regs.bc.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.bc.h);
+      SET_S(regs.bc.h);
       if (parity(regs.bc.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -143,7 +145,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x48: // IN C,(C)
       regs.bc.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.bc.l);
+      SET_S(regs.bc.l);
       if (parity(regs.bc.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -188,7 +192,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x50: // IN D,(C)
       regs.de.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.de.h);
+      SET_S(regs.de.h);
       if (parity(regs.de.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -228,7 +234,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x58: // IN E,(C)
       regs.de.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.de.l);
+      SET_S(regs.de.l);
       if (parity(regs.de.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -274,7 +282,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x60: // IN H,(C)
       regs.hl.h= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.hl.h);
+      SET_S(regs.hl.h);
       if (parity(regs.hl.h)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -314,7 +324,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x68: // IN L,(C)
       regs.hl.l= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.hl.l);
+      SET_S(regs.hl.l);
       if (parity(regs.hl.l)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
@@ -354,8 +366,10 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0x70: // IN (C)  set flags only (TSTI)
       {
         u8_t x= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-        regs.raf.F &= ~(BIT_N | BIT_P);
-        if (parity(x)) regs.raf.F |= BIT_P;
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(x);
+      SET_S(x);
+      if (parity(x)) regs.raf.F |= BIT_P;
         vc.rd++;
 	//tick(11);
         return(resGO);
@@ -381,7 +395,9 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0x78: // IN A,(C)
       regs.raf.A= inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l);
-      regs.raf.F &= ~(BIT_N | BIT_P);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.raf.A);
+      SET_S(regs.raf.A);
       if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       vc.rd++;
       //tick(11);
-- 
2.43.0


From 837684b13d162efe276405fe056205c935c4f4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 005/256] fix: z80: RRD and RLD set the flags

---
 src/sims/z80.src/inst_ed.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index b46300a..b906e46 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -319,6 +319,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp >> 4) | (regs.raf.A << 4));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp & 0x0f);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.raf.A);
+      SET_S(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
@@ -360,6 +364,10 @@ int  cl_z80::inst_ed_(t_mem code)
       ubtmp = get1(regs.HL);
       store1(regs.HL, (ubtmp << 4) | (regs.raf.A & 0x0f));
       regs.raf.A = (regs.raf.A & 0xf0) | (ubtmp >> 4);
+      regs.raf.F &= ~(BIT_S | BIT_Z | BIT_A | BIT_N | BIT_P);
+      SET_Z(regs.raf.A);
+      SET_S(regs.raf.A);
+      if (parity(regs.raf.A)) regs.raf.F |= BIT_P;
       //tick(17);
       return(resGO);
 
-- 
2.43.0


From 3b496f7725ec90b8069785ea21d7dfb539feef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 006/256] fix: z80: CPI, CPD, CPIR and CPDR count HL in the
 right direction and set the flags

---
 src/sims/z80.src/inst_ed.cc | 119 ++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 68 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index b906e46..8eb378b 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -447,15 +447,17 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xA1: // CPI
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
+      // compare A with mem(HL), increment HL, decrement BC; C is not changed
       {
-        unsigned char tmp;
-        tmp = get1(regs.HL);
-        cp_bytereg(tmp);
+        u8_t c= regs.raf.F & BIT_C;
+        ubtmp= get1(regs.HL);
+        cp_bytereg(ubtmp);
+        regs.raf.F &= ~(BIT_C | BIT_P);
+        regs.raf.F |= c;
         ++regs.HL;
         --regs.BC;
+        vc.rd++;
         if (regs.BC != 0) regs.raf.F |= BIT_P;
-	//tick(15);
       }
       return(resGO);
 
@@ -501,17 +503,18 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
       
     case 0xA9: // CPD
-/* fixme: checkme, compare to other emul. */
-
-      regs.raf.F &= ~(BIT_ALL);  /* clear these */
-      if ((regs.raf.A - get1(regs.HL)) == 0) {
-        regs.raf.F |= (BIT_Z | BIT_P);
+      // compare A with mem(HL), decrement HL, decrement BC; C is not changed
+      {
+        u8_t c= regs.raf.F & BIT_C;
+        ubtmp= get1(regs.HL);
+        cp_bytereg(ubtmp);
+        regs.raf.F &= ~(BIT_C | BIT_P);
+        regs.raf.F |= c;
+        --regs.HL;
+        --regs.BC;
+        vc.rd++;
+        if (regs.BC != 0) regs.raf.F |= BIT_P;
       }
-      ++regs.HL;
-      --regs.BC;
-      if (regs.BC != 0) regs.raf.F |= BIT_P;
-      vc.rd++;
-      //tick(15);
       return(resGO);
 
     case 0xAA: // IND
@@ -564,35 +567,24 @@ int  cl_z80::inst_ed_(t_mem code)
       return(resGO);
 
     case 0xB1: // CPIR
-      // compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-      regs.raf.F &= ~(BIT_P | BIT_A | BIT_Z | BIT_S);  /* clear these */
-      regs.raf.F |= BIT_N;
-      //do {
-        if((regs.raf.A - get1(regs.HL)) == 0)
-          regs.raf.F |= BIT_Z;
-        else
-          regs.raf.F &= ~(BIT_Z);
-        if((regs.raf.A - get1(regs.HL)) & 0x80)
-          regs.raf.F |= BIT_S;
-        else
-          regs.raf.F &= ~(BIT_S);
-/* fixme: set BIT_A correctly. */
+      // compare A with mem(HL), increment HL, decrement BC; C is not changed
+      {
+        u8_t c= regs.raf.F & BIT_C;
+        ubtmp= get1(regs.HL);
+        cp_bytereg(ubtmp);
+        regs.raf.F &= ~(BIT_C | BIT_P);
+        regs.raf.F |= c;
         ++regs.HL;
         --regs.BC;
         vc.rd++;
-	//tick(15);
-	//if (regs.BC) //tick(5);
-	//} while (regs.BC != 0 && (regs.raf.F & BIT_Z) == 0);
-	if(regs.BC)
-	  {
-	    regs.raf.F |= BIT_P;
-	    if (!(regs.raf.F & BIT_Z))
-	      {
-		cond_true= true;
-		repeating= true;
-		PC= instPC;
-	      }
-	  }
+        if (regs.BC != 0) regs.raf.F |= BIT_P;
+        if ((regs.BC != 0) && !(regs.raf.F & BIT_Z))
+          {
+            repeating= true;
+            cond_true= true;
+            PC= instPC;
+          }
+      }
       return(resGO);
 
     case 0xB2: // INIR
@@ -662,35 +654,26 @@ int  cl_z80::inst_ed_(t_mem code)
 	  }
       return(resGO);
     case 0xB9: // CPDR
+      // compare A with mem(HL), decrement HL, decrement BC; C is not changed
       {
-	bool gotit= false;
-	// compare acc with mem(HL), if ACC=0 set Z flag.  Incr HL, decr BC.
-	regs.raf.F &= ~(BIT_ALL);  /* clear these */
-	//do {
-	  if ((regs.raf.A - get1(regs.HL)) == 0) {
-	    regs.raf.F |= (BIT_Z | BIT_P);
-	    gotit= true;
-	  }
-	  else
-	    {
-	      --regs.HL;
-	      --regs.BC;
-	      vc.rd++;
-	    }
-	  //tick(15);
-	  //if (regs.BC) //tick(5);
-	  //} while (regs.BC != 0);
-	  if (regs.BC)
-	    {
-	      if (!gotit)
-		{
-		  repeating= true;
-		  cond_true= true;
-		  PC= instPC;
-		}
-	    }
-	return(resGO);
+        u8_t c= regs.raf.F & BIT_C;
+        ubtmp= get1(regs.HL);
+        cp_bytereg(ubtmp);
+        regs.raf.F &= ~(BIT_C | BIT_P);
+        regs.raf.F |= c;
+        --regs.HL;
+        --regs.BC;
+        vc.rd++;
+        if (regs.BC != 0) regs.raf.F |= BIT_P;
+        if ((regs.BC != 0) && !(regs.raf.F & BIT_Z))
+          {
+            repeating= true;
+            cond_true= true;
+            PC= instPC;
+          }
       }
+      return(resGO);
+
     case 0xBA: // INDR
       //do {
         this->store1(regs.HL, inputs->read((type->type==CPU_Z80N)?regs.BC:regs.bc.l));
-- 
2.43.0


From ef1c51eee87f175a9764cc698284ab8d583f7a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 007/256] fix: z80: OUTI and OTIR write the port selected by C

---
 src/sims/z80.src/inst_ed.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 8eb378b..7659564 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -477,7 +477,7 @@ int  cl_z80::inst_ed_(t_mem code)
 
     case 0xA3: // OUTI
       regs.bc.h--;
-      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+      outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
       vc.wr++;
       vc.rd++;
       SET_Z(regs.bc.h);
@@ -613,7 +613,7 @@ int  cl_z80::inst_ed_(t_mem code)
     case 0xB3: // OTIR
       //do {
         regs.bc.h--;
-        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.h, this->get1(regs.HL));
+        outputs->write((type->type==CPU_Z80N)?regs.BC:regs.bc.l, this->get1(regs.HL));
         vc.wr++;
         vc.rd++;
         SET_Z(regs.bc.h);
-- 
2.43.0


From b5865ed4700cd8c8a78012ccaff8d443bec7aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 008/256] fix: z80: LDDR sets P while BC is not zero, as LDIR
 does

---
 src/sims/z80.src/inst_ed.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/z80.src/inst_ed.cc b/src/sims/z80.src/inst_ed.cc
index 7659564..73a9cca 100644
--- a/src/sims/z80.src/inst_ed.cc
+++ b/src/sims/z80.src/inst_ed.cc
@@ -651,6 +651,7 @@ int  cl_z80::inst_ed_(t_mem code)
 	    repeating= true;
 	    cond_true= true;
 	    PC= instPC;
+	    regs.raf.F|= BIT_P;
 	  }
       return(resGO);
     case 0xB9: // CPDR
-- 
2.43.0


From c2d23ccb626356d5cf94e6924c7807a5a8020cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 009/256] fix: z80: CALL reads its address before it pushes the
 return address

---
 src/sims/z80.src/inst.cc | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/sims/z80.src/inst.cc b/src/sims/z80.src/inst.cc
index 5a20dd8..58b1f31 100644
--- a/src/sims/z80.src/inst.cc
+++ b/src/sims/z80.src/inst.cc
@@ -1395,8 +1395,7 @@ cl_z80::inst_call(t_mem code)
     case 0xC4: // CALL NZ,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_Z)) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1407,8 +1406,7 @@ cl_z80::inst_call(t_mem code)
     case 0xCC: // CALL Z,nnnn
       //tick(9);
       if (regs.raf.F & BIT_Z) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1417,16 +1415,14 @@ cl_z80::inst_call(t_mem code)
       }
       break;
     case 0xCD: // CALL nnnn
-      push2(PC+2);
-      PC = fetch2();
+      { u16_t addr= fetch2(); push2(PC); PC = addr; }
       vc.wr+= 2;
       //tick(16);
       break;
     case 0xD4: // CALL NC,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_C)) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1437,8 +1433,7 @@ cl_z80::inst_call(t_mem code)
     case 0xDC: // CALL C,nnnn
       //tick(9);
       if (regs.raf.F & BIT_C) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1449,8 +1444,7 @@ cl_z80::inst_call(t_mem code)
     case 0xE4: // CALL PO,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_P)) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1461,8 +1455,7 @@ cl_z80::inst_call(t_mem code)
     case 0xEC: // CALL PE,nnnn
       //tick(9);
       if (regs.raf.F & BIT_P) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1473,8 +1466,7 @@ cl_z80::inst_call(t_mem code)
     case 0xF4: // CALL P,nnnn
       //tick(9);
       if (!(regs.raf.F & BIT_S)) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
@@ -1485,8 +1477,7 @@ cl_z80::inst_call(t_mem code)
     case 0xFC: // CALL M,nnnn
       //tick(9);
       if (regs.raf.F & BIT_S) {
-        push2(PC+2);
-        PC = fetch2();
+        { u16_t addr= fetch2(); push2(PC); PC = addr; }
         vc.wr+= 2;
 	cond_true= true;
         //tick(7);
-- 
2.43.0


From 0d2bf0cece4d60bc52e7c945c1e6af65eb8309d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 010/256] fix: expressions: assignment to a bit or bit range
 stores the value in the selected bits

---
 src/core/cmd.src/cmdpars.y | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index c3aad3b..708a5b4 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -387,9 +387,9 @@ assignment_expr
 	{
 		t_mem mask = 0;
 		for (int i = $1.bitnr_low; i <= $1.bitnr_high; mask |= 1U << i++);
-		mask= ($1.memory->read($1.mem_address) & (~mask)) | (($3 & mask) << $1.bitnr_low);
-		$1.memory->write($1.mem_address, mask);
-		$$= mask;
+		t_mem val= ($1.memory->read($1.mem_address) & (~mask)) | (($3 << $1.bitnr_low) & mask);
+		$1.memory->write($1.mem_address, val);
+		$$= ($1.memory->read($1.mem_address) & mask) >> $1.bitnr_low;
 	}
 | PTOK_CELL assignment_operator assignment_expr
 	{
-- 
2.43.0


From 4409a5ba8d7cab58bdfdef9ca619b0d34961d432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 011/256] fix: expressions: division by zero is reported
 instead of killing the simulator

---
 src/core/cmd.src/cmdpars.y | 40 ++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/core/cmd.src/cmdpars.y b/src/core/cmd.src/cmdpars.y
index 708a5b4..fb42e36 100644
--- a/src/core/cmd.src/cmdpars.y
+++ b/src/core/cmd.src/cmdpars.y
@@ -8,6 +8,8 @@
   //#include "stypes.h"
 
 static void yyerror (const char *msg);
+static long divide(long a, long b);
+static long modulo(long a, long b);
 %}
 /*%expect 6*/
 
@@ -277,8 +279,8 @@ type_name
 multiplicative_expr
 : cast_expr { $$= $1; }
 | multiplicative_expr PTOK_ASTERIX cast_expr { $$= $1 * $3; }
-| multiplicative_expr PTOK_SLASH cast_expr { $$= $1 / $3; }
-| multiplicative_expr PTOK_PERCENT cast_expr { $$= $1 % $3; }
+| multiplicative_expr PTOK_SLASH cast_expr { $$= divide($1, $3); }
+| multiplicative_expr PTOK_PERCENT cast_expr { $$= modulo($1, $3); }
 ;
 
 additive_expr
@@ -354,10 +356,10 @@ assignment_expr
 	      $1.memory->write($1.address, org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1.memory->write($1.address, org /= $3);
+	      $1.memory->write($1.address, org= divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1.memory->write($1.address, org %= $3);
+	      $1.memory->write($1.address, org= modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1.memory->write($1.address, org += $3);
@@ -404,10 +406,10 @@ assignment_expr
 	      $1->write(org *= $3);
 	      break;
 	    case PTOK_DIV_ASSIGN:
-	      $1->write(org /= $3);
+	      $1->write(org= divide(org, $3));
 	      break;
 	    case PTOK_MOD_ASSIGN:
-	      $1->write(org %= $3);
+	      $1->write(org= modulo(org, $3));
 	      break;
 	    case PTOK_ADD_ASSIGN:
 	      $1->write(org += $3);
@@ -495,6 +497,32 @@ bit:
 
 %%
 
+static long
+divide(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  if (b == -1)
+    return -(unsigned long)a;
+  return a / b;
+}
+
+static long
+modulo(long a, long b)
+{
+  if (b == 0)
+    {
+      yyerror("Divide by zero");
+      return 0;
+    }
+  if (b == -1)
+    return 0;
+  return a % b;
+}
+
 static void
 yyerror (const char *msg)
 {
-- 
2.43.0


From 8a4446fc30a55373b3f98ee7e1cc8f83e1117da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 012/256] fix: avr: the whole 64K data space is backed by
 memory, not just the first 128 bytes

---
 src/sims/avr.src/avr.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 7e3e3ca..5eb6a9d 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -188,11 +188,11 @@ cl_avr::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  chip= new cl_chip8("iram_chip", 0x80, 8);
+  chip= new cl_chip8("iram_chip", 0x10000, 8);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= ram/*address_space(MEM_IRAM_ID)*/,
-			     chip, 0, 0x7f, 0);
+			     chip, 0, 0xffff, 0);
   ad->init();
   as->decoders->add(ad);
   ad->activate(0);
-- 
2.43.0


From e0459f754eb02e8f5a95eddc52863383cb3ab803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 013/256] fix: loading a file with @memory stores into (and
 checks) the selected address space, not always rom

---
 src/core/sim.src/uc.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f03c52c..1a563a0 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1495,25 +1495,26 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
       return eq;
     }
   // address space
+  class cl_address_space *as= (class cl_address_space *)mem;
   t_addr la= mem->lowest_valid_address();
   t_addr ha= mem->highest_valid_address();
   if ((addr >= la) && (addr <= ha))
     {
       if (check)
 	{
-	  v= rom->read(addr);
+	  v= mem->read(addr);
 	  if (!(eq= val == v))
 	    application->dd_printf("Diff at %08x, FILE=%08x MEM=%08x\n",
 				   AU32(addr), MU32(val), MU32(v));
 	}
       else
-	rom->download(addr, val);
+	as->download(addr, val);
       return eq;
     }
   t_addr bank, caddr;
   bank= addr / size;
   caddr= addr % size;
-  class cl_banker *d= (class cl_banker *)(rom->get_decoder_of(caddr));
+  class cl_banker *d= (class cl_banker *)(as->get_decoder_of(caddr));
   if (d)
     {
       if (!d->is_banker())
@@ -1521,7 +1522,7 @@ cl_uc::set_rom(class cl_inspec *is, t_addr addr, t_mem val, bool check)
 	  return true;
 	}
       d->switch_to(bank, NULL);
-      rom->download(caddr, val);
+      as->download(caddr, val);
       d->activate(NULL);
     }
   else
-- 
2.43.0


From dafe9c92ba95a522030de4658cebfeee3501a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 014/256] fix: download command: records go to rom instead of
 an uninitialised memory pointer

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1a563a0..9cd118e 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -532,6 +532,7 @@ cl_inspec::cl_inspec(chars aspec, class cl_uc *auc)
   offset_name= "0";
   offset= 0;
   uc= auc;
+  mem= uc->rom;
   use_min= 0;
   use_max= 0xffffffff;
 }
-- 
2.43.0


From 251f4f339e8cf08dd80f25abd31ea5f6de87ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 015/256] fix: hex files for memories wider than 8 bits: no
 stray word after the last record, 24 bit words take 3 bytes, extended address
 counts bytes

---
 src/core/sim.src/uc.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 9cd118e..ba048e9 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1633,6 +1633,8 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 		{
 		  if (rtyp == 0)
 		    {
+		      // address of the memory word
+		      addr+= base;
 		      if (mem->width > 8)
 			{
 			  if (mem->width <= 16)
@@ -1646,7 +1648,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 			{
 			  if (mem->width <= 8)
 			    {
-			      set_rom(is, base+addr, rec[i], check);
+			      set_rom(is, addr, rec[i], check);
 			      addr++;
 			      written++;
 			    }
@@ -1656,13 +1658,31 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 				{
 				case 0: lows[0]= rec[i]; get_low++; break;
 				case 1: lows[1]= rec[i];
-				  set_rom(is, base+addr, (lows[1]*256)+lows[0], check);
+				  set_rom(is, addr, (lows[1]*256)+lows[0], check);
 				  addr++;
 				  written++;
 				  get_low= 0;
 				  break;
 				}
 			    }
+			  else if (mem->width <= 24)
+			    {
+			      switch (get_low)
+				{
+				case 0: lows[0]= rec[i]; get_low++; break;
+				case 1: lows[1]= rec[i]; get_low++; break;
+				case 2: lows[2]= rec[i];
+				  set_rom(is, addr,
+					  (lows[2]<<16)+
+					  (lows[1]<<8)+
+					  (lows[0]),
+					  check);
+				  get_low= 0;
+				  addr++;
+				  written++;
+				  break;
+				}
+			    }
 			  else if (mem->width <= 32)
 			    {
 			      switch (get_low)
@@ -1671,7 +1691,7 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 				case 1: lows[1]= rec[i]; get_low++; break;
 				case 2: lows[2]= rec[i]; get_low++; break;
 				case 3: lows[3]= rec[i];
-				  set_rom(is, base+addr,
+				  set_rom(is, addr,
 					  (lows[3]<<24)+
 					  (lows[2]<<16)+
 					  (lows[1]<<8)+
@@ -1706,8 +1726,9 @@ cl_uc::read_hex_file(class cl_inspec *is, cl_f *f, bool check)
 	    fprintf(stderr, "Read error in record %ld.\n", recnum);
 	}
     }
-  if (mem->width > 8)
+  if (get_low > 0)
     {
+      // incomplete last word
       for (i= get_low; i<4; i++)
 	lows[i]= 0;
       set_rom(is, addr,
-- 
2.43.0


From 908d9607a0ab30f1e2ea326a0fef3f059d62fa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 016/256] fix: S-record files for memories wider than 8 bits:
 address is divided once, by the size of a word

---
 src/core/sim.src/uc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index ba048e9..f0c2ced 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2102,8 +2102,8 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
   if (is->get_mem()->width > 8)
     {
       if (is->get_mem()->width <= 16) a/= 2;
-      if (is->get_mem()->width <= 24) a/= 3;
-      if (is->get_mem()->width <= 32) a/= 4;
+      else if (is->get_mem()->width <= 24) a/= 3;
+      else if (is->get_mem()->width <= 32) a/= 4;
     }
   while (b < data_bytes)
     {
-- 
2.43.0


From 60491452402369793ba09b3f3fbcd6f5434988b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 017/256] fix: OMF files: the first data byte of a content
 record goes to the address of the record

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index f0c2ced..2213910 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1756,7 +1756,7 @@ cl_uc::read_omf_file(class cl_inspec *is, cl_f *f, bool check)
 	  int i= 3;
 	  while (i < rec.len)
 	    {
-	      set_rom(is, addr+i, rec.rec[i], check);
+	      set_rom(is, addr+i-3, rec.rec[i], check);
 	      written++;
 	      i++;
 	    }
-- 
2.43.0


From c47d7ba030f045322c3e28c4663c8adb9f838ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 018/256] fix: reading a character at the end of a file returns
 instead of waiting forever (loading an empty file hung)

---
 src/core/utils.src/fio.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 837a48a..042e277 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -922,7 +922,10 @@ cl_f::get_c(void)
 {
   int c;
   while (!check_dev())
-    ;
+    {
+      if (eof())
+	return -1;
+    }
   int i= read_dev(&c, 1);
   if (i > 0)
     return c;
-- 
2.43.0


From 9b09cb6b3dd316dffffb5f1550d2a17eb6736bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 019/256] fix: asc and p2h files: the last line of the file is
 loaded too

---
 src/core/sim.src/uc.cc | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 2213910..bf3e9d1 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1770,16 +1770,21 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 {
   int c;
   chars line= chars();
-  bool in;
+  bool in, nl;
   t_addr addr= 0;
   
   in= true;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof() &&
+	 ((c= f->get_c()) > 0))
     {
+      nl= (c=='\n') || (c=='\r');
+      if (!in && !nl)
+	in= true;
       if (in)
 	{
-	  if ((c=='\n') || (c=='\r'))
+	  if (!nl)
+	    line.append(c);
+	  if (nl || f->eof())
 	    {
 	      in= false;
 	      {
@@ -1799,18 +1804,6 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 		line= "";
 	      }
 	    }
-	  else
-	    line.append(c);
-	}
-      else // out
-	{
-	  if ((c=='\n') || (c=='\r'))
-	    ;
-	  else
-	    {
-	      in= true;
-	      line.append(c);
-	    }
 	}
     }
   return addr;
@@ -1822,10 +1815,13 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
   chars line= chars();
   int c;
   long nr= 0;
-  while ((c= f->get_c()) &&
-	 (!f->eof()))
+  while (!f->eof() &&
+	 ((c= f->get_c()) > 0))
     {
-      if ((c=='\n') || (c=='\r'))
+      bool nl= (c=='\n') || (c=='\r');
+      if (!nl)
+	line.append(c);
+      if (nl || f->eof())
 	{
 	  line.trim();
 	  line.start_parse();
@@ -1844,8 +1840,6 @@ cl_uc::read_p2h_file(class cl_inspec *is, cl_f *f, bool check)
 	    }
 	  line= "";
 	}
-      else
-	line.append(c);
     }
   return nr;
 }
-- 
2.43.0


From f07a40b9753b90cfc820770ef937c124cca0e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 020/256] fix: S-record files: the number of words read is
 counted in words of the memory

---
 src/core/sim.src/uc.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index bf3e9d1..355e299 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -2088,7 +2088,7 @@ static t_addr a32(const char *s, int p)
 
 static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, int p, int data_bytes, bool check)
 {
-  int b= 0;
+  int b= 0, words= 0;
   u8_t d, d0, d1, d2, d3;
   t_mem v;
   if (data_bytes < 1)
@@ -2101,6 +2101,7 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
     }
   while (b < data_bytes)
     {
+      words++;
       if (is->get_mem()->width <= 8)
 	{
 	  d= h2(s, p);
@@ -2137,7 +2138,7 @@ static int s19(class cl_inspec *is, class cl_uc *uc, t_addr a, const char *s, in
 	  a++;
 	}
     }
-  return data_bytes;
+  return words;
 }
 
 long
-- 
2.43.0


From f51c689eb246e4b8e49f207853f4e5694d49a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 021/256] fix: asc files: a blank first line does not crash the
 loader

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 355e299..a3cc5d8 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1795,7 +1795,7 @@ cl_uc::read_asc_file(class cl_inspec *is, cl_f *f, bool check)
 		line.start_parse();
 		word= line.token(" ");
 		s= word.c_str();
-		if (isxdigit(*s))
+		if (s && isxdigit(*s))
 		  {
 		    t_mem d= chars(s).htoi();
 		    set_rom(is, addr, d, check);
-- 
2.43.0


From 0dd7aee18cbee25b75f178286848d2ca7e621c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 022/256] fix: byte 0xff read from a file in raw mode is not
 lost (it was taken for end of data)

---
 src/core/utils.src/fio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/fio.cc b/src/core/utils.src/fio.cc
index 042e277..2b15e17 100644
--- a/src/core/utils.src/fio.cc
+++ b/src/core/utils.src/fio.cc
@@ -686,7 +686,7 @@ cl_f::process(char c)
 	  echo_write(&c, 1);
 	}
       last_ln= 0;
-      return put(c);
+      return put(ci);
     }
 
   int l= strlen(line);
-- 
2.43.0


From 4357268429aa21b0171003d7067679d5164b7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 023/256] fix: dump: continuing a dump does not skip the last
 location of the memory

---
 src/core/sim.src/mem.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 92cdbd0..10f3734 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -513,7 +513,7 @@ cl_memory::dump(int smart,
         break;
     }
 
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return(dump_finished);
@@ -570,7 +570,7 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
     f->write_str("\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -603,7 +603,7 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
     }
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
@@ -680,7 +680,7 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   f->write_str(":00000001FF\r\n");
 
   dump_finished= a;
-  if (dump_finished >= hva)
+  if (dump_finished > hva)
     dump_finished= lva;
 
   return dump_finished;
-- 
2.43.0


From 36d49448231b15f75d28fe644a21ac20d073503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 024/256] fix: dump: 64 memory locations are dumped when the
 end is not given, not 65

---
 src/core/cmd.src/cmd_uc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index ed2e3c4..6d8c2b4 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -366,7 +366,7 @@ COMMAND_DO_WORK_UC(cl_dump_cmd)
     {
       mem= uc->address_space(params[0]->value.cell, &addr);
       ads._start(addr);
-      ads._stop(ads.start+64);
+      ads._stop(ads.start+63);
     }
   else if (cmdline->syntax_match(uc, CELL ADDRESS))
     {
@@ -410,7 +410,7 @@ COMMAND_DO_WORK_UC(cl_dump_cmd)
   else if (cmdline->syntax_match(uc, MEMORY ADDRESS)) {
     mem  = params[0]->value.memory.memory;
     ads._start(params[1]->value.address);
-    ads._stop(ads.start+64);
+    ads._stop(ads.start+63);
   }
   else if (cmdline->syntax_match(uc, MEMORY ADDRESS ADDRESS)) {
     mem  = params[0]->value.memory.memory;
-- 
2.43.0


From b3a60d36c5ac22be6c57629ba05d35698d36dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 025/256] fix: set memory: only the changed locations are
 printed

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 6280b02..84294be 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -125,7 +125,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
                i++, addr++)
             mem->write(addr, array[i]);
           uc->check_errors();
-	  ads.stop= addr;
+	  ads.stop= (addr > start)?(addr-1):start;
           mem->dump(/*start, start+len-1*/&ads, 8, con);
         }
     }
-- 
2.43.0


From 49ea2091a9a32c1009f95ef5de24e1fae7067b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 026/256] fix: dump: binary, string and ihex formats continue
 after the last dumped location too when start is not given

---
 src/core/sim.src/mem.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 10f3734..99850c1 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -529,6 +529,9 @@ cl_memory::dump_s(//t_addr start, t_addr stop,
   t_addr hva= highest_valid_address();
   class cl_f *f= con->get_fout();
 
+  if (!ads->use_start)
+    ads->start= dump_finished;
+
   t_addr a= ads->start;
   t_mem d= read(a);
   char last= '\n';
@@ -586,6 +589,10 @@ cl_memory::dump_b(//t_addr start, t_addr stop,
   t_addr hva= highest_valid_address();
   class cl_f *f= con->get_fout();
 
+  if (bpl < 0)
+    bpl= 8;
+  if (!ads->use_start)
+    ads->start= dump_finished;
   if (!ads->use_stop)
     ads->stop= ads->start + 10 * bpl - 1;
 
@@ -621,6 +628,8 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   t_addr start_line;
   class cl_f *f= con->get_fout();
   
+  if (!ads->use_start)
+    ads->start= dump_finished;
   if (!ads->use_stop)
     ads->stop= ads->start + 10 * bpl - 1;
 
-- 
2.43.0


From 92b5ad9ef0931dd4b90051a455ee8f12fc820340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 027/256] fix: dump: ihex format of memories wider than 8 bits,
 and of addresses above 64K

---
 src/core/sim.src/mem.cc | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 99850c1..db9272a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -626,6 +626,8 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
   t_addr hva= highest_valid_address();
   unsigned int sum;
   t_addr start_line;
+  t_addr ext= 0; // upper half of the byte address
+  int bytes= (width <= 8)?1:((width <= 16)?2:((width <= 24)?3:4));
   class cl_f *f= con->get_fout();
   
   if (!ads->use_start)
@@ -651,6 +653,8 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
     return dump_finished= ads->stop;
   if (bpl > 32)
     bpl= 32;
+  if (bytes > 1)
+    bpl= 8;
   t_addr a= ads->start;
   sum= 0;
   start_line= a;
@@ -664,20 +668,32 @@ cl_memory::dump_i(//t_addr start, t_addr stop,
 	  if ((a - start_line) > 0)
 	    {
 	      unsigned char c;	      
+	      t_addr byte_addr= start_line * bytes;
+	      if ((byte_addr >> 16) != ext)
+		{
+		  ext= byte_addr >> 16;
+		  c= 2 + 4 + (ext >> 8) + ext;
+		  f->prntf(":02000004%04X%02X\r\n", ext, (0x100 - c) & 0xff);
+		}
 	      sum= 0;
-	      c= a-start_line;
-	      f->prntf(":%02X%04X00", c, start_line);
+	      c= (a-start_line) * bytes;
+	      f->prntf(":%02X%04X00", c, byte_addr & 0xffff);
 	      sum+= c;
-	      c= int(start_line >> 8) & 0xff;
+	      c= int(byte_addr >> 8) & 0xff;
 	      sum+= c;
-	      c= start_line & 0xff;
+	      c= byte_addr & 0xff;
 	      sum+= c;
 	      unsigned int i;
 	      for (i= 0; i < a-start_line; i++)
 		{
-		  c= read(start_line + i);
-		  f->prntf("%02X", c);
-		  sum+= c;
+		  t_mem d= read(start_line + i);
+		  int b;
+		  for (b= 0; b < bytes; b++)
+		    {
+		      c= d >> (8*b);
+		      f->prntf("%02X", c);
+		      sum+= c;
+		    }
 		}
 	      sum&= 0xff;
 	      unsigned char chk= 0x100 - sum;
-- 
2.43.0


From b867fd6a1bcee1107cecda126d4bde512384fabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 028/256] fix: fill: the end of the region is limited to the
 end of the memory (end 0xffffffff never finished)

---
 src/core/cmd.src/cmd_uc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 6d8c2b4..9f29be8 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -635,6 +635,8 @@ COMMAND_DO_WORK_UC(cl_fill_cmd)
     end  = params[2]->value.address;
     what = params[3]->value.number;
     t_addr i;
+    if (end > mem->highest_valid_address())
+      end= mem->highest_valid_address();
     for (i= start; i <= end; i++)
       {
 	t_mem d;
-- 
2.43.0


From 52d20218516817e8d96a293e0bc50eb2a2e553de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 029/256] fix: where: search the whole address space when it
 does not start at 0

---
 src/core/sim.src/mem.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index db9272a..2f0c25a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -719,17 +719,21 @@ cl_memory::search_next(bool case_sensitive,
   int i;
   bool found;
 
+  t_addr end= highest_valid_address() + 1;
+
   if (addr == NULL)
     a= 0;
   else
     a= *addr;
+  if (a < lowest_valid_address())
+    a= lowest_valid_address();
 
-  if (a+len > size)
+  if (a+len > end)
     return(false);
 
   found= false;
   while (!found &&
-	 a+len <= size)
+	 a+len <= end)
     {
       bool match= true;
       for (i= 0; i < len && match; i++)
@@ -739,9 +743,9 @@ cl_memory::search_next(bool case_sensitive,
 	  d2= array[i];
 	  if (!case_sensitive)
 	    {
-	      if (/*d1 < 128*/isalpha(d1))
+	      if ((d1 < 256) && isalpha(d1))
 		d1= toupper(d1);
-	      if (/*d2 < 128*/isalpha(d2))
+	      if ((d2 < 256) && isalpha(d2))
 		d2= toupper(d2);
 	    }
 	  match= d1 == d2;
-- 
2.43.0


From 625656b066a417c99637aa67556f49efec6f4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 030/256] fix: set memory: changes at address 0 are printed
 from address 0

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index 84294be..bb7185e 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -117,7 +117,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
         {
           int i;
           t_addr addr, last= mem->get_start_address()+mem->get_size()-1;
-	  class cl_dump_ads ads(start, start, true, true);
+	  class cl_dump_ads ads(start, start);
           for (i= 0, addr= start;
                (i < len) &&
 		 mem->valid_address(addr) &&
-- 
2.43.0


From 7e9c0d12a1d6f9acfc49d50697d67f2bd32bb280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 031/256] fix: history: an instruction at which a breakpoint
 stops is not executed, so it is not recorded or counted

---
 src/core/sim.src/uc.cc   | 11 +++++++----
 src/core/sim.src/uccl.h  |  2 +-
 src/sims/s51.src/uc51.cc |  6 ++++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index a3cc5d8..1106a30 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -396,12 +396,10 @@ cl_exec_hist::init(void)
 }
 
 void
-cl_exec_hist::put(void)
+cl_exec_hist::put(t_addr pc)
 {
-  t_addr pc;
   if (!uc)
     return;
-  pc= uc->PC;
   if (t != h)
     {
       if (hist[h].addr == pc)
@@ -3263,6 +3261,7 @@ int
 cl_uc::do_inst(void)
 {
   int res= resGO;
+  t_addr histPC= PC;
 
   save_hist();
   if (state == stGO)
@@ -3273,7 +3272,12 @@ cl_uc::do_inst(void)
       if (res == resINV_INST)
 	/* backup to start of instruction */
 	PC= instPC;
+      if (res == resBREAKPOINT)
+	/* stopped before execution */
+	vc.inst--;
     }
+  if (res != resBREAKPOINT)
+    hist->put(histPC);
   post_inst();
 
   if ((res == resGO) && (PC == instPC) && stop_selfjump && !repeating)
@@ -3426,7 +3430,6 @@ cl_uc::save_hist()
 	  fflush(pc_dump);
 	}
     }
-  hist->put();
 }
 
 int
diff --git a/src/core/sim.src/uccl.h b/src/core/sim.src/uccl.h
index 44ba2bf..be6c837 100644
--- a/src/core/sim.src/uccl.h
+++ b/src/core/sim.src/uccl.h
@@ -243,7 +243,7 @@ public:
   cl_exec_hist(class cl_uc *auc);
   virtual ~cl_exec_hist(void);
   virtual int init(void);
-  virtual void put(void);
+  virtual void put(t_addr pc);
   virtual void list(class cl_console_base *con, bool inc, int nr);
   virtual void clear() { keep(0); }
   virtual void keep(int nr);
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index cdab683..93fd1b9 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1707,10 +1707,16 @@ cl_51core::do_inst(void)
       pre_inst();
       PCsave= PC;
       result= exec_inst();
+      if (result == resBREAKPOINT)
+	/* stopped before execution */
+	vc.inst--;
+      else
+	hist->put(PCsave);
       post_inst();
     }
   else
     {
+      hist->put(PC);
       // tick hw in idle state
       tick(1);
     }
-- 
2.43.0


From 4d03a76f19d601559044fee18170a64b35e33e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 032/256] fix: event breakpoints: temporary ones are deleted
 when accepted, console accesses are not counted as hits

---
 src/core/sim.src/mem.cc |  4 ++--
 src/core/sim.src/uc.cc  | 14 ++++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 2f0c25a..de1792a 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -907,7 +907,7 @@ cl_write_operator::cl_write_operator(class cl_memory_cell *acell,
 t_mem
 cl_write_operator::write(t_mem val)
 {
-  if (bp->do_hit())
+  if (uc->inst_exec && bp->do_hit())
     uc->events->add(bp);
   /*if (cell)
     return(cell->set(val));*/
@@ -929,7 +929,7 @@ cl_read_operator::cl_read_operator(class cl_memory_cell *acell,
 t_mem
 cl_read_operator::read(void)
 {
-  if (bp->do_hit())
+  if (uc->inst_exec && bp->do_hit())
     uc->events->add(bp);
   if (cell)
     return(cell->get());
diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1106a30..67dbbb9 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3865,6 +3865,20 @@ cl_uc::check_events(void)
 	(class cl_ev_brk *)(events->object_at(i));
       brk->breaking();
     }
+  for (i= 0; i < events->count; i++)
+    {
+      class cl_brk *brk= (class cl_brk *)(events->object_at(i));
+      int idx;
+      // a command of a breakpoint may have deleted it already
+      for (idx= 0; idx < ebrk->count; idx++)
+	if (ebrk->at(idx) == brk)
+	  {
+	    if (brk->perm == brkDYNAMIC)
+	      ebrk->del_bp(idx, 0);
+	    break;
+	  }
+    }
+  events->disconn_all();
 }
 
 void
-- 
2.43.0


From f8543b6d6280029d515f6fae1c6ff97d69cac858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:33 +0000
Subject: [PATCH 033/256] fix: m6809: store instructions and JSR do not read
 the memory they address

---
 src/sims/m6809.src/m6809.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b2796ed..32ee9be 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1159,6 +1159,8 @@ cl_m6809::inst_alu(t_mem code)
     return resINV_INST;
   
   acc= (code & 0x40)? (&B) : (&A);
+  // ST and JSR do not read the addressed memory
+  bool store= ((code & 0x0f) == 0x07) || ((code & 0x0f) == 0x0d) || ((code & 0x0f) == 0x0f);
 
   switch (code & 0x30)
     {
@@ -1170,9 +1172,10 @@ cl_m6809::inst_alu(t_mem code)
     case 0x10: // direct
       ea= reg.DP*256 + fetch();
       tick(2);
-      op8= rom->read(ea);
+      op8= 0;
+      if (!store)
+	op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     case 0x20: // index
       {
@@ -1181,17 +1184,19 @@ cl_m6809::inst_alu(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
+	op8= 0;
+	if (!store)
+	  op8= rom->read(ea), vc.rd++;
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x30: // extend
       ea= fetch()*256 + fetch();
       tick(3);
-      op8= rom->read(ea);
+      op8= 0;
+      if (!store)
+	op8= rom->read(ea), vc.rd++;
       tick(1);
-      vc.rd++;
       break;
     default: op8= 0; break;
     }
-- 
2.43.0


From 9118dec09b375cee022b4be29f9cb25e7199631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 034/256] fix: event breakpoints: evaluating the condition of a
 breakpoint is not an access by the program

---
 src/core/sim.src/brk.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/sim.src/brk.cc b/src/core/sim.src/brk.cc
index bac95d9..4daa4da 100644
--- a/src/core/sim.src/brk.cc
+++ b/src/core/sim.src/brk.cc
@@ -80,7 +80,11 @@ cl_brk::condition(void)
   if (cond.empty())
     return true;
   long l;
+  class cl_uc *uc= application->get_uc();
+  bool ie= uc?(uc->inst_exec):false;
+  if (uc) uc->inst_exec= false;
   l= application->eval(cond);
+  if (uc) uc->inst_exec= ie;
   //fprintf(stderr,"BP[%d]EVAL: %s =%ld\n", nr, cond.c_str(), l);
   return l!=0;
 }
-- 
2.43.0


From 394344110efc6772a6f138e33ee10c7ee6371405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 035/256] fix: next: subroutine calls that were missing from
 the table are recognised as calls

---
 src/sims/avr.src/glob.cc     |  4 ++--
 src/sims/f8.src/glob.cc      |  4 ++--
 src/sims/i8085.src/glob.cc   | 26 +++++++++++++-------------
 src/sims/m6809.src/glob.cc   |  8 ++++----
 src/sims/m68hc08.src/glob.cc |  2 +-
 src/sims/pdk.src/glob.cc     | 10 +++++-----
 src/sims/s51.src/glob.cc     |  2 +-
 7 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/sims/avr.src/glob.cc b/src/sims/avr.src/glob.cc
index 94226d5..7bca1e6 100644
--- a/src/sims/avr.src/glob.cc
+++ b/src/sims/avr.src/glob.cc
@@ -87,7 +87,7 @@ struct dis_entry disass_avr[]= {
   { 0x1000, 0xfc00, ' ', 1, "cpse %d,%r" },
   { 0x940a, 0xfe0f, ' ', 1, "dec %d" },
   { 0x2400, 0xfc00, ' ', 1, "eor %d,%r" },
-  { 0x9509, 0xff0f, ' ', 1, "icall" },
+  { 0x9509, 0xff0f, ' ', 1, "icall", true },
   { 0x9409, 0xff0f, ' ', 1, "ijmp" },
   { 0xb000, 0xf800, ' ', 1, "in %d,%p" },
   { 0x9403, 0xfe0f, ' ', 1, "inc %d" },
@@ -116,7 +116,7 @@ struct dis_entry disass_avr[]= {
   { 0xb800, 0xf800, ' ', 1, "out %p,%d" },
   { 0x900f, 0xfe0f, ' ', 1, "pop %d" },
   { 0x920f, 0xfe0f, ' ', 1, "push %d" },
-  { 0xd000, 0xf000, ' ', 1, "rcall %a" },
+  { 0xd000, 0xf000, ' ', 1, "rcall %a", true },
   { 0x9508, 0xff9f, ' ', 1, "ret" },
   { 0x9518, 0xff9f, ' ', 1, "reti" },
   { 0xc000, 0xf000, ' ', 1, "rjmp %a" },
diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 838a343..b85a098 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -312,8 +312,8 @@ struct dis_entry disass_f8[]=
     // branch
     { 0x64, 0xff, ' ', 3, "jp #'a16'" },
     { 0x65, 0xff, ' ', 1, "jp %A" },
-    { 0x66, 0xff, ' ', 3, "call #'a16'" },
-    { 0x67, 0xff, ' ', 1, "call %A" },
+    { 0x66, 0xff, ' ', 3, "call #'a16'", true },
+    { 0x67, 0xff, ' ', 1, "call %A", true },
     { 0xba, 0xff, ' ', 1, "ret" },
     { 0xbb, 0xff, ' ', 1, "reti" },
 
diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 4ff1fb2..3f576c8 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -98,15 +98,15 @@ struct dis_entry disass_common[]=
     { 0xf2, 0xff, ' ', 3, "JP 'a16'" },
     { 0xfa, 0xff, ' ', 3, "JM 'a16'" },
     
-    { 0xcd, 0xff, ' ', 3, "CALL 'a16'" },
-    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'" },
-    { 0xcc, 0xff, ' ', 3, "CZ 'a16'" },
-    { 0xd4, 0xff, ' ', 3, "CNC 'a16'" },
-    { 0xdc, 0xff, ' ', 3, "CC 'a16'" },
-    { 0xe4, 0xff, ' ', 3, "CPO 'a16'" },
-    { 0xec, 0xff, ' ', 3, "CPE 'a16'" },
-    { 0xf4, 0xff, ' ', 3, "CP 'a16'" },
-    { 0xfc, 0xff, ' ', 3, "CM 'a16'" },
+    { 0xcd, 0xff, ' ', 3, "CALL 'a16'", true },
+    { 0xc4, 0xff, ' ', 3, "CNZ 'a16'", true },
+    { 0xcc, 0xff, ' ', 3, "CZ 'a16'", true },
+    { 0xd4, 0xff, ' ', 3, "CNC 'a16'", true },
+    { 0xdc, 0xff, ' ', 3, "CC 'a16'", true },
+    { 0xe4, 0xff, ' ', 3, "CPO 'a16'", true },
+    { 0xec, 0xff, ' ', 3, "CPE 'a16'", true },
+    { 0xf4, 0xff, ' ', 3, "CP 'a16'", true },
+    { 0xfc, 0xff, ' ', 3, "CM 'a16'", true },
     
     { 0xc9, 0xff, ' ', 1, "RET" },
     { 0xc0, 0xff, ' ', 1, "RNZ" },
@@ -118,7 +118,7 @@ struct dis_entry disass_common[]=
     { 0xf0, 0xff, ' ', 1, "RP" },
     { 0xf8, 0xff, ' ', 1, "RM" },
 
-    { 0xc7, 0xc7, ' ', 1, "RST 'rst'" },
+    { 0xc7, 0xc7, ' ', 1, "RST 'rst'", true },
     { 0xe9, 0xff, ' ', 1, "PCHL" },
 
     { 0, 0, 0, 0, 0, 0 }
@@ -135,9 +135,9 @@ struct dis_entry disass_8080[]=
     { 0x38, 0xff, ' ', 1, "*NOP" },
     { 0xd9, 0xff, ' ', 1, "*RET" },
     { 0xcb, 0xff, ' ', 3, "*JMP 'a16'" },
-    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xed, 0xff, ' ', 3, "*CALL 'a16'" },
-    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'" },
+    { 0xdd, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xed, 0xff, ' ', 3, "*CALL 'a16'", true },
+    { 0xfd, 0xff, ' ', 3, "*CALL 'a16'", true },
     { 0, 0, 0, 0, 0, 0 }
   };
 
diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index abb452e..481973f 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -78,12 +78,12 @@ struct dis_entry disass_m6809[]=
    { 0x2e, 0xff, 'b', 1, "BGT %b"	, 0, 0 },
    { 0x2f, 0xff, 'b', 1, "BLE %b"	, 0, 0 },
 
-   { 0x8d, 0xff, 's', 1, "BSR %b"	, 0, 0 },
-   { 0xbd, 0xff, 's', 1, "JSR %j"	, 0, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, 0, 0 },
+   { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
+   { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
-   { 0x17, 0xff, ' ', 1, "LBSR %B"	, 0, 0 },
+   { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
 
    { 0x30, 0xff, ' ', 1, "LEAX %X"	, 0, 0 },
    { 0x31, 0xff, ' ', 1, "LEAY %X"	, 0, 0 },
diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 0675b2c..4804935 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -393,7 +393,7 @@ struct dis_entry disass_hc08_9e[]= {
 
 
 struct dis_entry disass_9s08[]= {
-  { 0x00ac, 0x00ff, ' ', 4, "call %C" },
+  { 0x00ac, 0x00ff, ' ', 4, "call %C", true },
   { 0x008d, 0x00ff, ' ', 1, "rtc" },
   
   { 0, 0, 0, 0, NULL }
diff --git a/src/sims/pdk.src/glob.cc b/src/sims/pdk.src/glob.cc
index 459d301..07f761e 100644
--- a/src/sims/pdk.src/glob.cc
+++ b/src/sims/pdk.src/glob.cc
@@ -123,7 +123,7 @@ struct dis_entry disass_pdk_13[]= {
   { 0x0013, ~0x0000, ' ', 1, "dzsn" },
   { 0x08C0, ~0x003F, ' ', 1, "dzsn %m" },
 
-  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'" },
+  { 0x1C00, ~0x03FF, ' ', 1, "call 'a10'", true },
   { 0x1800, ~0x03FF, ' ', 1, "goto 'a10'" },
 
   { 0x001E, ~0x0000, ' ', 1, "swap" },
@@ -223,7 +223,7 @@ struct dis_entry disass_pdk_14[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x1180, ~0x007F, ' ', 1, "dzsn %m" },
 
-  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'" },
+  { 0x3800, ~0x07FF, ' ', 1, "call 'a11'", true },
   { 0x3000, ~0x07FF, ' ', 1, "goto 'a11'" },
 
   { 0x0600, ~0x007F, ' ', 1, "comp a,%m" },
@@ -329,7 +329,7 @@ struct dis_entry disass_pdk_15[]= {
   { 0x0063, ~0x0000, ' ', 1, "dzsn" },
   { 0x2300, ~0x00FF, ' ', 1, "dzsn %m" },
 
-  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'" },
+  { 0x7000, ~0x0FFF, ' ', 1, "call 'A12'", true },
   { 0x6000, ~0x0FFF, ' ', 1, "goto 'A12'" },
 
   { 0x0C00, ~0x00FF, ' ', 1, "comp a,%m" },
@@ -463,7 +463,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x2a00, 0xfe00, ' ', 1, "wait0 %i,'n6'" },
   { 0x2c00, 0xfe00, ' ', 1, "wait1 %i,'n6'" },
   { 0x0600, 0xfe01, ' ', 1, "igoto %m" },
-  { 0x0601, 0xfe01, ' ', 1, "icall %m" },
+  { 0x0601, 0xfe01, ' ', 1, "icall %m", true },
   { 0x7e00, 0xfe00, ' ', 1, "delay %m" },
 
   { 0xa000, 0xf000, ' ', 1, "set0 %m,'n9'" },
@@ -471,7 +471,7 @@ struct dis_entry disass_pdk_16[]= {
   { 0x8000, 0xf000, ' ', 1, "t0sn %m,'n9'" },
   { 0x9000, 0xf000, ' ', 1, "t1sn %m,'n9'" },
 
-  { 0xe000, 0xe000, ' ', 1, "call 'a13'" },
+  { 0xe000, 0xe000, ' ', 1, "call 'a13'", true },
   { 0xc000, 0xe000, ' ', 1, "goto 'a13'" },
 
   { 0, 0, 0, 0, NULL }
diff --git a/src/sims/s51.src/glob.cc b/src/sims/s51.src/glob.cc
index 25a02a6..9a3307a 100644
--- a/src/sims/s51.src/glob.cc
+++ b/src/sims/s51.src/glob.cc
@@ -54,7 +54,7 @@ struct dis_entry disass_51[]= {
   { 0x0e, 0xff, ' ', 1, "INC R6"},
   { 0x0f, 0xff, ' ', 1, "INC R7"},
   { 0x10, 0xff, 'R', 3, "JBC %b,%R"},
-  { 0x11, 0xff, 'a', 2, "ACALL %A"},
+  { 0x11, 0xff, 'a', 2, "ACALL %A", true},
   { 0x12, 0xff, 'l', 3, "LCALL %l", true},
   { 0x13, 0xff, ' ', 1, "RRC A"},
   { 0x14, 0xff, ' ', 1, "DEC A"},
-- 
2.43.0


From 3c1533f6464b716bb40968b2159866a90592436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 036/256] fix: event breakpoints: what is read to report a stop
 is not an access by the program

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 67dbbb9..72d7229 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3402,9 +3402,9 @@ cl_uc::post_inst(void)
   tick_hw(inst_ticks);
   if (errors->count)
     check_errors();
+  inst_exec= false;
   if (events->count)
     check_events();
-  inst_exec= false;
 }
 
 void
-- 
2.43.0


From 1d7ed8d01f287c273934630d6775f6e21d40b1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 037/256] fix: breakpoint inside of an instruction (on a
 prefix, opcode extension or operand byte) does not disturb its execution

---
 src/core/sim.src/uc.cc   | 1 +
 src/sims/s51.src/uc51.cc | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 72d7229..1e9d971 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3226,6 +3226,7 @@ cl_uc::do_brk(void)
 
   if ((sim->state & SIM_GO) &&
       rom &&
+      (PC == instPC) &&
       (sim->steps_done > 0))
     {
       if (vcd_break)
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 93fd1b9..15f0149 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1705,7 +1705,7 @@ cl_51core::do_inst(void)
     {
       interrupt->was_reti= false;
       pre_inst();
-      PCsave= PC;
+      instPC= PCsave= PC;
       result= exec_inst();
       if (result == resBREAKPOINT)
 	/* stopped before execution */
-- 
2.43.0


From 99bd0ef99126af421b5a0fbd67fe985b809ea5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 038/256] fix: timer: deleting a timer by its number frees that
 timer

---
 src/core/sim.src/uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 1e9d971..fe0d5f3 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -3168,7 +3168,7 @@ cl_uc::del_counter(int nr)
 
   if (nr >= counters->count)
     return;
-  if ((t= (class cl_ticker *)(counters->at(0))) != 0)
+  if ((t= (class cl_ticker *)(counters->at(nr))) != 0)
     delete t;
   counters->put_at(nr, 0);
 }
-- 
2.43.0


From c6e73fb92b90a3ffcd7ccd8391447856f2b7cb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 039/256] fix: timer: the time of a new timer starts from zero

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index fe0d5f3..9f1a435 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -73,6 +73,7 @@ cl_ticker::cl_ticker(int adir, enum ticker_type atype, const char *aname, bool a
   dir= adir;
   type= atype;
   ticks= 0;
+  rtime= 0;
   run = true;
   set_name(aname);
   user= auser;
-- 
2.43.0


From 3f22ffea4c418ec0de46bb77beb71ca4e7a61bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:06 +0000
Subject: [PATCH 040/256] fix: timer: a named timer is shown with its own
 number

---
 src/core/cmd.src/cmd_timer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/cmd.src/cmd_timer.cc b/src/core/cmd.src/cmd_timer.cc
index 185f9da..7b859ca 100644
--- a/src/core/cmd.src/cmd_timer.cc
+++ b/src/core/cmd.src/cmd_timer.cc
@@ -85,6 +85,7 @@ COMMAND_DO_WORK_UC(cl_timer_cmd)
       as_nr= false;
       id_str= params[0]->s_value;
       ticker= uc->get_counter(id_str);
+      id_nr= ticker ? uc->counters->index_of(ticker) : 0;
     }
   cmdline->shift();
   return(false);
-- 
2.43.0


From 7b5b5756630545363b16327923f00c02fe1b9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 041/256] fix: step: the limit of a step in clocks or time ends
 when the simulation stops

---
 src/core/sim.src/sim.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index f40ffb3..48e0493 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -229,6 +229,8 @@ cl_sim::stop(int reason)
 
   state&= ~(SIM_GO|SIM_EMU);
   stop_at= dnow();
+  if (uc)
+    uc->stop_when(NULL);
   if (simif)
     simif->cfg_set(simif_reason, reason);
 
-- 
2.43.0


From b9281009fd3dca477b7dd4d6e3e688ea6470c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 042/256] fix: state: memory read by LDS of the AVR is counted

---
 src/sims/avr.src/move_inst.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index cfd46fa..a3489c9 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -215,6 +215,7 @@ cl_avr::lds_Rd_k(t_mem code)
   k= fetch();
   t_mem data= ram->read(k);
   ram->write(d, data);
+  vc.rd++;
   tick(2);
   return(resGO);
 }
-- 
2.43.0


From 46ff2887da458009eb58c7bc073d3e10d2d5d67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 043/256] fix: breakpoint: no clock passes when a breakpoint
 stops before an instruction

---
 src/sims/i8085.src/i8080.cc | 4 +++-
 src/sims/m6809.src/m6809.cc | 2 +-
 src/sims/p1516.src/p1516.cc | 2 +-
 src/sims/p1516.src/p2223.cc | 2 +-
 src/sims/s51.src/uc320.cc   | 2 +-
 5 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 7d39cef..ef74918 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -467,7 +467,9 @@ cl_i8080::exec_inst(void)
   u16_t *ttab= tick_tab();
 
   tick_shift= 0;
-  if ((res= exec_inst_tab(itab)) != resNOT_DONE)
+  if ((res= exec_inst_tab(itab)) == resBREAKPOINT)
+    return res;
+  if (res != resNOT_DONE)
     {
       u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 32ee9be..b9a6d37 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2375,9 +2375,9 @@ cl_m6809::exec_inst(void)
   bool fe;
 
   fe= fetch(&code);
-  tick(1);
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (code & 0x80)
     return inst_alu(code);
diff --git a/src/sims/p1516.src/p1516.cc b/src/sims/p1516.src/p1516.cc
index 09cc13d..1758595 100644
--- a/src/sims/p1516.src/p1516.cc
+++ b/src/sims/p1516.src/p1516.cc
@@ -561,10 +561,10 @@ cl_p1516::exec_inst(void)
   PC= R[15];
   instPC= PC;
   fe= fetch(&code);
-  tick(1);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(1);
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/p1516.src/p2223.cc b/src/sims/p1516.src/p2223.cc
index edd4024..7b44332 100644
--- a/src/sims/p1516.src/p2223.cc
+++ b/src/sims/p1516.src/p2223.cc
@@ -909,10 +909,10 @@ CLP2::exec_inst(void)
   instPC= PC;
   fe= fetch(&code);
   //if (dbg_reg) fprintf(stderr, "F: %08x %08x %08x\n", instPC, code, F);
-  tick(4);
   R[15]= PC;
   if (fe)
     return(resBREAKPOINT);
+  tick(4);
 
   if (!cond(code))
     return resGO;
diff --git a/src/sims/s51.src/uc320.cc b/src/sims/s51.src/uc320.cc
index c4518d0..d0ab198 100644
--- a/src/sims/s51.src/uc320.cc
+++ b/src/sims/s51.src/uc320.cc
@@ -223,7 +223,7 @@ cl_uc320::exec_inst(void)
   code= rom->read(PC);
   res= cl_uc521::exec_inst();
 
-  if (res != resNOT_DONE)
+  if ((res != resNOT_DONE) && (res != resBREAKPOINT))
     tick(uc320_timing[code] - pending_ticks);
 
   return(res);
-- 
2.43.0


From 5a3be7387e7f76588d8658fe7c500da6cc7aef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:31 +0000
Subject: [PATCH 044/256] fix: breakpoint: OISC and MISC16 stop at fetch
 breakpoints

---
 src/sims/oisc.src/misc16.cc | 23 +++++++++++------------
 src/sims/oisc.src/oisc.cc   | 23 +++++++++++------------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 6a1f9b4..5024ddf 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -254,18 +254,17 @@ cl_misc16::write(u16_t addr, u16_t val)
 int
 cl_misc16::exec_inst(void)
 {
-  bool ret= do_brk();
-  if (!ret)
-    {
-      u16_t src= rom->read(PC);
-      u16_t dst= rom->read((PC+1) & 0xffff);
-      u16_t tmp= rom->read(src);
-      PC+= 2;
-      PC&= 0xffff;
-      rom->write(dst, tmp);
-      tick(4);
-    }
-  return ret;
+  if (do_brk())
+    return resBREAKPOINT;
+
+  u16_t src= rom->read(PC);
+  u16_t dst= rom->read((PC+1) & 0xffff);
+  u16_t tmp= rom->read(src);
+  PC+= 2;
+  PC&= 0xffff;
+  rom->write(dst, tmp);
+  tick(4);
+  return resGO;
 }
 */
 
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 17ea62b..30b2e51 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -245,18 +245,17 @@ cl_oisc::reset(void)
 int
 cl_oisc::exec_inst(void)
 {
-  bool ret= do_brk();
-  if (!ret)
-    {
-      u16_t src= rom->read(PC);
-      u16_t dst= rom->read((PC+1) & 0xffff);
-      u16_t tmp= rom->read(src);
-      PC+= 2;
-      PC&= 0xffff;
-      rom->write(dst, tmp);
-      tick(4);
-    }
-  return ret;
+  if (do_brk())
+    return resBREAKPOINT;
+
+  u16_t src= rom->read(PC);
+  u16_t dst= rom->read((PC+1) & 0xffff);
+  u16_t tmp= rom->read(src);
+  PC+= 2;
+  PC&= 0xffff;
+  rom->write(dst, tmp);
+  tick(4);
+  return resGO;
 }
 
 
-- 
2.43.0


From 3ae1d88fc3e5bb2a66d95147c27aa22a271487b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 045/256] fix: m6809: read-modify-write instructions read their
 operand once, JMP does not read it

---
 src/sims/m6809.src/m6809.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index b9a6d37..383d46f 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2074,9 +2074,7 @@ cl_m6809::inst_low(t_mem code)
     {
     case 0x00: // direct
       ea= reg.DP*256 + fetch();
-      op8= rom->read(ea);
       tick(2);
-      vc.rd++;
       break;
     case 0x60: // index
       {
@@ -2085,16 +2083,12 @@ cl_m6809::inst_low(t_mem code)
 	tick(1);
 	if ((r= index2ea(idx, &ea)) != resGO)
 	  return r;
-	op8= rom->read(ea);
 	tick(1);
-	vc.rd++;
 	break;
       }
     case 0x70: // extend
       ea= fetch()*256 + fetch();
-      op8= rom->read(ea);
       tick(3);
-      vc.rd++;
       break;
     }
 
-- 
2.43.0


From 9a45a5217a40b494c04e77741045ac7f06ff5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:19 +0000
Subject: [PATCH 046/256] fix: xa: the simulator knows its CPU type and starts

---
 src/sims/xa.src/sxa.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/xa.src/sxa.cc b/src/sims/xa.src/sxa.cc
index 7ec770f..90baed0 100644
--- a/src/sims/xa.src/sxa.cc
+++ b/src/sims/xa.src/sxa.cc
@@ -43,6 +43,7 @@ main(int argc, char *argv[])
   class cl_sim *sim;
 
   app_start_at= dnow();
+  cpus= cpus_xa;
   application= new cl_app();
   application->set_name("sxa");
   application->init(argc, argv);
-- 
2.43.0


From 139ca9c121148fb9ac21d47de824b0364ba7f43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 047/256] fix: hc11: IDIV and FDIV divide by X, not by the new
 quotient

---
 src/core/motorola.src/m68hc11.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index b6b7e1f..e85f3c1 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -646,14 +646,16 @@ CL11::IDIV(t_mem code)
   if (rX == 0)
     {
       q= 0xffff;
-      r= rX;
+      r= rD;
       f|= flagC;
     }
   else
     {
-      cX.W(q= rD/rX);
-      cD.W(r= rD%rX);
+      q= rD/rX;
+      r= rD%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
@@ -663,21 +665,28 @@ CL11::IDIV(t_mem code)
 int
 CL11::FDIV(t_mem code)
 {
-  u32_t n= rD << 16;
+  u32_t n= (u32_t)rD << 16;
   u16_t q, r;
   u8_t f= rF & ~(flagZ|flagV|flagC);
   if( rX <= rD) f|= flagV;
   if (rX == 0)
     {
       q= 0xffff;
-      r= rX;
+      r= rD;
       f|= flagC;
     }
+  else if (rX <= rD)
+    {
+      q= 0xffff;
+      r= rD;
+    }
   else
     {
-      cX.W(q= n/rX);
-      cD.W(r= n%rX);
+      q= n/rX;
+      r= n%rX;
     }
+  cX.W(q);
+  cD.W(r);
   if (!q) f|= flagZ;
   cF.W(f);
   return resGO;
-- 
2.43.0


From 54eda11aae7e55ed64156da3790931303a7c8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:48 +0000
Subject: [PATCH 048/256] fix: hc12: EDIVS of 0x80000000 by -1 overflows
 instead of killing the simulator

---
 src/sims/m68hc12.src/ialu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/ialu.cc b/src/sims/m68hc12.src/ialu.cc
index da3c91e..c319bf0 100644
--- a/src/sims/m68hc12.src/ialu.cc
+++ b/src/sims/m68hc12.src/ialu.cc
@@ -309,7 +309,7 @@ CL12::emuls(void)
 int
 CL12::edivs(void)
 {
-  i32_t op1= (rY<<16)+rD, q;
+  i64_t op1= (i32_t)((((u32_t)rY)<<16)+rD), q;
   i16_t r;
   u8_t f= rF&~(flagN|flagZ|flagV|flagC);
   if (rX != 0)
-- 
2.43.0


From 137305801b2fc9774ef15086c197a922eea9212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 049/256] fix: mos6502: an unknown code is 1 byte long, listing
 it does not hang

---
 src/sims/mos6502.src/mos6502.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 78910b8..00e62c0 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -674,8 +674,8 @@ int
 cl_mos6502::inst_length(t_addr addr)
 {
   struct dis_entry *de= get_dis_entry(addr);
-  if (!de)
-    return 0;
+  if (!de || !de->mnemonic)
+    return 1;
   return de->length;
 }
 
-- 
2.43.0


From 52c86fc2d0d3eaf43eeabafc200f5c4f371b27e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 050/256] fix: serial: all state of the serial line is
 initialised

---
 src/core/sim.src/serial_hw.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/sim.src/serial_hw.cc b/src/core/sim.src/serial_hw.cc
index cfe318e..5b528f9 100644
--- a/src/core/sim.src/serial_hw.cc
+++ b/src/core/sim.src/serial_hw.cc
@@ -86,6 +86,14 @@ cl_serial_hw::init(void)
 
   mcnt= 0;
   cpb= 1;
+
+  input= 0;
+  menu= 0;
+  s_in= 0;
+  s_out= 0;
+  s_txd= 0;
+  ren= false;
+  ten= false;
   
   cs.format("serial%d_in_file", id);
   serial_in_file_option= new cl_optref(this, cs.c_str());
-- 
2.43.0


From 5697b3d98edc9123a5631e7a872c7dc0862c0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 051/256] fix: conf: the CPU type of avr, st7, xa and pdk has
 no uninitialised parts

---
 src/sims/avr.src/avr.cc   | 2 +-
 src/sims/pdk.src/pdk13.cc | 2 +-
 src/sims/pdk.src/pdk14.cc | 2 +-
 src/sims/pdk.src/pdk15.cc | 2 +-
 src/sims/pdk.src/pdk16.cc | 2 +-
 src/sims/st7.src/st7.cc   | 2 +-
 src/sims/xa.src/xa.cc     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 5eb6a9d..9cb6749 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -121,7 +121,7 @@ static struct name_entry sfr_tabl[]= {
 cl_avr::cl_avr(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_AVR;
   sleep_executed= 0;
 }
diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index a896d50..5d654d1 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp13::cl_fpp13(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK13;
 }
 
diff --git a/src/sims/pdk.src/pdk14.cc b/src/sims/pdk.src/pdk14.cc
index 7ec811c..5adf55e 100644
--- a/src/sims/pdk.src/pdk14.cc
+++ b/src/sims/pdk.src/pdk14.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp14::cl_fpp14(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp13(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK14;
 }
 
diff --git a/src/sims/pdk.src/pdk15.cc b/src/sims/pdk.src/pdk15.cc
index 4bfa185..0511d20 100644
--- a/src/sims/pdk.src/pdk15.cc
+++ b/src/sims/pdk.src/pdk15.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp15::cl_fpp15(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp14(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK15;
 }
 
diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index ccaa93b..1fb9f76 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -38,7 +38,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_fpp16::cl_fpp16(int aid, class cl_pdk *the_puc, class cl_sim *asim):
   cl_fpp15(aid, the_puc, asim)
 {
-  type= (struct cpu_entry*)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry*)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_PDK16;
 }
 
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e211641..7b4f4d0 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -61,7 +61,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 cl_st7::cl_st7(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_ST7;
 }
 
diff --git a/src/sims/xa.src/xa.cc b/src/sims/xa.src/xa.cc
index c14dd40..9639c5c 100644
--- a/src/sims/xa.src/xa.cc
+++ b/src/sims/xa.src/xa.cc
@@ -231,7 +231,7 @@ static struct name_entry bit_tabXA51[]=
 cl_xa::cl_xa(class cl_sim *asim):
   cl_uc(asim)
 {
-  type= (struct cpu_entry *)malloc(sizeof(struct cpu_entry));
+  type= (struct cpu_entry *)calloc(1, sizeof(struct cpu_entry));
   type->type= CPU_XA;
 }
 
-- 
2.43.0


From 0114db1d148246620e662e65a2a89d81c65a4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:49 +0000
Subject: [PATCH 052/256] fix: step: sim_reason tells why the last instruction
 stopped

---
 src/core/sim.src/sim.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/sim.cc b/src/core/sim.src/sim.cc
index 48e0493..7f31762 100644
--- a/src/core/sim.src/sim.cc
+++ b/src/core/sim.src/sim.cc
@@ -134,7 +134,8 @@ cl_sim::step(void)
 	    stop(res);
 	}
       
-      if ((steps_todo > 0) &&
+      if ((state & SIM_GO) &&
+	  (steps_todo > 0) &&
 	  (steps_done >= steps_todo))
 	stop(resSTEP);
       
-- 
2.43.0


From e422c8ed97774338ef38b1f9db1606b4292636d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 053/256] fix: disassembly and register listings look at the
 memory without reading it

---
 src/core/motorola.src/m6800.cc    |  20 +++---
 src/core/motorola.src/m68hc11.cc  |  18 ++---
 src/core/motorola.src/pia.cc      |   4 +-
 src/sims/f8.src/disass.cc         |  34 ++++-----
 src/sims/f8.src/f8.cc             |   2 +-
 src/sims/i8048.src/i8020.cc       |  10 +--
 src/sims/i8048.src/i8048.cc       |   2 +-
 src/sims/i8085.src/i8080.cc       |  24 +++----
 src/sims/i8085.src/i8085.cc       |   4 +-
 src/sims/m68hc12.src/dis.cc       | 116 +++++++++++++++---------------
 src/sims/m68hc12.src/m68hc12.cc   |   8 +--
 src/sims/mos6502.src/huc6280.cc   |   2 +-
 src/sims/mos6502.src/mos6502.cc   |  90 +++++++++++------------
 src/sims/mos6502.src/mos65ce02.cc |   2 +-
 src/sims/oisc.src/em.cc           |   2 +-
 src/sims/oisc.src/misc16.cc       |   6 +-
 src/sims/oisc.src/oisc.cc         |   8 +--
 src/sims/oisc.src/urisc.cc        |   2 +-
 src/sims/rxk.src/r3ka.cc          |  10 +--
 src/sims/rxk.src/r4k.cc           |  16 ++---
 src/sims/rxk.src/r6k.cc           |   6 +-
 src/sims/rxk.src/rxk.cc           |  58 +++++++--------
 src/sims/s51.src/uc51.cc          |   8 +--
 src/sims/stm8.src/stm8.cc         |   4 +-
 src/sims/tlcs.src/t870c.cc        |  28 ++++----
 src/sims/tlcs.src/t870c1.cc       |  26 +++----
 src/sims/z80.src/ez80.cc          |   8 +--
 src/sims/z80.src/gb80.cc          |  12 ++--
 src/sims/z80.src/r800.cc          |   4 +-
 src/sims/z80.src/z80.cc           |  58 +++++++--------
 30 files changed, 296 insertions(+), 296 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 629d145..4aba681 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -371,7 +371,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
   if (dis_e->mnemonic == NULL)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x18) { addr++; }
   if (code == 0x1a) { addr++; }
   if (code == 0xcd) { addr++; }
@@ -394,40 +394,40 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(++addr);
+	      h= rom->get(++addr);
 	      a= cI->get()+h;
 	      work.appendf("$%02x,%s", h, cI->name.c_str());
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(++addr);
-	      l= rom->read(++addr);
+	      h= rom->get(++addr);
+	      l= rom->get(++addr);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(++addr);
+	      h= a= rom->get(++addr);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(++addr));
+			   rom->get(++addr));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -435,7 +435,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      addr++;
 	      break;
 	    }
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index e85f3c1..0dd87d4 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -352,40 +352,40 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -393,7 +393,7 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    }
 	  //work+= temp;
diff --git a/src/core/motorola.src/pia.cc b/src/core/motorola.src/pia.cc
index e015490..62b0d3e 100644
--- a/src/core/motorola.src/pia.cc
+++ b/src/core/motorola.src/pia.cc
@@ -623,8 +623,8 @@ cl_pia::set_help(class cl_console_base *con)
 void
 cl_pia::print_info(class cl_console_base *con)
 {
-  u8_t ca= cra->read();
-  u8_t cb= crb->read();
+  u8_t ca= cra->get();
+  u8_t cb= crb->get();
   con->dd_printf("%s[%d] at 0x%06x %s\n", id_string, id, base, on?"on ":"off");
   con->dd_printf("0x%04x ", base+0);
   if (ca & 4)
diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 638c336..1bbb1a4 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -167,7 +167,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
   u16_t a, nn;
   i16_t d;
   
-  code= rom->read(addr);
+  code= rom->get(addr);
   while (code == PREF_SWAPOP || code == PREF_ALT1 || code == PREF_ALT2 || code == PREF_ALT3 || code == PREF_ALT4 || code == PREF_ALT5)
     {
       switch (code) {
@@ -190,7 +190,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
         prefs = P_ALT5;
         break;
       }
-      code= rom->read(++addr);
+      code= rom->get(++addr);
     }
   de= get_dis_entry(addr);
   //code= rom->read(addr);
@@ -225,7 +225,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    word->append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      word->appendf("0x%02x", rom->read(addr+1));
+	      word->appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -240,7 +240,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -255,21 +255,21 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      if (bc && bc>='0' && bc<='7') b= bc-'0';
 	      a= read_addr(rom, addr+1);
 	      word->appendf("0x%04x", a);
-	      l= rom->read(a);
+	      l= rom->get(a);
 	      h= l&(1<<b);
 	      comment->appendf("; [0x%04x]= 0x%02x.%d=%d", a, l, b, h?1:0);
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nsp_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rSP+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -281,7 +281,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= nn+rZ;
 	      a&= 0xffff;
 	      word->appendf("0x%04x,z", nn);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "nnz_16") == 0)
 	    {
@@ -296,7 +296,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      a= rZ;
 	      a&= 0xffff;
 	      word->appendf("z");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "z_16") == 0)
 	    {
@@ -309,7 +309,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    {
 	      a= rY;
 	      word->appendf("y");
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "y_16") == 0)
 	    {
@@ -319,15 +319,15 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "ny_8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,y", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "ny_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= rY+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,sp", l);
@@ -335,7 +335,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "nA_16") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= a16(prefs)+l;
 	      a&= 0xffff;
 	      word->appendf("0x%02x,%s", l, a16_name(prefs));
@@ -379,13 +379,13 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	      break;
 
 	    case 'd':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      word->appendf("%+d", d);
 	      break;
 
 	    case 'r':
-	      d= rom->read(addr+1);
+	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
 	      a= addr+2+d;
 	      word->appendf("0x%04x", a);
diff --git a/src/sims/f8.src/f8.cc b/src/sims/f8.src/f8.cc
index 44a30df..db33011 100644
--- a/src/sims/f8.src/f8.cc
+++ b/src/sims/f8.src/f8.cc
@@ -168,7 +168,7 @@ cl_f8::print_regs(class cl_console_base *con)
       t_addr al;
       al= (rSP+i)&0xffff;
       con->dd_cprintf("dump_number", " %02x",
-		      (u8_t)(rom->read(al)));
+		      (u8_t)(rom->get(al)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index e985e03..094f73c 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -371,7 +371,7 @@ cl_i8020::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -398,18 +398,18 @@ cl_i8020::disassc(t_addr addr, chars *comment)
 	    work.append("'");
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "a8") == 0)
 	    {
 	      a= addr & 0xf00;
-	      a|= rom->read(addr+1);
+	      a|= rom->get(addr+1);
 	      work.appendf("0x%04x", a);
 	    }
 	  if (strcmp(fmt.c_str(), "a11") == 0)
 	    {
 	      a= (code&0xe0)<<3;
-	      a+= rom->read(addr+1);
+	      a+= rom->get(addr+1);
 	      work.appendf("P.0x%04x", a);
 	      if (A11) a|= 0x800;
 	      temp.format("; %04x", a);
@@ -483,7 +483,7 @@ cl_i8020::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8048.src/i8048.cc b/src/sims/i8048.src/i8048.cc
index ea55699..9b06d49 100644
--- a/src/sims/i8048.src/i8048.cc
+++ b/src/sims/i8048.src/i8048.cc
@@ -325,7 +325,7 @@ cl_i8048::print_regs(class cl_console_base *con)
   stop= psw&7;
   for (i= 7; i>=0; i--)
     {
-      dp= iram->read(start+2*i+1) * 256 + iram->read(start+2*i);
+      dp= iram->get(start+2*i+1) * 256 + iram->get(start+2*i);
       con->dd_cprintf("dump_address", " %x", dp>>12);
       if (i<stop)
 	con->dd_color("dump_address");
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index ef74918..1817604 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -245,7 +245,7 @@ cl_i8080::dis_rp8(chars *comment, int rp)
     }
   if (comment->empty())
     *comment= "; ";
-  comment->appendf("[0x%04x]= 0x%02x", a, rom->read(a));
+  comment->appendf("[0x%04x]= 0x%02x", a, rom->get(a));
 }
 
 void
@@ -276,7 +276,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
   u16_t a;
 
   de= get_dis_entry(addr);
-  code= rom->read(addr);
+  code= rom->get(addr);
   
   if (!de || !de->mnemonic)
     return strdup("-- UNKNOWN/INVALID");
@@ -313,19 +313,19 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("0x%02x", rom->read(addr+1));
+	      work.appendf("0x%02x", rom->get(addr+1));
 	    }
 	  if (strcmp(fmt.c_str(), "hli8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->read(rHL+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rHL+l, rom->get(rHL+l));
 	    }
 	  if (strcmp(fmt.c_str(), "spi8") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
-	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->read(rSP+l));
+	      comment->appendf("; [0x%04x]= 0x%02x", rSP+l, rom->get(rSP+l));
 	    }
 	  if (strcmp(fmt.c_str(), "i16") == 0)
 	    {
@@ -360,7 +360,7 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    {
 	      a= read_addr(rom, addr+1);
 	      work.appendf("0x%04x", a);
-	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->read(a));
+	      comment->appendf("; [0x%04x]= 0x%02x", a, rom->get(a));
 	    }
 	  if (strcmp(fmt.c_str(), "a16_16") == 0)
 	    {
@@ -380,12 +380,12 @@ cl_i8080::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "in") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  if (strcmp(fmt.c_str(), "out") == 0)
 	    {
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("0x%02x", l);
 	    }
 	  continue;
@@ -435,8 +435,8 @@ cl_i8080::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6c63c08..6d1485e 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -178,8 +178,8 @@ cl_i8085::print_regs(class cl_console_base *con)
       al= (rSP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(rom->read(al)),
-		      (u8_t)(rom->read(ah)));
+		      (u8_t)(rom->get(al)),
+		      (u8_t)(rom->get(ah)));
     }
   con->dd_printf("\n");
   
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index d9a207e..c5fcfc7 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -75,7 +75,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
   int i;
   bool first;
 
-  if (rom->read(addr) == 0x04)
+  if (rom->get(addr) == 0x04)
     {
       addr++;
       return disass_loop(&addr, &work, comment);
@@ -87,7 +87,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
     return strdup("-- UNKNOWN/INVALID");
   b= dis_e->mnemonic;
 
-  if (rom->read(addr) == 0x18)
+  if (rom->get(addr) == 0x18)
     addr++;
 
   first= true;
@@ -111,9 +111,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ep") == 0)
 	    {
 	      u8_t h, l, p;
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
-	      p= rom->read(addr+3);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
+	      p= rom->get(addr+3);
 	      work.appendf("$%04x", h*256+l);
 	      work.append(",");
 	      work.appendf("$%02x", p);
@@ -121,11 +121,11 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "ip") == 0)
 	    {
 	      t_addr a= addr+1;
-	      u8_t xb= rom->read(a);
+	      u8_t xb= rom->get(a);
 	      disass_xb(&a, &work, comment, 3);
 	      if (!xb_indirect(xb))
 		{
-		  u8_t p= rom->read(a);
+		  u8_t p= rom->get(a);
 		  work.append(",");
 		  work.appendf("$%02x", p);
 		}
@@ -133,10 +133,10 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "IMID") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, l, xb= rom->read(a);
+	      u8_t h, l, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      work.appendf("#$%04x", h*256+l);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 2, xb_PC(xb)?2:0);
@@ -144,9 +144,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "imid") == 0)
 	    {
 	      t_addr a= (addr+=2);
-	      u8_t h, xb= rom->read(a);
+	      u8_t h, xb= rom->get(a);
 	      addr++;
-	      h= rom->read(addr++);
+	      h= rom->get(addr++);
 	      work.appendf("#$%02x", h);
 	      work.append(", ");
 	      disass_xb(&a, &work, comment, 1, xb_PC(xb)?1:0);
@@ -154,27 +154,27 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "EXID") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%04x",asrc,rom->read(asrc)*256+rom->read(asrc+1));
+	      comment->appendf("; [%04x]=%04x",asrc,rom->get(asrc)*256+rom->get(asrc+1));
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "exid") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), asrc;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      asrc= h*256+l;
 	      work.appendf("$%04x", asrc);
 	      work.append(", ");
-	      comment->appendf("; [%04x]=%02x",asrc,rom->read(asrc));
+	      comment->appendf("; [%04x]=%02x",asrc,rom->get(asrc));
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?2:0);
 	    }
 	  if (strcmp(fmt.c_str(), "IDID") == 0)
@@ -182,8 +182,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 2, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 2, xb_PC(xbdst)?1:0);
@@ -193,8 +193,8 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      t_addr aof_xbsrc= (addr+=2);
 	      t_addr aof_xbdst= (addr+=1);
 	      u8_t xbsrc, xbdst;
-	      xbsrc= rom->read(aof_xbsrc);
-	      xbdst= rom->read(aof_xbdst);
+	      xbsrc= rom->get(aof_xbsrc);
+	      xbdst= rom->get(aof_xbdst);
 	      disass_xb(&aof_xbsrc, &work, comment, 1, xb_PC(xbsrc)?-1:0);
 	      work.append(", ");
 	      disass_xb(&aof_xbdst, &work, comment, 1, xb_PC(xbdst)?1:0);
@@ -210,12 +210,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
-	      u8_t i= rom->read(addr+2);
+	      u8_t i= rom->get(addr+2);
 	      u16_t e= read_addr(rom, addr+3);
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%02x", e, rom->read(e));
+	      comment->appendf("; [%04x]=%02x", e, rom->get(e));
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
@@ -236,16 +236,16 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%02x [%04x]=%02x",
-			       s, rom->read(s),
-			       d, rom->read(d));
+			       s, rom->get(s),
+			       d, rom->get(d));
 	    }
 	  if (strcmp(fmt.c_str(), "IDEX") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
@@ -254,14 +254,14 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
 	      t_addr aof_xb= (addr+=2), adst;
-	      u8_t h, l, xb= rom->read(aof_xb);
+	      u8_t h, l, xb= rom->get(aof_xb);
 	      addr++;
-	      h= rom->read(addr++);
-	      l= rom->read(addr++);
+	      h= rom->get(addr++);
+	      l= rom->get(addr++);
 	      disass_xb(&aof_xb, &work, comment, 1, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%02x", adst, rom->read(adst));
+	      comment->appendf(" [%04x]=%02x", adst, rom->get(adst));
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
@@ -284,40 +284,40 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': case 'X': // indexed
-	      h= rom->read(addr+1);
+	      h= rom->get(addr+1);
 	      a= rX+h;
 	      work.appendf("$%02x,X", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='x')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
-	      h= rom->read(addr+1);
-	      l= rom->read(addr+2);
+	      h= rom->get(addr+1);
+	      l= rom->get(addr+2);
 	      a= h*256 + l;
 	      work.appendf("$%04x", a);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='e')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
-	      h= a= rom->read(addr+1);
+	      h= a= rom->get(addr+1);
 	      work.appendf("$00%02x", h);
 	      //add_spaces(&work, 20);
 	      if (b[i]=='d')
-		temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     read_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
-			   rom->read(addr+1));
+			   rom->get(addr+1));
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -325,13 +325,13 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
-			   (addr+2+(i8_t)(rom->read(addr+1))) & 0xffff );
+			   (addr+2+(i8_t)(rom->get(addr+1))) & 0xffff );
 	      break;
 	    case 'R': // relative 16 bit offset
 	      {
 		u16_t a= addr+4;
-		i16_t r= rom->read(addr+2)*256;
-		r+= rom->read(addr+3);
+		i16_t r= rom->get(addr+2)*256;
+		r+= rom->get(addr+3);
 		a+= r;
 		work.appendf("$%04x", a);
 		break;
@@ -369,7 +369,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
   t_addr aof_xb= *addr;
   u16_t a;
   
-  p= rom->read(aof_xb);
+  p= rom->get(aof_xb);
   (*addr)++;
   
   switch (xb_type(p))
@@ -388,8 +388,8 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
-      h= rom->read(aof_xb+1);
-      l= rom->read(aof_xb+2);
+      h= rom->get(aof_xb+1);
+      l= rom->get(aof_xb+2);
       work->appendf("[$%04x,%s]", h*256+l,rr_names[(p&0x18)>>3]);
       break;
 
@@ -418,14 +418,14 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
       if ((p&0x02) == 0x00)
 	{
 	  // 9 bit
-	  offset= rom->read(aof_xb+1);
+	  offset= rom->get(aof_xb+1);
 	  if (p&0x01) offset|= 0xff00;
 	}
       else
 	{
 	  // 16 bit
-	  h= rom->read(aof_xb+1);
-	  l= rom->read(aof_xb+2);
+	  h= rom->get(aof_xb+1);
+	  l= rom->get(aof_xb+2);
 	  offset= h*256+l;
 	}
       work->appendf("$%+d,%s", offset, rr_names[(p&0x18)>>3]);
@@ -458,7 +458,7 @@ CL12::disass_xb(t_addr *addr, chars *work, chars *comment, int len, int corr, u3
 	comment->appendf("%+d", corr);
       a+= corr;
       comment->appendf("]=$%02x%02x%02x",
-		       rom->read(a), rom->read(a+1), rom->read(a+2));
+		       rom->get(a), rom->get(a+1), rom->get(a+2));
     }
   *addr= aof_xb;
 }
@@ -468,7 +468,7 @@ CL12::disass_b7(t_addr *addr, chars *work, chars *comment)
 {
   bool spec= false;
   (*addr)++;
-  u8_t pb= rom->read(*addr);
+  u8_t pb= rom->get(*addr);
   if (pb & 0x08)
     work->append("TFR/EXG INVALID");
   else
@@ -504,9 +504,9 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
   u8_t code;
   i16_t r;
 
-  code= rom->read(*addr);
+  code= rom->get(*addr);
   *addr= *addr + 1;
-  r= rom->read(*addr);
+  r= rom->get(*addr);
   *addr= *addr + 1;
   if ((code & 0xc0) == 0) work->append("D");
   else if ((code & 0xc0) == 0x40) work->append("T");
@@ -534,7 +534,7 @@ CL12::disass_loop(t_addr *addr, chars *work, chars *comment)
 int
 CL12::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0x04)
     return 3;
   struct dis_entry *di= get_dis_entry(addr);
@@ -544,7 +544,7 @@ CL12::inst_length(t_addr addr)
 	return di->length;
       int l= -(di->length);
       u16_t a= (u16_t)addr+l-1;
-      u8_t p= rom->read(a);
+      u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
 	  &&
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index 76cabca..e0d4a9e 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -680,10 +680,10 @@ void
 cl_hc12_cpu::print_info(class cl_console_base *con)
 {
   con->dd_color("answer");
-  con->dd_printf("PPAGE= $%02x\n", ppage->read());
-  con->dd_printf("DPAGE= $%02x\n", dpage->read());
-  con->dd_printf("EPAGE= $%02x\n", epage->read());
-  u8_t w= windef->read();
+  con->dd_printf("PPAGE= $%02x\n", ppage->get());
+  con->dd_printf("DPAGE= $%02x\n", dpage->get());
+  con->dd_printf("EPAGE= $%02x\n", epage->get());
+  u8_t w= windef->get();
   con->dd_printf("PWEN= %d\n", (w&0x40)?1:0);
   con->dd_printf("DWEN= %d\n", (w&0x80)?1:0);
   con->dd_printf("EWEN= %d\n", (w&0x20)?1:0);
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index d765bb1..9781c70 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -122,7 +122,7 @@ cl_huc6280::get_dis_entry(t_addr addr)
 {
   struct dis_entry *de;
   
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   for (de = disass_huc6280; de && de->mnemonic; de++)
     {
       if ((code & de->mask) == de->code)
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 00e62c0..8c186ee 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -304,48 +304,48 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	  switch (b[i])
 	    {
 	    case 'x': // (ind,X)
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X)");
 	      l+= rX;
 	      a= read_addr(rom, l);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'y': // (ind),Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("($%02x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y)");
 	      a= read_addr(rom, l) + rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'a': // abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'A': // abs -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'j': // JMP abs
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'J': // JMP (ind)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x", a);
 	      addr_name(a, rom, &work);
@@ -353,96 +353,96 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'z': // zpg
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Z': // zpg -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", a= l);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'X': // zpg.X
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '%': // zpg.X -- addr[2]
-	      l= rom->read(addr+1+1);
+	      l= rom->get(addr+1+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",X");
 	      l+= rX;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'Y': // zpg.Y
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("$%04x", l);
 	      addr_name(l, rom, &work);
 	      work.append(",Y");
 	      l+= rY;
 	      a= l;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'I': // (abs,X)
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("($%04x,X)", a);
 	      a+= rX;
 	      temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
 	      break;
 	    case 'i': // abs,X
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case '6': // abs,X -- addr[2]
-	      l= rom->read(addr+1+1);
-	      h= rom->read(addr+2+1);
+	      l= rom->get(addr+1+1);
+	      h= rom->get(addr+2+1);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",X");
 	      a+= rX;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'p': // abs,Y
-	      l= rom->read(addr+1);
-	      h= rom->read(addr+2);
+	      l= rom->get(addr+1);
+	      h= rom->get(addr+2);
 	      a= h*256+l;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      work.append(",Y");
 	      a+= rY;
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'r': // rel
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      a= addr + (i8_t)l + 2;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case 'R': // rel in BBR/BBS
-	      l= rom->read(addr+2);
+	      l= rom->get(addr+2);
 	      a= addr + (i8_t)l + 3;
 	      work.appendf("$%04x", a);
 	      addr_name(a, rom, &work);
 	      break;
 	    case '#': // imm8
-	      l= rom->read(addr+1);
+	      l= rom->get(addr+1);
 	      work.appendf("#$%02x", l);
 	      break;
 	    case '3': // (ind16)
@@ -452,22 +452,22 @@ cl_mos6502::disassc(t_addr addr, chars *comment)
 	      addr_name(a, rom, &work);
 	      break;
 	    case '4': // (zind)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      work.appendf("($%04x)", a);
 	      a= read_addr(rom, a);
 	      addr_name(a, rom, &work);
-	      temp.appendf("; [$%04x]=$%02x", a, rom->read(a));
+	      temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      break;
 	    case 'L': // log2(imm8)
-	      a= rom->read(addr+1);
+	      a= rom->get(addr+1);
 	      a= L2i(a);
 	      work.appendf("%d", a);
 	      break;
 	    case 'T': // block transfer params: SL,SH,DL,DH,LL,LH
 	      {
-		u16_t s= rom->read(addr+1) + 256*rom->read(addr+2);
-		u16_t d= rom->read(addr+3) + 256*rom->read(addr+4);
-		u16_t l= rom->read(addr+5) + 256*rom->read(addr+6);
+		u16_t s= rom->get(addr+1) + 256*rom->get(addr+2);
+		u16_t d= rom->get(addr+3) + 256*rom->get(addr+4);
+		u16_t l= rom->get(addr+5) + 256*rom->get(addr+6);
 		work.appendf("$%04x,$%04x,$%04x", s, d, l);
 		break;
 	      }
@@ -648,7 +648,7 @@ cl_mos6502::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/mos6502.src/mos65ce02.cc b/src/sims/mos6502.src/mos65ce02.cc
index 7fdbaff..b5f5b87 100644
--- a/src/sims/mos6502.src/mos65ce02.cc
+++ b/src/sims/mos6502.src/mos65ce02.cc
@@ -78,7 +78,7 @@ cl_mos65ce02::print_regs(class cl_console_base *con)
     {
       con->dd_printf(" ? 0x%04x ", PC);
       {
-	int i, j, code= rom->read(PC), l= inst_length(PC);
+	int i, j, code= rom->get(PC), l= inst_length(PC);
 	struct dis_entry *dt= dis_tbl();
 	for (i=0;i<3;i++)
 	  if (i<l)
diff --git a/src/sims/oisc.src/em.cc b/src/sims/oisc.src/em.cc
index 24d3486..8b64d29 100644
--- a/src/sims/oisc.src/em.cc
+++ b/src/sims/oisc.src/em.cc
@@ -60,7 +60,7 @@ cl_em::cl_em(class cl_sim *asim):
 void
 cl_em::print_regs(class cl_console_base *con)
 {
-  u16_t v= rom->read(rP);
+  u16_t v= rom->get(rP);
   print_acc(con);
   con->dd_printf("P= %04x %5u %+5d ", rP, rP, rP);
   con->dd_printf(" [P]= %04x %5u %+5d\n", v, v, v);
diff --git a/src/sims/oisc.src/misc16.cc b/src/sims/oisc.src/misc16.cc
index 5024ddf..422cd8e 100644
--- a/src/sims/oisc.src/misc16.cc
+++ b/src/sims/oisc.src/misc16.cc
@@ -195,19 +195,19 @@ cl_misc16::dis_comment(t_addr src, t_addr dst)
 	sa= rA;
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[0x%04x]=0x%04x", sa, rom->read(sa));
+      s.appendf("[0x%04x]=0x%04x", sa, rom->get(sa));
     }
   else if (src==7)
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", rA, rom->read(rA));
+      s.appendf("[src=0x%04x]=0x%04x", rA, rom->get(rA));
     }
   else
     {
       if (s.nempty()) s+= ", ";
       else s+= "; ";
-      s.appendf("[src=0x%04x]=0x%04x", src, rom->read(src));
+      s.appendf("[src=0x%04x]=0x%04x", src, rom->get(src));
     }
   return s;
 }
diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index 30b2e51..d700689 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -140,8 +140,8 @@ cl_oisc::disassc(t_addr addr, chars *comment)
   u16_t src, dst;
   u16_t a;
 
-  src= rom->read(addr);
-  dst= rom->read(addr+1);
+  src= rom->get(addr);
+  dst= rom->get(addr+1);
   
   b= "mov %d,%s";
 
@@ -166,7 +166,7 @@ cl_oisc::disassc(t_addr addr, chars *comment)
 	  /*
 	  if (strcmp(fmt.c_str(), "i8") == 0)
 	    {
-	      work.appendf("#0x%02x", rom->read(addr+1));
+	      work.appendf("#0x%02x", rom->get(addr+1));
 	    }
 	  */
 	  /*
@@ -262,7 +262,7 @@ cl_oisc::exec_inst(void)
 void
 cl_oisc::print_acc(class cl_console_base *con)
 {
-  u16_t v= rom->read(rA);
+  u16_t v= rom->get(rA);
   con->dd_color("answer");
   con->dd_printf("A= %04x %5u %+5d ", rA, rA, (i16_t)rA);
   con->dd_printf(" [A]= %04x %5u %+5d ", v, v, (i16_t)v);
diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 315e1a2..7e6314b 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -145,7 +145,7 @@ cl_urisc::dis_comment(t_addr src, t_addr dst)
   if ((dst >= 0xfff0) && (dst <= 0xfff7) &&
       ((src < 0xfff0) || (src > 0xfff7)) &&
       (src != 0xffff))
-    s.appendf("; 0x%04x", rom->read(src));
+    s.appendf("; 0x%04x", rom->get(src));
   return s;
 }
 
diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index f81e526..be1fa47 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -85,13 +85,13 @@ cl_r3ka::make_cpu_hw(void)
 struct dis_entry *
 cl_r3ka::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
 
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
 
       dt= disass_pedm3;
       i= 0;
@@ -121,7 +121,7 @@ cl_r3ka::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -154,10 +154,10 @@ cl_r3ka::dis_entry(t_addr addr)
 char *
 cl_r3ka::disassc(t_addr addr, chars *comment)
 {
-  t_mem code= rom->read(addr);
+  t_mem code= rom->get(addr);
   if (code == 0x5b)
     {
-      if (rom->read(addr-1) != 0x76)
+      if (rom->get(addr-1) != 0x76)
 	return strdup("IDET");
     }
   return cl_r3k::disassc(addr, comment);
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index a3f4989..b34919e 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -164,13 +164,13 @@ static struct dis_entry de7f;
 struct dis_entry *
 cl_r4k::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr), mode= kmode;
+  u8_t code= rom->get(addr), mode= kmode;
   int i;
   struct dis_entry *dt;
   
   if (code == 0xed)
     {
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       
       dt= disass_pedm3;
       i= 0;
@@ -208,7 +208,7 @@ cl_r4k::dis_entry(t_addr addr)
 	{
 	  cIR= &cIY;
 	}
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_pddm3;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -239,7 +239,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 3))
     {
       // 7f page is special in 4k mode
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       if ((code <= 0x3f) || (code >= 0xc0))
 	return NULL;
       if ((code >= 0x40) && (code <= 0x6f))
@@ -272,7 +272,7 @@ cl_r4k::dis_entry(t_addr addr)
   if ((code == 0x7f) && (mode == 2))
     {
       // 7f page in mode 10 is same as 4k insts on main page
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       dt= disass_p0m4;
       i= 0;
       while (((code & dt[i].mask) != dt[i].code) &&
@@ -330,7 +330,7 @@ char mnemo[100];
 struct dis_entry *
 cl_r4k::dis_6d_entry(t_addr addr)
 {
-  u8_t h, l, code= rom->read(addr+1);
+  u8_t h, l, code= rom->get(addr+1);
   chars op, idx, offset;
   
   if (code == 0x6d)
@@ -372,7 +372,7 @@ cl_r4k::dis_6d_entry(t_addr addr)
     {
     case 0:
       {
-	u8_t d= rom->read(addr+2);
+	u8_t d= rom->get(addr+2);
 	disass_6d[0].length= 3;
 	if (l&1)
 	  offset.format("+%u", d);
@@ -987,7 +987,7 @@ void
 cl_r4k_cpu::print_info(class cl_console_base *con)
 {
   cl_rxk_cpu::print_info(con);
-  con->dd_printf("EDMR    : 0x%02x\n", edmr->read());
+  con->dd_printf("EDMR    : 0x%02x\n", edmr->get());
 }
 
 
diff --git a/src/sims/rxk.src/r6k.cc b/src/sims/rxk.src/r6k.cc
index 2ee85da..51e613d 100644
--- a/src/sims/rxk.src/r6k.cc
+++ b/src/sims/rxk.src/r6k.cc
@@ -76,8 +76,8 @@ cl_r6k::init(void)
 struct dis_entry *
 cl_r6k::dis_entry(t_addr addr)
 {
-  u8_t code0= rom->read(addr);
-  t_mem codew= code0 + 256*(rom->read(addr+1));
+  u8_t code0= rom->get(addr);
+  t_mem codew= code0 + 256*(rom->get(addr+1));
   struct dis_entry *de;
   int i;
   i= 0;
@@ -102,7 +102,7 @@ cl_r6k::dis_entry(t_addr addr)
 char *
 cl_r6k::disassc_cb_6(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   switch (code & 7)
     {
     case 0: return strdup("LD    B,B");
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 216df96..bb7481c 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -236,7 +236,7 @@ cl_rxk::dis_tbl(void)
 struct dis_entry *
 cl_rxk::dis_entry(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   int i;
   struct dis_entry *dt;
   i= 0;
@@ -244,7 +244,7 @@ cl_rxk::dis_entry(t_addr addr)
   if (code == 0xed)
     {
       dt= disass_pedm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -263,7 +263,7 @@ cl_rxk::dis_entry(t_addr addr)
 	  cIR= &cIY;
 	}
       dt= disass_pddm3;
-      code= rom->read(addr+1);
+      code= rom->get(addr+1);
       while (((code & dt[i].mask) != dt[i].code) &&
 	     dt[i].mnemonic)
 	i++;
@@ -308,15 +308,15 @@ cl_rxk::disassc(t_addr addr, chars *comment)
   
   dt= dis_entry(addr);
   if (code == 0xed)
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   else if ((code == 0xdd) || (code == 0xfd))
     {
-      code= rom->read(++addr);
+      code= rom->get(++addr);
       if (code == 0xcb)
 	return disassc_dd_cb(addr-1, comment);
     }
   else if ((code == 0x49) && (kmode > 0))
-    code= rom->read(++addr);
+    code= rom->get(++addr);
   
   if (!dt)
     return strdup("-- unknown");
@@ -346,7 +346,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	  if (fmt.empty()) work.append("'");
 	  else if (fmt=="ps0.0")
 	    {
-	      int h= rom->read(addr) & 0x3;
+	      int h= rom->get(addr) & 0x3;
 	      switch (h)
 		{
 		case 0: work.append("PW"); break;
@@ -369,9 +369,9 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      //x= rom->get(++addr);
 	      // use last 3 bytes
 	      addr+= 3;
-	      l= rom->read(inst_addr + dt->length-3);
-	      h= rom->read(inst_addr + dt->length-2);
-	      x= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-3);
+	      h= rom->get(inst_addr + dt->length-2);
+	      x= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%06x", x*0x10000+h*256+l);
 	      break;
 	    case 'w': // 16 bit unsigned
@@ -379,14 +379,14 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	      //h= rom->read(++addr);
 	      addr+= 2;
 	      // use last 2 bytes intead
-	      l= rom->read(inst_addr + dt->length-2);
-	      h= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-2);
+	      h= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%04x", h*256+l);
 	      break;
 	    case 'b': // 8 bit unsigned
 	      //l= rom->read(++addr);
 	      ++addr;
-	      l= rom->read(inst_addr + dt->length-1);
+	      l= rom->get(inst_addr + dt->length-1);
 	      work.appendf("0x%02x", l);
 	      break;
 	    case 'd': // 8 bit signed
@@ -395,7 +395,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 		//r= rom->read(++addr);
 		++addr;
 		// use last byte instead
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		work.appendf("%+d", r);
 	      }
 	      break;
@@ -404,7 +404,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 		i8_t r;
 		//r= rom->read(++addr);
 		++addr;
-		r= rom->read(inst_addr + dt->length-1);
+		r= rom->get(inst_addr + dt->length-1);
 		t_addr a= addr + 1 + r;
 		work.appendf("0x%04x", AU16(a));
 	      }
@@ -415,8 +415,8 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 		//el= rom->read(++addr);
 		//eh= rom->read(++addr);
 		addr+= 2;
-		el= rom->read(inst_addr + dt->length-2);
-		eh= rom->read(inst_addr + dt->length-1);
+		el= rom->get(inst_addr + dt->length-2);
+		eh= rom->get(inst_addr + dt->length-1);
 		i16_t ee= eh*256+el;
 		t_addr a= (addr+1 + ee) & 0xffff;
 		work.appendf("0x%04x", a);
@@ -440,18 +440,18 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 	    case 'X': // LXPC 0 1 2 3 xpl xph
 	      {
 		u16_t x;
-		x= rom->read(addr+4) * 256;
-		x+= rom->read(addr+3);
+		x= rom->get(addr+4) * 256;
+		x+= rom->get(addr+3);
 		work.appendf("0x%03x", x);
 		break;
 	      }
 	    case 'x': // 32 bit unsigned
 	      {
 		u32_t n, m, l, h;
-		n= rom->read(++addr);
-		m= rom->read(++addr);
-		l= rom->read(++addr);
-		h= rom->read(++addr);
+		n= rom->get(++addr);
+		m= rom->get(++addr);
+		l= rom->get(++addr);
+		h= rom->get(++addr);
 		work.appendf("0x%08x", (h<<24)+(l<<16)+(m<<8)+n);
 	      }
 	    }
@@ -468,7 +468,7 @@ cl_rxk::disassc(t_addr addr, chars *comment)
 char *
 cl_rxk::disassc_cb(t_addr addr, chars *comment)
 {
-  u8_t code= rom->read(++addr);
+  u8_t code= rom->get(++addr);
   u8_t x, y, z;
   chars work, temp;
   char b[100];
@@ -550,9 +550,9 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
   t_addr a;
   
   a= addr+2;
-  d= rom->read(a);
+  d= rom->get(a);
   a++;
-  code= rom->read(a);
+  code= rom->get(a);
   
   x= code>>6;
   y= (code>>3)&7;
@@ -630,12 +630,12 @@ cl_rxk::disassc_dd_cb(t_addr addr, chars *comment)
 int
 cl_rxk::inst_length(t_addr addr)
 {
-  u8_t code= rom->read(addr);
+  u8_t code= rom->get(addr);
   if (code == 0xcb)
     return 2;
   if ((code == 0xdd) || (code == 0xfd))
     {
-      if (rom->read(addr+1) == 0xcb)
+      if (rom->get(addr+1) == 0xcb)
 	return 4;
     }
   struct dis_entry *dt= dis_entry(addr);
@@ -1010,7 +1010,7 @@ cl_rxk_cpu::print_info(class cl_console_base *con)
   con->dd_color("answer");
   con->dd_printf("%s[%d]\n", id_string, id);
   con->dd_printf("(L)XPC  : 0x%03x\n", ruc->mem->get_xpc());
-  con->dd_printf("SEGSIZE : 0x%03x\n", segsize->read());
+  con->dd_printf("SEGSIZE : 0x%03x\n", segsize->get());
   con->dd_printf("DATASEG : 0x%03x\n", ruc->mem->get_dataseg());
   con->dd_printf("STACKSEG: 0x%03x\n", ruc->mem->get_stackseg());
   //con->dd_printf("XPC     : 0x%02x\n", xpc->read());
diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 15f0149..a3da859 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1339,7 +1339,7 @@ cl_51core::print_regs(class cl_console_base *con)
 		    dp= (dp*256) + dptr_chip->get(a+di);
 		  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 		  con->dd_printf("0x%04x", dp);
-		  data= xram->read(dp);
+		  data= xram->get(dp);
 		  con->dd_printf(" @DPTR%d= ", i);
 		  con->dd_printf("0x%02x %3d %c\n", data, data,
 				 isprint(data)?data:'.');
@@ -1363,7 +1363,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	       sfr_chip->get(DPH-0x80) * 256) & 0xffff;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf("0x%04x", dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
@@ -1372,7 +1372,7 @@ cl_51core::print_regs(class cl_console_base *con)
 	    sfr_chip->get(cpu->cfg_get(uc51cpu_aof_mdps1h) - 0x80) * 256;
 	  con->dd_printf("  %cDPTR%d= ", (i==act)?'*':' ', i);
 	  con->dd_printf(xram->addr_format, dp);
-	  data= xram->read(dp);
+	  data= xram->get(dp);
 	  con->dd_printf(" @DPTR%d= ", i);
 	  con->dd_printf("0x%02x %3d %c\n", data, data,
 			 isprint(data)?data:'.');
@@ -1399,7 +1399,7 @@ cl_51core::print_regs(class cl_console_base *con)
   else
     {
       // no dptr address space, read SFR directly
-      data= xram->get(sfr->read(DPH)*256+sfr->read(DPL));
+      data= xram->get(sfr->get(DPH)*256+sfr->get(DPL));
       con->dd_printf("   DPTR= 0x%02x%02x @DPTR= 0x%02x %3d %c\n",
 		     sfr->get(DPH),
 		     sfr->get(DPL),
diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index 1fdb9d5..a21bc4b 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1018,8 +1018,8 @@ cl_stm8::print_regs(class cl_console_base *con)
   con->dd_printf("Y= 0x%04x %3d %c\n",
                  regs.Y, regs.Y, isprint(regs.Y)?regs.Y:'.');
   con->dd_printf("SP= 0x%04x [SP+1]= %02x %3d %c  Limit= 0x%04x\n",
-                 regs.SP, ram->read(regs.SP+1), ram->read(regs.SP+1),
-                 isprint(ram->read(regs.SP+1))?ram->read(regs.SP+1):'.',
+                 regs.SP, ram->get(regs.SP+1), ram->get(regs.SP+1),
+                 isprint(ram->get(regs.SP+1))?ram->get(regs.SP+1):'.',
 		 AU(sp_limit));
 
   print_disass(PC, con);
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index b56a5d7..643179a 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -251,13 +251,13 @@ cl_t870c::print_regs(class cl_console_base *con)
   con->dd_printf("A= 0x%02x %3d %c\n",
 		 rA, rA, isprint(rA)?rA:'.');
   con->dd_printf("%s\n", cbin(rF,8).c_str());
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->read(rWA));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->read(rBC));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->read(rDE));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->read(rHL));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->read(rIX));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->read(rIY));
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA, asd->get(rWA));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC, asd->get(rBC));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE, asd->get(rDE));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL, asd->get(rHL));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX, asd->get(rIX));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY, asd->get(rIY));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
@@ -433,7 +433,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 	      work.appendf("0x%04x", u16= code1+code2*256);
 	      if (comment)
 		comment->appendf("; %02x %02x",
-				 asd->read(u16), asd->read(u16+1));
+				 asd->get(u16), asd->get(u16+1));
 	    }
 	  else if (fmt=="dstF")
 	    {
@@ -442,7 +442,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dstF(code32);
 		  comment->appendf("; [%04] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="dst5")
@@ -461,7 +461,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_dst5(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcE")
@@ -471,7 +471,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcE(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="srcD")
@@ -490,7 +490,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= aof_srcD(code32);
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="src4")
@@ -500,7 +500,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		{
 		  u16_t a= (i8_t)rA + addr + 2;
 		  comment->appendf("; [%04x] %02x %02x",
-				   a, asd->read(a), asd->read(a+1));
+				   a, asd->get(a), asd->get(a+1));
 		}
 	    }
 	  else if (fmt=="ra5")
@@ -584,7 +584,7 @@ cl_t870c::disassc(t_addr addr, chars *comment)
 		work.appendf("0x%02x", x);
 		if (comment)
 		  comment->appendf("; [%04x] %02x %02x",
-				   x, asd->read(x), asd->read(x+1));
+				   x, asd->get(x), asd->get(x+1));
 	      }
 	      break;
 	    case 'b':
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 76f3c5b..224ef27 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -230,25 +230,25 @@ cl_t870c1::print_regs(class cl_console_base *con)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->read(rWA0));
-  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->read(rBC0));
-  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->read(rDE0));
-  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->read(rHL0));
-  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->read(rIX0));
-  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->read(rIY0));
+  con->dd_printf("WA0=0x%04x [WA]=%02x  ", rWA0, asd->get(rWA0));
+  con->dd_printf("BC0=0x%04x [BC]=%02x  ", rBC0, asd->get(rBC0));
+  con->dd_printf("DE0=0x%04x [DE]=%02x\n", rDE0, asd->get(rDE0));
+  con->dd_printf("HL0=0x%04x [HL]=%02x  ", rHL0, asd->get(rHL0));
+  con->dd_printf("IX0=0x%04x [IX]=%02x  ", rIX0, asd->get(rIX0));
+  con->dd_printf("IY0=0x%04x [IY]=%02x\n", rIY0, asd->get(rIY0));
   if ((rF & MRBS) != 0)
     con->dd_color("answer");
   else
     con->dd_color("gray_answer");
-  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->read(rWA1));
-  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->read(rBC1));
-  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->read(rDE1));
-  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->read(rHL1));
-  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->read(rIX1));
-  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->read(rIY1));
+  con->dd_printf("WA1=0x%04x [WA]=%02x  ", rWA1, asd->get(rWA1));
+  con->dd_printf("BC1=0x%04x [BC]=%02x  ", rBC1, asd->get(rBC1));
+  con->dd_printf("DE1=0x%04x [DE]=%02x\n", rDE1, asd->get(rDE1));
+  con->dd_printf("HL1=0x%04x [HL]=%02x  ", rHL1, asd->get(rHL1));
+  con->dd_printf("IX1=0x%04x [IX]=%02x  ", rIX1, asd->get(rIX1));
+  con->dd_printf("IY1=0x%04x [IY]=%02x\n", rIY1, asd->get(rIY1));
 
   con->dd_color("answer");
-  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->read(rSP));
+  con->dd_printf("SP =0x%04x [SP]=%02x  ", rSP, asd->get(rSP));
   con->dd_printf("\n");
   print_disass(PC, con);
 }
diff --git a/src/sims/z80.src/ez80.cc b/src/sims/z80.src/ez80.cc
index 0804a18..340e77f 100644
--- a/src/sims/z80.src/ez80.cc
+++ b/src/sims/z80.src/ez80.cc
@@ -236,11 +236,11 @@ cl_ez80::get_disasm_info(t_addr addr,
   int immed_n = 0;
   struct dis_entry *dis_e= NULL;
   
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   switch (code)
     {
     case 0xed:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_ed[i].mask) != disass_ez80_ed[i].code &&
 	     disass_ez80_ed[i].mnemonic)
@@ -262,7 +262,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_dd[i].mask) != disass_ez80_dd[i].code &&
 	     disass_ez80_dd[i].mnemonic)
@@ -285,7 +285,7 @@ cl_ez80::get_disasm_info(t_addr addr,
       break;
 
     case 0xfd:
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_ez80_fd[i].mask) != disass_ez80_fd[i].code &&
 	     disass_ez80_fd[i].mnemonic)
diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 5e112c3..677ba3f 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -309,12 +309,12 @@ cl_gb80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_gb80_cb[i].mask) != disass_gb80_cb[i].code &&
         disass_gb80_cb[i].mnemonic)
@@ -387,18 +387,18 @@ cl_gb80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // d    jump relative target, signed? byte immediate operand
-              temp.format("#%d", (char)rom->read(addr+immed_offset));
+              temp.format("#%d", (char)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             case 'w': // w    word immediate operand
               temp.format("#0x%04x",
-                 (uint)((rom->read(addr+immed_offset)) |
-                        (rom->read(addr+immed_offset+1)<<8)) );
+                 (uint)((rom->get(addr+immed_offset)) |
+                        (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // b    byte immediate operand
-              temp.format("#0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("#0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
diff --git a/src/sims/z80.src/r800.cc b/src/sims/z80.src/r800.cc
index 94e8b33..13f3f29 100644
--- a/src/sims/z80.src/r800.cc
+++ b/src/sims/z80.src/r800.cc
@@ -88,8 +88,8 @@ cl_r800::get_disasm_info(t_addr addr,
 {
   uint c0, c1;
   struct dis_entry *de;
-  c0= rom->read(addr);
-  c1= rom->read(addr+1);
+  c0= rom->get(addr);
+  c1= rom->get(addr+1);
   if (c0 == 0xed)
     {
       // Z280/R800 multu HL=A*r
diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 9d99ad6..ba3344b 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -376,12 +376,12 @@ cl_z80::get_disasm_info(t_addr addr,
   int start_addr = addr;
   struct dis_entry *dis_e;
 
-  code= rom->read(addr++);
+  code= rom->get(addr++);
   dis_e = NULL;
 
   switch(code) {
     case 0xcb:  /* ESC code to lots of op-codes, all 2-byte */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       i= 0;
       while ((code & disass_z80_cb[i].mask) != disass_z80_cb[i].code &&
         disass_z80_cb[i].mnemonic)
@@ -393,7 +393,7 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xed: /* ESC code to about 80 opcodes of various lengths */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (type->type == CPU_Z80N)
 	{
 	  i= 0;
@@ -431,11 +431,11 @@ cl_z80::get_disasm_info(t_addr addr,
       break;
 
     case 0xdd: /* ESC codes,about 284, vary lengths, IX centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_ddcb[i].mask) != disass_z80_ddcb[i].code &&
           disass_z80_ddcb[i].mnemonic)
@@ -457,11 +457,11 @@ cl_z80::get_disasm_info(t_addr addr,
     break;
 
     case 0xfd: /* ESC codes,sme as dd but IY centric */
-      code= rom->read(addr++);
+      code= rom->get(addr++);
       if (code == 0xcb) {
         immed_n = 2;
         addr++;  // pass up immed data
-        code= rom->read(addr++);
+        code= rom->get(addr++);
         i= 0;
         while ((code & disass_z80_fdcb[i].mask) != disass_z80_fdcb[i].code &&
           disass_z80_fdcb[i].mnemonic)
@@ -549,25 +549,25 @@ cl_z80::disass(t_addr addr)
           switch (*(b++))
             {
             case 'd': // jump relative target, signed? byte immediate operand
-              temp.format("%d", (signed char)(rom->read(addr+immed_offset)));
+              temp.format("%d", (signed char)(rom->get(addr+immed_offset)));
               ++immed_offset;
               break;
             case 'w': // word immediate operand, little endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)) |
-				 (rom->read(addr+immed_offset+1)<<8)) );
+			  (uint)((rom->get(addr+immed_offset)) |
+				 (rom->get(addr+immed_offset+1)<<8)) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'W': // word immediate operand, big endian
               temp.format("0x%04x",
-			  (uint)((rom->read(addr+immed_offset)<<8) |
-				 (rom->read(addr+immed_offset+1))) );
+			  (uint)((rom->get(addr+immed_offset)<<8) |
+				 (rom->get(addr+immed_offset+1))) );
               ++immed_offset;
               ++immed_offset;
               break;
             case 'b': // byte immediate operand
-              temp.format("0x%02x", (uint)rom->read(addr+immed_offset));
+              temp.format("0x%02x", (uint)rom->get(addr+immed_offset));
               ++immed_offset;
               break;
             default:
@@ -594,28 +594,28 @@ cl_z80::print_regs(class cl_console_base *con)
                  regs.raf.A, regs.raf.A, isprint(regs.raf.A)?regs.raf.A:'.');
   con->dd_printf("%s\n", cbin(regs.raf.F, 8).c_str());
   con->dd_printf("BC= 0x%04x [BC]= %02x %3d %c  ",
-                 regs.BC, ram->read(regs.BC), ram->read(regs.BC),
-                 isprint(ram->read(regs.BC))?ram->read(regs.BC):'.');
+                 regs.BC, ram->get(regs.BC), ram->get(regs.BC),
+                 isprint(ram->get(regs.BC))?ram->get(regs.BC):'.');
   con->dd_printf("DE= 0x%04x [DE]= %02x %3d %c  ",
-                 regs.DE, ram->read(regs.DE), ram->read(regs.DE),
-                 isprint(ram->read(regs.DE))?ram->read(regs.DE):'.');
+                 regs.DE, ram->get(regs.DE), ram->get(regs.DE),
+                 isprint(ram->get(regs.DE))?ram->get(regs.DE):'.');
   con->dd_printf("HL= 0x%04x [HL]= %02x %3d %c\n",
-                 regs.HL, ram->read(regs.HL), ram->read(regs.HL),
-                 isprint(ram->read(regs.HL))?ram->read(regs.HL):'.');
+                 regs.HL, ram->get(regs.HL), ram->get(regs.HL),
+                 isprint(ram->get(regs.HL))?ram->get(regs.HL):'.');
   con->dd_printf("IX= 0x%04x [IX]= %02x %3d %c  ",
-                 regs.IX, ram->read(regs.IX), ram->read(regs.IX),
-                 isprint(ram->read(regs.IX))?ram->read(regs.IX):'.');
+                 regs.IX, ram->get(regs.IX), ram->get(regs.IX),
+                 isprint(ram->get(regs.IX))?ram->get(regs.IX):'.');
   con->dd_printf("IY= 0x%04x [IY]= %02x %3d %c  ",
-                 regs.IY, ram->read(regs.IY), ram->read(regs.IY),
-                 isprint(ram->read(regs.IY))?ram->read(regs.IY):'.');
+                 regs.IY, ram->get(regs.IY), ram->get(regs.IY),
+                 isprint(ram->get(regs.IY))?ram->get(regs.IY):'.');
   con->dd_printf("AF= 0x%04x [AF]= %02x %3d %c\n",
-                 regs.AF, ram->read(regs.AF), ram->read(regs.AF),
-                 isprint(ram->read(regs.AF))?ram->read(regs.AF):'.');
+                 regs.AF, ram->get(regs.AF), ram->get(regs.AF),
+                 isprint(ram->get(regs.AF))?ram->get(regs.AF):'.');
   con->dd_printf("SP limit= 0x%04x\n", AU(sp_limit));
   
   /*con->dd_printf("SP= 0x%04x ",
-                 regs.SP, ram->read(regs.SP), ram->read(regs.SP),
-                 isprint(ram->read(regs.SP))?ram->read(regs.SP):'.');
+                 regs.SP, ram->get(regs.SP), ram->get(regs.SP),
+                 isprint(ram->get(regs.SP))?ram->get(regs.SP):'.');
   */
   int i;
   con->dd_cprintf("answer", "SP= ");
@@ -626,8 +626,8 @@ cl_z80::print_regs(class cl_console_base *con)
       al= (regs.SP+i)&0xffff;
       ah= (al+1)&0xffff;
       con->dd_cprintf("dump_number", " %02x%02x",
-		      (u8_t)(ram->read(al)),
-		      (u8_t)(ram->read(ah)));
+		      (u8_t)(ram->get(al)),
+		      (u8_t)(ram->get(ah)));
     }
   con->dd_printf("\n");
   
-- 
2.43.0


From 169b65a8f2f774f2247e7d718b156f357501283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 054/256] fix: state: showing registers of i8085 and xa is not
 counted as reads of the program

---
 src/sims/i8085.src/i8080.cc |  2 +-
 src/sims/xa.src/xa.cc       | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 1817604..5011a57 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -226,7 +226,7 @@ const char *srp_names[4]= {
 void
 cl_i8080::dis_M(chars *comment)
 {
-  u8_t m= rM;
+  u8_t m= rom->get(rHL);
   if (comment->empty())
     *comment= "; ";
   comment->appendf("[0x%04x]= 0x%02x", rHL, m);
diff --git a/src/sims/xa.src/xa.cc b/src/sims/xa.src/xa.cc
index 9639c5c..2959f28 100644
--- a/src/sims/xa.src/xa.cc
+++ b/src/sims/xa.src/xa.cc
@@ -979,12 +979,16 @@ void
 cl_xa::print_regs(class cl_console_base *con)
 {
   unsigned char flags;
+  u16_t r[8];
+  int i;
 
-  flags = get_psw();
+  for (i= 0; i < 8; i++)
+    r[i]= sfr->get(REGS_OFFSET + 2*i) | (sfr->get(REGS_OFFSET + 2*i + 1) << 8);
+  flags = sfr->get(PSW);
   con->dd_color("answer");
   con->dd_printf("CA---VNZ | ", flags);
   con->dd_printf("R0:%04x R1:%04x R2:%04x R3:%04x\n",
-                 reg2(0), reg2(1), reg2(2), reg2(3));
+                 r[0], r[1], r[2], r[3]);
 
   con->dd_printf("%c%c---%c%c%c | ",
          (flags & BIT_C)?'1':'0',
@@ -994,7 +998,7 @@ cl_xa::print_regs(class cl_console_base *con)
          (flags & BIT_Z)?'1':'0');
 
   con->dd_printf("R4:%04x R5:%04x R6:%04x SP:%04x ES:%04x  DS:%04x\n",
-                 reg2(4), reg2(5), reg2(6), reg2(7), 0, 0);
+                 r[4], r[5], r[6], r[7], 0, 0);
 
   print_disass(PC, con);
 }
-- 
2.43.0


From 7dc01765817b08336e6bb008f9541f529b16db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:15 +0000
Subject: [PATCH 055/256] fix: pdk: an instruction stopped by a breakpoint is
 not counted and stays the next one

---
 src/sims/pdk.src/pdk.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 57ece93..f15bb4a 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -963,7 +963,10 @@ cl_pdk::exec_inst(void)
 	  vc.rd+= fpps[i]->vc.rd;
 	  vc.wr+= fpps[i]->vc.wr;
 	}
-      if (rFPPEN != 1)
+      if (ret == resBREAKPOINT)
+	// stopped before execution
+	fpps[act]->vc.inst--;
+      else if (rFPPEN != 1)
 	{
 	  do
 	    act= (act+1)%nuof_fpp;
-- 
2.43.0


From 8c8e49eca7dc5cbfeeac0d753e327d145c443d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 056/256] fix: rabbit: RST 18 and RST 38 are not index prefixes

---
 src/sims/rxk.src/r3ka.cc | 2 +-
 src/sims/rxk.src/r4k.cc  | 2 +-
 src/sims/rxk.src/rxk.cc  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index be1fa47..ee1809d 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -111,7 +111,7 @@ cl_r3ka::dis_entry(t_addr addr)
 
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index b34919e..d47f36b 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -198,7 +198,7 @@ cl_r4k::dis_entry(t_addr addr)
       
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index bb7481c..c7a0f23 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -252,7 +252,7 @@ cl_rxk::dis_entry(t_addr addr)
 	return &dt[i];
       return NULL;
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
@@ -801,7 +801,7 @@ cl_rxk::exec_inst(void)
       code= fetch();
       return itab_ed[code](this, code);
     }
-  if ((code & 0xdd) == 0xdd)
+  if ((code == 0xdd) || (code == 0xfd))
     {
       if (code == 0xdd)
 	{
-- 
2.43.0


From 139a1931a98d17be7e2e7a1ffc82867060c3e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 057/256] fix: rabbit: a breakpoint after a prefix does not
 cancel the prefix

---
 src/sims/rxk.src/rxk.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index c7a0f23..f4399d4 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -784,6 +784,9 @@ cl_rxk::exec_inst(void)
   t_mem code;
   int res= resGO;
 
+  if (do_brk())
+    return resBREAKPOINT;
+
   if (!prefix)
     {
       rwas= rom;
@@ -793,8 +796,7 @@ cl_rxk::exec_inst(void)
   atomic= false;
   
   instPC= PC;
-  if (fetch(&code))
-    return resBREAKPOINT;
+  code= fetch();
   tick(1);
   if (code == 0xed)
     {
-- 
2.43.0


From 600d4452307fe9a03bfe9cf87af3986496ccbad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 058/256] fix: state: objects are created with zeroed members,
 so that the initial state is the same in every run

---
 src/core/utils.src/pobj.cc  | 21 +++++++++++++++++++++
 src/core/utils.src/pobjcl.h |  5 +++++
 2 files changed, 26 insertions(+)

diff --git a/src/core/utils.src/pobj.cc b/src/core/utils.src/pobj.cc
index 89dd9c9..5226cb8 100644
--- a/src/core/utils.src/pobj.cc
+++ b/src/core/utils.src/pobj.cc
@@ -33,6 +33,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <new>
 #include <strings.h>
 
 #include "pstr.h"
@@ -47,6 +48,26 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 									    *
 */
 
+/*
+ * Objects start with zeroed members
+ */
+
+void *
+cl_base::operator new(size_t size)
+{
+  void *p= calloc(1, size);
+  if (!p)
+    throw std::bad_alloc();
+  return p;
+}
+
+void
+cl_base::operator delete(void *ptr)
+{
+  free(ptr);
+}
+
+
 /*
  * Initializing the object
  */
diff --git a/src/core/utils.src/pobjcl.h b/src/core/utils.src/pobjcl.h
index 7bf5cda..d35186d 100644
--- a/src/core/utils.src/pobjcl.h
+++ b/src/core/utils.src/pobjcl.h
@@ -28,6 +28,8 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #ifndef POBJ_HEADER
 #define POBJ_HEADER
 
+#include <stddef.h>
+
 #include "ddconfig.h"
 
 #include "pobjt.h"
@@ -60,6 +62,9 @@ public:
   cl_base(void);
   virtual ~cl_base(void);
 
+  void *operator new(size_t size);
+  void operator delete(void *ptr);
+  
   virtual int init(void);
   virtual const char *get_name(void) const { return(name); }
   virtual const char *get_name(const char *def) const;
-- 
2.43.0


From 5dcac1d8a2456640cc8ee72b8adcd846aecbf2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 059/256] fix: hw: reading a configuration cell gives the
 refreshed value, not the one before

---
 src/sims/s51.src/mdu.cc     | 4 ++--
 src/sims/stm8.src/timer.cc  | 2 +-
 src/sims/stm8.src/uid.cc    | 2 +-
 src/sims/tlcs.src/t870c.cc  | 2 +-
 src/sims/tlcs.src/t870c1.cc | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/s51.src/mdu.cc b/src/sims/s51.src/mdu.cc
index 8168f17..8cbeb3e 100644
--- a/src/sims/s51.src/mdu.cc
+++ b/src/sims/s51.src/mdu.cc
@@ -186,7 +186,7 @@ cl_mdu517::read(class cl_memory_cell *cell)
   t_mem v= cell->get();
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == con)
     cell->set(v&= ~0x80);
   else if (sfr->is_owned(cell, &a))
@@ -386,7 +386,7 @@ cl_mdu88x::read(class cl_memory_cell *cell)
   t_mem val= cell->get();
   
   if (conf(cell, NULL))
-    return val;
+    return cell->get();
   if (cell == stat)
     {}
   else if (cell == con)
diff --git a/src/sims/stm8.src/timer.cc b/src/sims/stm8.src/timer.cc
index 3221591..55c1b41 100644
--- a/src/sims/stm8.src/timer.cc
+++ b/src/sims/stm8.src/timer.cc
@@ -192,7 +192,7 @@ cl_tim::read(class cl_memory_cell *cell)
   t_addr a;
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (!uc->rom->is_owned(cell, &a))
     return v;
   if ((a < base) ||
diff --git a/src/sims/stm8.src/uid.cc b/src/sims/stm8.src/uid.cc
index d782e95..da3a964 100644
--- a/src/sims/stm8.src/uid.cc
+++ b/src/sims/stm8.src/uid.cc
@@ -69,7 +69,7 @@ cl_uid::read(class cl_memory_cell *cell)
   t_mem v= cell->get();
   
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
 
   return v;
 }
diff --git a/src/sims/tlcs.src/t870c.cc b/src/sims/tlcs.src/t870c.cc
index 643179a..7d6a77f 100644
--- a/src/sims/tlcs.src/t870c.cc
+++ b/src/sims/tlcs.src/t870c.cc
@@ -2068,7 +2068,7 @@ cl_t870c_cpu::read(class cl_memory_cell *cell)
 {
   t_mem v= cell->get();
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == psw)
     {
       v= uc->rPSW;
diff --git a/src/sims/tlcs.src/t870c1.cc b/src/sims/tlcs.src/t870c1.cc
index 224ef27..f4bcb17 100644
--- a/src/sims/tlcs.src/t870c1.cc
+++ b/src/sims/tlcs.src/t870c1.cc
@@ -297,7 +297,7 @@ cl_t870c1_cpu::read(class cl_memory_cell *cell)
 {
   t_mem v= cell->get();
   if (conf(cell, NULL))
-    return v;
+    return cell->get();
   if (cell == psw)
     {
       v= uc->rPSW;
-- 
2.43.0


From ca4f718c596c2bad4a2feb8307855c8afd90a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 060/256] fix: hw: the on/off configuration cell holds the
 state of the hardware from the start

---
 src/core/sim.src/hw.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/hw.cc b/src/core/sim.src/hw.cc
index 6e145cf..ae6b9dc 100644
--- a/src/core/sim.src/hw.cc
+++ b/src/core/sim.src/hw.cc
@@ -103,6 +103,7 @@ cl_hw::init(void)
 	  c->decode(cfg_chip->get_slot(a));
           cfg->register_hw(a, this, false);
         }
+      cfg->set(0, on?1:0);
     }
   if (cfg_size() > 0)
     {
-- 
2.43.0


From 4c82b869c58a4f45efd1e0f3709407db373bfa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 061/256] fix: m6809: NMI gets enabled by loading of S, not by
 looking at its configuration

---
 src/sims/m6809.src/m6809.cc  | 15 +++++++++++----
 src/sims/m6809.src/m6809cl.h |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 383d46f..837c8d7 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -80,13 +80,20 @@ cl_m6809::id_string(void)
   return "M6809";
 }
 
+void
+cl_m6809::set_en_nmi(bool en)
+{
+  en_nmi= en;
+  irq_hw->cfg_read(cpu_nmi_en);
+}
+
 void
 cl_m6809::reset(void)
 {
   cl_uc::reset();
 
   reg.DP= 0;
-  en_nmi= false;
+  set_en_nmi(false);
   cwai= false;
   reg.CC= flagI | flagF;
   PC= rom->read(0xfffe)*256 + rom->read(0xffff);
@@ -144,7 +151,7 @@ cl_m6809::mk_hw_elements(void)
   add_hw(h= new cl_dreg(this, 0, "dreg"));
   h->init();
   
-  add_hw(h= new cl_m6809_irq(this));
+  add_hw(h= irq_hw= new cl_m6809_irq(this));
   h->init();
 
   src_irq= new cl_it_src(this,
@@ -1059,7 +1066,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     {
       *acc= r;
       if (acc == &reg.S)
-	en_nmi= true;
+	set_en_nmi(true);
     }
   
   return resGO;
@@ -1110,7 +1117,7 @@ cl_m6809::inst_ld16(t_mem code, u16_t *acc, u16_t op)
   SET_S(op&0x8000);
 
   if (acc == &reg.S)
-    en_nmi= true;
+    set_en_nmi(true);
   
   return resGO;
 }
diff --git a/src/sims/m6809.src/m6809cl.h b/src/sims/m6809.src/m6809cl.h
index a699000..ede67df 100644
--- a/src/sims/m6809.src/m6809cl.h
+++ b/src/sims/m6809.src/m6809cl.h
@@ -85,6 +85,7 @@ public:
   class cl_address_space *regs16;
   struct reg_t reg;
   bool en_nmi;
+  class cl_hw *irq_hw;
   bool cwai;
 public:
   class cl_address_space *rom;
@@ -98,6 +99,7 @@ public:
   virtual const char *id_string(void);
   virtual void reset(void);
   virtual void set_PC(t_addr addr);
+  virtual void set_en_nmi(bool en);
 
   virtual void mk_hw_elements(void);
   virtual void make_cpu_hw(void);
-- 
2.43.0


From 821021ab9bc94397c860a21385f3f39313267601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 062/256] fix: hole: looking for holes does not read through
 the hardware

---
 src/core/cmd.src/cmd_uc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_uc.cc b/src/core/cmd.src/cmd_uc.cc
index 9f29be8..2966023 100644
--- a/src/core/cmd.src/cmd_uc.cc
+++ b/src/core/cmd.src/cmd_uc.cc
@@ -782,7 +782,7 @@ COMMAND_DO_WORK_UC(cl_hole_cmd)
       //	     l, h, a, v);
       for (ad= l; ad <= h; ad++)
 	{
-	  mv= m->read(ad);
+	  mv= m->get(ad);
 	  if (!in && (mv==v))
 	    {
 	      // found start
-- 
2.43.0


From 44aeeb6f56d7820093fe3be08cec3eb5861d4a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 063/256] fix: m6809: EXG handles the program counter

---
 src/sims/m6809.src/m6809.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 837c8d7..3247032 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1434,8 +1434,15 @@ cl_m6809::inst_10(t_mem code)
 	    u16_t *R2= reg16_ptr[r2&7];
 	    u16_t t;
 	    t= (R1)?*R1:PC;
-	    *R1= (R2)?*R2:PC;
-	    *R2= t;
+	    u16_t t2= (R2)?*R2:PC;
+	    if (R1)
+	      *R1= t2;
+	    else
+	      PC= t2;
+	    if (R2)
+	      *R2= t;
+	    else
+	      PC= t;
 	  }
 	else
 	  {
-- 
2.43.0


From 6ff7438827be211c9240c5d331f7ad7ce59abfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 064/256] fix: state: memory chips of oisc and of the pblaze
 stack are as wide as their cells

---
 src/sims/oisc.src/oisc.cc     | 2 +-
 src/sims/pblaze.src/pblaze.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/oisc.src/oisc.cc b/src/sims/oisc.src/oisc.cc
index d700689..4f86e98 100644
--- a/src/sims/oisc.src/oisc.cc
+++ b/src/sims/oisc.src/oisc.cc
@@ -112,7 +112,7 @@ cl_oisc::make_memories(void)
   as->init();
   address_spaces->add(as);
 
-  chip= new cl_chip8("rom_chip", 0x10000, 16, 0);
+  chip= new cl_chip16("rom_chip", 0x10000, 16, 0);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as= rom,
diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index e5dc5f0..bd29771 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -226,7 +226,7 @@ cl_pblaze::make_memories(void)
   ad->activate(0);
 
   // stack chip
-  chip = new cl_chip8("stack_chip", stack_size, 12);
+  chip = new cl_chip16("stack_chip", stack_size, 12);
   chip->init();
   memchips->add(chip);
   ad= new cl_address_decoder(as = address_space(MEM_STACK_ID), chip, 0, stack_size-1, 0);
-- 
2.43.0


From a929ba498e66bc7815342f18641b368e1c2abacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 065/256] fix: hc12, m6800: disassembling does not read memory
 through the hardware

---
 src/core/motorola.src/m6800.cc  | 18 ++++++++++++----
 src/core/motorola.src/m6800cl.h |  1 +
 src/sims/m68hc12.src/dis.cc     | 38 ++++++++++++++++-----------------
 src/sims/m68hc12.src/m68hc12.cc | 20 ++++++++---------
 4 files changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 4aba681..44a77d6 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -401,7 +401,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(++addr);
@@ -413,7 +413,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(++addr);
@@ -423,7 +423,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -431,7 +431,7 @@ cl_m6800::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, ++addr));
+			   peek_addr(rom, ++addr));
 	      break;
 	    case 'r': // relative
 	      work.appendf("$%04x",
@@ -459,6 +459,16 @@ cl_m6800::inst_length(t_addr addr)
   return 1;
 }
 
+// read_addr() without effects of reading
+t_addr
+cl_m6800::peek_addr(class cl_memory *m, t_addr start_addr)
+{
+  u8_t h, l;
+  h= m->get(start_addr);
+  l= m->get(start_addr+1);
+  return h*256 + l;
+}
+
 t_addr
 cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
diff --git a/src/core/motorola.src/m6800cl.h b/src/core/motorola.src/m6800cl.h
index c899a13..13f0ba0 100644
--- a/src/core/motorola.src/m6800cl.h
+++ b/src/core/motorola.src/m6800cl.h
@@ -190,6 +190,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr peek_addr(class cl_memory *m, t_addr start_addr);
   virtual int inst_length(t_addr addr);
   virtual int longest_inst(void) { return 4; }
   
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index c5fcfc7..6892d74 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -201,17 +201,17 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "IMEX") == 0)
 	    {
-	      u16_t i= read_addr(rom, addr+2);
-	      u16_t e= read_addr(rom, addr+4);
+	      u16_t i= peek_addr(rom, addr+2);
+	      u16_t e= peek_addr(rom, addr+4);
 	      work.appendf("#$%04x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
-	      comment->appendf("; [%04x]=%04x", e, read_addr(rom, e));
+	      comment->appendf("; [%04x]=%04x", e, peek_addr(rom, e));
 	    }
 	  if (strcmp(fmt.c_str(), "imex") == 0)
 	    {
 	      u8_t i= rom->get(addr+2);
-	      u16_t e= read_addr(rom, addr+3);
+	      u16_t e= peek_addr(rom, addr+3);
 	      work.appendf("#$%02x", i);
 	      work.append(", ");
 	      work.appendf("$%04x", e);
@@ -219,19 +219,19 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "EXEX") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
 	      comment->appendf("; [%04x]=%04x [%04x]=%04x",
-			       s, read_addr(rom, s),
-			       d, read_addr(rom, d));
+			       s, peek_addr(rom, s),
+			       d, peek_addr(rom, d));
 	    }
 	  if (strcmp(fmt.c_str(), "exex") == 0)
 	    {
-	      u16_t s= read_addr(rom, addr+2);
-	      u16_t d= read_addr(rom, addr+4);
+	      u16_t s= peek_addr(rom, addr+2);
+	      u16_t d= peek_addr(rom, addr+4);
 	      work.appendf("$%04x", s);
 	      work.append(", ");
 	      work.appendf("$%04x", d);
@@ -249,7 +249,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      disass_xb(&aof_xb, &work, comment, 2, xb_PC(xb)?-2:0);
 	      work.append(", ");
 	      work.appendf("$%04x", adst= h*256+l);
-	      comment->appendf(" [%04x]=%04x", adst, read_addr(rom,adst));
+	      comment->appendf(" [%04x]=%04x", adst, peek_addr(rom,adst));
 	    }
 	  if (strcmp(fmt.c_str(), "idex") == 0)
 	    {
@@ -265,12 +265,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	    }
 	  if (strcmp(fmt.c_str(), "em") == 0) // EMACS
 	    {
-	      u16_t a= read_addr(rom, addr+2);
-	      u32_t m= (read_addr(rom, a)<<16) + (read_addr(rom, a+2));
+	      u16_t a= peek_addr(rom, addr+2);
+	      u32_t m= (peek_addr(rom, a)<<16) + (peek_addr(rom, a+2));
 	      work.appendf("$%04x", a);
 	      comment->appendf("; [X=%04x]=%04x,%+d [Y=%04x]=%04x,%+d [%04x]=%08x,%+d",
-			       rX, read_addr(rom, rX), (int)read_addr(rom, rX),
-			       rY, read_addr(rom, rY), (int)read_addr(rom, rY),
+			       rX, peek_addr(rom, rX), (int)peek_addr(rom, rX),
+			       rY, peek_addr(rom, rY), (int)peek_addr(rom, rY),
 			       a, m, int(m));
 	    }
 	  continue;
@@ -291,7 +291,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      if (b[i]=='x')
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
-		temp.appendf("; [$%04x]=$%04x", a, read_addr(rom, a));
+		temp.appendf("; [$%04x]=$%04x", a, peek_addr(rom, a));
 	      break;
 	    case 'e': case 'E': // extended
 	      h= rom->get(addr+1);
@@ -303,7 +303,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(addr+1);
@@ -313,7 +313,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 		temp.appendf("; [$%04x]=$%02x", a, rom->get(a));
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
-			     read_addr(rom, a));
+			     peek_addr(rom, a));
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
@@ -321,7 +321,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
-			   read_addr(rom, addr+1));
+			   peek_addr(rom, addr+1));
 	      break;
 	    case 'r': // relative 8 bit offset
 	      work.appendf("$%04x",
diff --git a/src/sims/m68hc12.src/m68hc12.cc b/src/sims/m68hc12.src/m68hc12.cc
index e0d4a9e..e1bd19d 100644
--- a/src/sims/m68hc12.src/m68hc12.cc
+++ b/src/sims/m68hc12.src/m68hc12.cc
@@ -333,7 +333,7 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
 
   if (addr)
     {
-      p= rom->read(*addr);
+      p= rom->get(*addr);
       (*addr)++;
     }
   else
@@ -381,9 +381,9 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       ioffset= rD;
       a= (u16_t)(ival+ioffset);
       if (pg)
-	*pg= rom->read(a+2);
+	*pg= (addr)?rom->get(a+2):rom->read(a+2);
       xb_tick_shift= 2;
-      return (u16_t)read_addr(rom, a);      
+      return (u16_t)((addr)?peek_addr(rom, a):read_addr(rom, a));
       break;
   
     case 5: // 5. 111r r011 [n16,r] rr={X,Y,SP,PC}
@@ -403,9 +403,9 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
 	}
       if (addr)
 	{
-	  h= rom->read(*addr);
+	  h= rom->get(*addr);
 	  (*addr)++;
-	  l= rom->read(*addr);
+	  l= rom->get(*addr);
 	  (*addr)++;
 	}
       else
@@ -416,9 +416,9 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
       ioffset= h*256+l;
       a= (u16_t)(ival+ioffset);
       if (pg)
-	*pg= rom->read(a+2);
+	*pg= (addr)?rom->get(a+2):rom->read(a+2);
       xb_tick_shift= 2;
-      return (u16_t)read_addr(rom, a);
+      return (u16_t)((addr)?peek_addr(rom, a):read_addr(rom, a));
       break;
   
     case 3: // 3. rr1p nnnn n4,+-r+- rr={X,Y,SP}
@@ -471,7 +471,7 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
 	  // 9 bit
 	  if (addr)
 	    {
-	      ioffset= rom->read(*addr);
+	      ioffset= rom->get(*addr);
 	      (*addr)++;
 	    }
 	  else
@@ -484,9 +484,9 @@ CL12::naddr(t_addr *addr /* of xb */, u8_t *pg, u32_t use_PC)
 	  // 16 bit
 	  if (addr)
 	    {
-	      h= rom->read(*addr);
+	      h= rom->get(*addr);
 	      (*addr)++;
-	      l= rom->read(*addr);
+	      l= rom->get(*addr);
 	      (*addr)++;
 	    }
 	  else
-- 
2.43.0


From 913855defa585b12d475a36158a561da03fb66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 066/256] fix: lists: more than 8192 items do not overrun the
 allocated memory

---
 src/core/utils.src/pobjt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/utils.src/pobjt.h b/src/core/utils.src/pobjt.h
index 0f5238f..7287c80 100644
--- a/src/core/utils.src/pobjt.h
+++ b/src/core/utils.src/pobjt.h
@@ -35,7 +35,7 @@ typedef int	t_index;
 typedef int	(*match_func)(const void *, const void *);
 typedef void	(*iterator_func)(const void *, const void *);
 
-#define max_list_size (0x10000/sizeof(void *))
+#define max_list_size (0x7fffffff/sizeof(void *))
 #define ccNotFound -1
 
 
-- 
2.43.0


From 626628d39da8d0197495d492f15c9ea73ba513b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 067/256] fix: rabbit: POP of a 32 bit register shifts the
 upper bytes to their place

---
 src/sims/rxk.src/imove.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/rxk.src/imove.cc b/src/sims/rxk.src/imove.cc
index 006819a..f3e5147 100644
--- a/src/sims/rxk.src/imove.cc
+++ b/src/sims/rxk.src/imove.cc
@@ -1746,9 +1746,9 @@ cl_r4k::pop_pd(class cl_cell32 &pd)
   u16_t a= rSP;
   u32_t v;
   v= rom->read(a++);
-  v+= rom->read(a++)>>8;
-  v+= rom->read(a++)>>16;
-  v+= rom->read(a++)>>24;
+  v+= (u32_t)(rom->read(a++))<<8;
+  v+= (u32_t)(rom->read(a++))<<16;
+  v+= (u32_t)(rom->read(a++))<<24;
   vc.rd+= 4;
   pd.W(v);
   cSP.W(a);
-- 
2.43.0


From ef102e81767d8346bbd94da0773f47f8b0a810d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 068/256] fix: z80: length of ADD HL,DE is one byte

---
 src/sims/z80.src/glob.cc      | 2 +-
 src/sims/z80.src/glob_gb80.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 35a8d3f..fe7ea8a 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -68,7 +68,7 @@ struct dis_entry disass_z80[]= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c823420..fa2c744 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -70,7 +70,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
   { 0x0017, 0x00ff, ' ', 1, "RLA" },
 
   { 0x0018, 0x00ff, 'R', 2, "JR %d" },
-  { 0x0019, 0x00ff, ' ', 3, "ADD HL,DE" },
+  { 0x0019, 0x00ff, ' ', 1, "ADD HL,DE" },
   { 0x001a, 0x00ff, ' ', 1, "LD A,(DE)" },
   { 0x001b, 0x00ff, ' ', 1, "DEC DE" },
   { 0x001c, 0x00ff, ' ', 1, "INC E" },
-- 
2.43.0


From b422602acaf78ac5ee6ce197bfe8a7ddf90befd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 069/256] fix: z80: length and operand of ED prefixed 16 bit
 loads from and to memory

---
 src/sims/z80.src/glob.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index fe7ea8a..d98f508 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -380,7 +380,7 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-  { 0x0043, 0x00ff, ' ', 1, "LD (nnnn),BC" },
+  { 0x0043, 0x00ff, ' ', 3, "LD (%w),BC" },
   { 0x0044, 0x00ff, ' ', 1, "NEG" },
   { 0x0045, 0x00ff, ' ', 1, "RETN" },
   { 0x0046, 0x00ff, ' ', 1, "IM 0" },
@@ -388,39 +388,39 @@ struct dis_entry disass_z80_ed[]= {
   { 0x0048, 0x00ff, ' ', 1, "IN C,(C)" },
   { 0x0049, 0x00ff, ' ', 1, "OUT (C),C" },
   { 0x004A, 0x00ff, ' ', 1, "ADC HL,BC" },
-  { 0x004B, 0x00ff, ' ', 1, "LD BC,(nnnn)" },
+  { 0x004B, 0x00ff, ' ', 3, "LD BC,(%w)" },
   { 0x004D, 0x00ff, ' ', 1, "RETI" },
   { 0x004F, 0x00ff, ' ', 1, "LD R,A" },
   { 0x0050, 0x00ff, ' ', 1, "IN D,(C)" },
   { 0x0051, 0x00ff, ' ', 1, "OUT (C),D" },
   { 0x0052, 0x00ff, ' ', 1, "SBC HL,DE" },
-  { 0x0053, 0x00ff, ' ', 1, "LD (nnnn),DE" },
+  { 0x0053, 0x00ff, ' ', 3, "LD (%w),DE" },
   { 0x0056, 0x00ff, ' ', 1, "IM 1" },
   { 0x0057, 0x00ff, ' ', 1, "LD A,IV" },
   { 0x0058, 0x00ff, ' ', 1, "IN E,(C)" },
   { 0x0059, 0x00ff, ' ', 1, "OUT (C),E" },
   { 0x005A, 0x00ff, ' ', 1, "ADC HL,DE" },
-  { 0x005B, 0x00ff, ' ', 1, "LD DE,(nnnn)" },
+  { 0x005B, 0x00ff, ' ', 3, "LD DE,(%w)" },
   { 0x005E, 0x00ff, ' ', 1, "IM 2" },
   { 0x005F, 0x00ff, ' ', 1, "LD A,R" },
   { 0x0060, 0x00ff, ' ', 1, "IN H,(C)" },
   { 0x0061, 0x00ff, ' ', 1, "OUT (C),H" },
   { 0x0062, 0x00ff, ' ', 1, "SBC HL,HL" },
-  { 0x0063, 0x00ff, ' ', 1, "LD (nnnn),HL" },
+  { 0x0063, 0x00ff, ' ', 3, "LD (%w),HL" },
   { 0x0067, 0x00ff, ' ', 1, "RRD" },
   { 0x0068, 0x00ff, ' ', 1, "IN L,(C)" },
   { 0x0069, 0x00ff, ' ', 1, "OUT (C),L" },
   { 0x006A, 0x00ff, ' ', 1, "ADC HL,HL" },
-  { 0x006B, 0x00ff, ' ', 1, "LD HL,(nnnn)" },
+  { 0x006B, 0x00ff, ' ', 3, "LD HL,(%w)" },
   { 0x006F, 0x00ff, ' ', 1, "RLD" },
   { 0x0070, 0x00ff, ' ', 1, "IN (C)" },
   { 0x0071, 0x00ff, ' ', 1, "OUT (C),0" },
   { 0x0072, 0x00ff, ' ', 1, "SBC HL,SP" },
-  { 0x0073, 0x00ff, ' ', 1, "LD (nnnn),SP" },
+  { 0x0073, 0x00ff, ' ', 3, "LD (%w),SP" },
   { 0x0078, 0x00ff, ' ', 1, "IN A,(C)" },
   { 0x0079, 0x00ff, ' ', 1, "OUT (C),A" },
   { 0x007A, 0x00ff, ' ', 1, "ADC HL,SP" },
-  { 0x007B, 0x00ff, ' ', 1, "LD SP,(nnnn)" },
+  { 0x007B, 0x00ff, ' ', 3, "LD SP,(%w)" },
   { 0x00A0, 0x00ff, ' ', 1, "LDI" },
   { 0x00A1, 0x00ff, ' ', 1, "CPI" },
   { 0x00A2, 0x00ff, ' ', 1, "INI" },
-- 
2.43.0


From fc6112a15ddffb928bbbe3d19bef9b281ca53b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 070/256] fix: gb80: LD between A and (0xFF00+C) is one byte
 long

---
 src/sims/z80.src/glob_gb80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index fa2c744..c161921 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -313,7 +313,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00e0, 0x00ff, ' ', 2, "LDH (0xFF00+%b),A" },  // unique to GB80
   { 0x00e1, 0x00ff, ' ', 1, "POP HL" },
-  { 0x00e2, 0x00ff, 'A', 2, "LD (0xFF00+C),A" },  // unique to GB80
+  { 0x00e2, 0x00ff, 'A', 1, "LD (0xFF00+C),A" },  // unique to GB80
   { 0x00e3, 0x00ff, ' ', 1, "Illegal Op" },
   { 0x00e4, 0x00ff, 'l', 1, "Illegal Op" },
   { 0x00e5, 0x00ff, ' ', 1, "PUSH HL" },
@@ -331,7 +331,7 @@ struct dis_entry /*DISASS_NAME()*/disass_gb80 []= {
 
   { 0x00f0, 0x00ff, ' ', 2, "LDH A,(0xFF00+%b)" },  // unique to GB80
   { 0x00f1, 0x00ff, ' ', 1, "POP AF" },
-  { 0x00f2, 0x00ff, ' ', 2, "LD A,(0xFF00+C)" },  // unique to GB80
+  { 0x00f2, 0x00ff, ' ', 1, "LD A,(0xFF00+C)" },  // unique to GB80
   { 0x00f3, 0x00ff, ' ', 1, "DI" },
   { 0x00f4, 0x00ff, 'l', 3, "Illegal Op" },
   { 0x00f5, 0x00ff, ' ', 1, "PUSH AF" },
-- 
2.43.0


From eca936e317eb5c052da0425fa991c3fa23ef1ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 071/256] fix: i8085: instruction length considers opcodes
 specific to the CPU type

---
 src/sims/i8085.src/i8080.cc  | 9 +++++++++
 src/sims/i8085.src/i8080cl.h | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 5011a57..306a01e 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -264,6 +264,15 @@ cl_i8080::dis_rp16(chars *comment, int rp)
   comment->appendf("[0x%04x]= 0x%04x", a, read_addr(rom, a));
 }
 
+int
+cl_i8080::inst_length(t_addr addr)
+{
+  struct dis_entry *de= get_dis_entry(addr);
+  if (!de || !de->mnemonic)
+    return 1;
+  return de->length;
+}
+
 char *
 cl_i8080::disassc(t_addr addr, chars *comment)
 {
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index b4b3abd..ff4fa3f 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -140,6 +140,7 @@ public:
   virtual int clock_per_cycle(void) { return 1; }
   virtual struct dis_entry *dis_tbl(void);
   virtual struct dis_entry *get_dis_entry(t_addr addr);
+  virtual int inst_length(t_addr addr);
   virtual void dis_M(chars *comment);
   virtual void dis_rp8(chars *comment, int rp);
   virtual void dis_rp16(chars *comment, int rp);
-- 
2.43.0


From d12bf0a422bae87034e0d9cf674837c972de5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 072/256] fix: f8: instruction lengths in the disassembler
 table

---
 src/sims/f8.src/glob.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index b85a098..8a30eb1 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -89,7 +89,7 @@ struct dis_entry disass_f8[]=
     { 0xce, 0xff, ' ', 2, "ldw ('nA_16'),%R" },
     { 0x70, 0xff, ' ', 1, "ldw %A, sp" },
     { 0x74, 0xff, ' ', 2, "ldw (('nsp_16')),%A" },
-    { 0xdc, 0xff, ' ', 2, "ldw %A,z" },
+    { 0xdc, 0xff, ' ', 1, "ldw %A,z" },
     { 0xde, 0xff, ' ', 2, "ldw %R,(%A)" },
 
     { 0xed, 0xff, ' ', 2, "ldi ('ny_8'),(z)" },
@@ -98,7 +98,7 @@ struct dis_entry disass_f8[]=
     { 0x60, 0xff, ' ', 3, "push 'a16_8'" },
     { 0x61, 0xff, ' ', 2, "push ('nsp_8')" },
     { 0x62, 0xff, ' ', 1, "push %a" },
-    { 0x63, 0xff, ' ', 1, "push ('ny_8')" },
+    { 0x63, 0xff, ' ', 2, "push ('ny_8')" },
     { 0x90, 0xff, ' ', 2, "push #'i8'" },
 
     { 0xb0, 0xff, ' ', 3, "pushw 'a16_16'" },
@@ -114,7 +114,7 @@ struct dis_entry disass_f8[]=
     { 0x92, 0xff, ' ', 1, "xch %a,('y_8')" },
     { 0x93, 0xff, ' ', 1, "xch %L,%H" },
     { 0xf4, 0xff, ' ', 1, "xchw %R,('%A')" },
-    { 0xf5, 0xff, ' ', 1, "xchw %A,('nsp_16')" },
+    { 0xf5, 0xff, ' ', 2, "xchw %A,('nsp_16')" },
 
     { 0x9b, 0xff, ' ', 1, "cax ('y_8'),xh,yl" },
     { 0xf9, 0xff, ' ', 1, "caxw ('y_16'),z,x" },
@@ -122,7 +122,7 @@ struct dis_entry disass_f8[]=
     { 0x58, 0xff, ' ', 3, "clr 'a16_8'" },
     { 0x59, 0xff, ' ', 2, "clr ('nsp_8')" },
     { 0x5a, 0xff, ' ', 1, "clr %a" },
-    { 0x5b, 0xff, ' ', 1, "clr zh" },
+    { 0x5b, 0xff, ' ', 2, "clr ('ny_8')" },
     { 0xa0, 0xff, ' ', 3, "clrw 'a16_16'" },
     { 0xa1, 0xff, ' ', 2, "clrw ('nsp_16')" },
     { 0xa2, 0xff, ' ', 3, "clrw ('nnz_16')" },
@@ -235,32 +235,32 @@ struct dis_entry disass_f8[]=
     { 0x40, 0xff, ' ', 3, "srl 'a16_8'" },
     { 0x41, 0xff, ' ', 2, "srl ('nsp_8')" },
     { 0x42, 0xff, ' ', 1, "srl %a" },
-    { 0x43, 0xff, ' ', 1, "srl ('ny_8')" },
+    { 0x43, 0xff, ' ', 2, "srl ('ny_8')" },
     { 0x44, 0xff, ' ', 3, "sll 'a16_8'" },
     { 0x45, 0xff, ' ', 2, "sll ('nsp_8')" },
     { 0x46, 0xff, ' ', 1, "sll %a" },
-    { 0x47, 0xff, ' ', 1, "sll ('ny_8')" },
+    { 0x47, 0xff, ' ', 2, "sll ('ny_8')" },
     { 0x48, 0xff, ' ', 3, "rrc 'a16_8'" },
     { 0x49, 0xff, ' ', 2, "rrc ('nsp_8')" },
     { 0x4a, 0xff, ' ', 1, "rrc %a" },
-    { 0x4b, 0xff, ' ', 1, "rrc ('ny_8')" },
+    { 0x4b, 0xff, ' ', 2, "rrc ('ny_8')" },
     { 0x4c, 0xff, ' ', 3, "rlc 'a16_8'" },
     { 0x4d, 0xff, ' ', 2, "rlc ('nsp_8')" },
     { 0x4e, 0xff, ' ', 1, "rlc %a" },
-    { 0x4f, 0xff, ' ', 1, "rlc ('ny_8')" },
+    { 0x4f, 0xff, ' ', 2, "rlc ('ny_8')" },
 
     { 0x50, 0xff, ' ', 3, "inc 'a16_8'" },
     { 0x51, 0xff, ' ', 2, "inc ('nsp_8')" },
     { 0x52, 0xff, ' ', 1, "inc %a" },
-    { 0x53, 0xff, ' ', 1, "inc ('ny_8')" },
+    { 0x53, 0xff, ' ', 2, "inc ('ny_8')" },
     { 0x54, 0xff, ' ', 3, "dec 'a16_8'" },
     { 0x55, 0xff, ' ', 2, "dec ('nsp_8')" },
     { 0x56, 0xff, ' ', 1, "dec %a" },
-    { 0x57, 0xff, ' ', 1, "dec ('ny_8')" },
+    { 0x57, 0xff, ' ', 2, "dec ('ny_8')" },
     { 0x5c, 0xff, ' ', 3, "tst 'a16_8'" },
     { 0x5d, 0xff, ' ', 2, "tst ('nsp_8')" },
     { 0x5e, 0xff, ' ', 1, "tst %a" },
-    { 0x5f, 0xff, ' ', 1, "tst ('ny_8')" },
+    { 0x5f, 0xff, ' ', 2, "tst ('ny_8')" },
 
     { 0xa4, 0xff, ' ', 3, "incw 'a16_16'" },
     { 0xa5, 0xff, ' ', 2, "incw ('nsp_16')" },
-- 
2.43.0


From aecf743b27c2d57a8b45bf1a28bb4d215682b4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 073/256] fix: i8048: length of ENT0 CLK and ANL BUS,#n

---
 src/sims/i8048.src/decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 7b12907..5c652ab 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 2, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -168,7 +168,7 @@ DEC( 94, CALL4  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8-2-" ) //48,22
 DEC( 95, CPLF0		, "cpl f0"	, ' ', 1, false, 1, (void*)"84--" ) //48,41
 DEC( 96, JNZ		, "jnz 'a8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 97, CLRC		, "clr c"	, ' ', 1, false, 1, (void*)"8421" )
-DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 1, false, 2, (void*)"8---" ) //48
+DEC( 98, ANLBUSI8	, "anl bus,'i8'", ' ', 2, false, 2, (void*)"8---" ) //48
 DEC( 99, ANLP1I8	, "anl p1,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9a, ANLP2I8	, "anl p2,'i8'"	, ' ', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 9c, ANLDP4A	, "anl p4,a"	, ' ', 1, false, 2, (void*)"8421" )
-- 
2.43.0


From 101cc3ec8286b2e0263c6b39279ae2f53e81de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 074/256] fix: hc08: length of DBNZ n,X; DBNZ n,SP and MOV n,X+

---
 src/sims/m68hc08.src/glob.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m68hc08.src/glob.cc b/src/sims/m68hc08.src/glob.cc
index 4804935..31339ee 100644
--- a/src/sims/m68hc08.src/glob.cc
+++ b/src/sims/m68hc08.src/glob.cc
@@ -143,7 +143,7 @@ struct dis_entry disass_hc08[]= {
   { 0x005b, 0x00ff, 'R', 2, "dbnzx %p" },
   { 0x005c, 0x00ff, ' ', 1, "incx" },
   { 0x005d, 0x00ff, ' ', 1, "tstx" },
-  { 0x005e, 0x00ff, ' ', 3, "mov %d,x+" },
+  { 0x005e, 0x00ff, ' ', 2, "mov %d,x+" },
   { 0x005f, 0x00ff, ' ', 1, "clrx" },
 
   { 0x0060, 0x00ff, ' ', 2, "neg %1,x" },
@@ -157,7 +157,7 @@ struct dis_entry disass_hc08[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,x" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,x" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,x" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,x,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,x,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,x" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,x" },
   { 0x006e, 0x00ff, ' ', 3, "mov %b,%d" },
@@ -343,7 +343,7 @@ struct dis_entry disass_hc08_9e[]= {
   { 0x0068, 0x00ff, ' ', 2, "lsl %1,sp" },
   { 0x0069, 0x00ff, ' ', 2, "rol %1,sp" },
   { 0x006a, 0x00ff, ' ', 2, "dec %1,sp" },
-  { 0x006b, 0x00ff, 'R', 2, "dbnz %1,sp,%p" },
+  { 0x006b, 0x00ff, 'R', 3, "dbnz %1,sp,%p" },
   { 0x006c, 0x00ff, ' ', 2, "inc %1,sp" },
   { 0x006d, 0x00ff, ' ', 2, "tst %1,sp" },
   { 0x006f, 0x00ff, ' ', 2, "clr %1,sp" },
-- 
2.43.0


From 4d44a62e2bd31863a400519a436ce038afb58fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 075/256] fix: st7: length of CP X,#n

---
 src/sims/st7.src/glob.cc | 100 +++++++++++++++++++--------------------
 1 file changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index 4571a78..b141256 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -122,19 +122,19 @@ struct dis_entry disass_st7[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt %d,#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt %d,#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt %d,#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
-
-  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
-  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
-//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
-  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
-
-//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
-
+  { 0x000c, 0x00ff, ' ', 3, "btjt %d,#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt %d,#7,%p" },
+
+  { 0x00bd, 0x00ff, ' ', 2, "call %d", true },
+  { 0x00cd, 0x00ff, ' ', 3, "call %x", true },
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,X)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,X)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (X)", true },
+//  { 0x008d, 0x00ff, ' ', 4, "callf %e" },
+  { 0x00ad, 0x00ff, ' ', 2, "callr %p", true },
+
+//  { 0x008c, 0x00ff, ' ', 1, "ccf" },
+
 //  { 0x000f, 0x00ff, ' ', 2, "clr (%1,SP)" },
   { 0x003f, 0x00ff, ' ', 2, "clr %d" },
   { 0x004f, 0x00ff, ' ', 1, "clr A" },
@@ -150,7 +150,7 @@ struct dis_entry disass_st7[]= {
   { 0x00e1, 0x00ff, ' ', 2, "cp A,(%1,X)" },
   { 0x00f1, 0x00ff, ' ', 1, "cp A,(X)" },
 //  { 0x0013, 0x00ff, ' ', 2, "cpw X,(%1,SP)" },
-  { 0x00a3, 0x00ff, ' ', 3, "cp X,%w" },
+  { 0x00a3, 0x00ff, ' ', 2, "cp X,%b" },
   { 0x00b3, 0x00ff, ' ', 2, "cp X,%d" },
   { 0x00c3, 0x00ff, ' ', 3, "cp X,%x" },
   { 0x00d3, 0x00ff, ' ', 3, "cp X,(%2,X)" },
@@ -360,13 +360,13 @@ struct dis_entry disass_st7[]= {
   { 0x003d, 0x00ff, ' ', 2, "tnz %d" },
   { 0x004d, 0x00ff, ' ', 1, "tnz A" },
   { 0x006d, 0x00ff, ' ', 2, "tnz (%1,X)" },
-  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
-  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
-
-  { 0x0083, 0x00ff, ' ', 1, "trap", true },
-  { 0x008f, 0x00ff, ' ', 1, "wfi" },
-
-//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
+  { 0x007d, 0x00ff, ' ', 1, "tnz (X)" },
+  { 0x005d, 0x00ff, ' ', 1, "tnz X" },
+
+  { 0x0083, 0x00ff, ' ', 1, "trap", true },
+  { 0x008f, 0x00ff, ' ', 1, "wfi" },
+
+//  { 0x0018, 0x00ff, ' ', 2, "xor A,(%1,SP)" },
   { 0x00a8, 0x00ff, ' ', 2, "xor A,%b" },
   { 0x00b8, 0x00ff, ' ', 2, "xor A,%d" },
   { 0x00c8, 0x00ff, ' ', 3, "xor A,%x" },
@@ -407,15 +407,15 @@ struct dis_entry disass_st7_90[]= {
 //  { 0x0016, 0x00ff, ' ', 3, "bcpl %d,#3" },
 //  { 0x0018, 0x00ff, ' ', 3, "bcpl %d,#4" },
 //  { 0x001a, 0x00ff, ' ', 3, "bcpl %d,#5" },
-//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
-//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
-
-  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
-  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
-
-//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
-  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
+//  { 0x001c, 0x00ff, ' ', 3, "bcpl %d,#6" },
+//  { 0x001e, 0x00ff, ' ', 3, "bcpl %d,#7" },
+
+  { 0x00dd, 0x00ff, ' ', 3, "call (%2,Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call (%1,Y)", true },
+  { 0x00fd, 0x00ff, ' ', 1, "call (Y)", true },
+
+//  { 0x004f, 0x00ff, ' ', 3, "clr (%2,Y)" },
+  { 0x006f, 0x00ff, ' ', 2, "clr (%1,Y)" },
   { 0x007f, 0x00ff, ' ', 1, "clr (Y)" },
   { 0x005f, 0x00ff, ' ', 1, "clr Y" },
 
@@ -554,14 +554,14 @@ struct dis_entry disass_st7_91[]= {
   { 0x00db, 0x00ff, ' ', 2, "add A,([%1.w],Y)" },
   { 0x00eb, 0x00ff, ' ', 2, "add A,([%1],Y)" },
   { 0x00d4, 0x00ff, ' ', 2, "and A,([%1.w],Y)" },
-  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
-  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
-  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
-  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
-  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
-  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
+  { 0x00e4, 0x00ff, ' ', 2, "and A,([%1],Y)" },
+  { 0x00d5, 0x00ff, ' ', 2, "bcp A,([%1.w],Y)" },
+  { 0x00e5, 0x00ff, ' ', 2, "bcp A,([%1],Y)" },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],Y)", true },
+  { 0x00ed, 0x00ff, ' ', 2, "call ([%1],Y)", true },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],Y)" },
+  { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],Y)" },
+  { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],Y)" },
   { 0x00b3, 0x00ff, ' ', 2, "cp Y,[%1]" },
   { 0x00c3, 0x00ff, ' ', 2, "cp Y,[%1.w]" },
   { 0x00d3, 0x00ff, ' ', 2, "cp Y,([%1.w],Y)" },
@@ -657,18 +657,18 @@ struct dis_entry disass_st7_92[]= {
   { 0x0006, 0x00ff, ' ', 3, "btjt [%1],#3,%p" },
   { 0x0008, 0x00ff, ' ', 3, "btjt [%1],#4,%p" },
   { 0x000a, 0x00ff, ' ', 3, "btjt [%1],#5,%p" },
-  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
-  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
-
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
-  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
-  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
-  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
-//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
-  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
-  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
-  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
+  { 0x000c, 0x00ff, ' ', 3, "btjt [%1],#6,%p" },
+  { 0x000e, 0x00ff, ' ', 3, "btjt [%1],#7,%p" },
+
+  { 0x00cd, 0x00ff, ' ', 2, "call [%1]", true },
+  { 0x00cd, 0x00ff, ' ', 2, "call [%1.w]", true },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1.w],X)", true },
+  { 0x00dd, 0x00ff, ' ', 2, "call ([%1],X)", true },
+  { 0x00ad, 0x00ff, ' ', 2, "callr [%1]", true },
+//  { 0x008d, 0x00ff, ' ', 3, "callf [%2.e]", true },
+  { 0x003f, 0x00ff, ' ', 2, "clr [%1]" },
+  { 0x006f, 0x00ff, ' ', 2, "clr ([%1],X)" },
+  { 0x00b1, 0x00ff, ' ', 2, "cp A,[%1]" },
   { 0x00c1, 0x00ff, ' ', 2, "cp A,[%1.w]" },
   { 0x00d1, 0x00ff, ' ', 2, "cp A,([%1.w],X)" },
   { 0x00e1, 0x00ff, ' ', 2, "cp A,([%1],X)" },
-- 
2.43.0


From 64c944771305c9c8583dead0b97697f718075b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 076/256] fix: stm8: opcode a7 is LDF (ext,X),A

---
 src/sims/stm8.src/glob.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index 2e39b50..e83f0f9 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -182,7 +182,6 @@ struct dis_entry disass_stm8[]= {
   { 0x00e6, 0x00ff, ' ', 2, "ld A,(%1,X)" },
   { 0x00f6, 0x00ff, ' ', 1, "ld A,(X)" },
   { 0x006b, 0x00ff, ' ', 2, "ld (%1,SP),A" },
-  { 0x00a7, 0x00ff, ' ', 2, "ld %b,A" },
   { 0x00b7, 0x00ff, ' ', 2, "ld %d,A" },
   { 0x00c7, 0x00ff, ' ', 3, "ld %x,A" },
   { 0x00d7, 0x00ff, ' ', 3, "ld (%2,X),A" },
-- 
2.43.0


From 6e227bd0aea81c434bb9419128e011632e82dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 077/256] fix: tlcs: length of LDW (0ffn),mn

---
 src/sims/tlcs.src/glob.cc         | 2 +-
 src/sims/tlcs.src/glob_mazsola.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 10f6125..2e4731c 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -61,7 +61,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x1e, 0xff, ' ', 1, "RET" },
   { 0x1f, 0xff, ' ', 1, "RETI" },
   { 0x000037, 0x0000ff, 'n', 3, "LD (0xff%n),%N" },
-  { 0x00003f, 0x0000ff, 'm', 3, "LDW (0xff%n),%m" },
+  { 0x00003f, 0x0000ff, 'm', 4, "LDW (0xff%n),%m" },
   { 0x0097, 0x00ff, 'n', 2, "INCW (0xff%n)" },
   { 0x009F, 0x00ff, 'n', 2, "DECW (0xff%n)" },
   { 0xa0, 0xff, ' ', 1, "RLCA" },
diff --git a/src/sims/tlcs.src/glob_mazsola.cc b/src/sims/tlcs.src/glob_mazsola.cc
index 0bcc110..ce8055b 100644
--- a/src/sims/tlcs.src/glob_mazsola.cc
+++ b/src/sims/tlcs.src/glob_mazsola.cc
@@ -61,7 +61,7 @@ struct dis_entry disass_tlcs[]= {
   { 0x1e, 0xff, ' ', 1, "RET" },
   { 0x1f, 0xff, ' ', 1, "RETI" },
   { 0x000037, 0x0000ff, 'n', 3, "LD (0xff%n),%N" },
-  { 0x00003f, 0x0000ff, 'm', 3, "LDW (0xff%n),%m" },
+  { 0x00003f, 0x0000ff, 'm', 4, "LDW (0xff%n),%m" },
   { 0x0097, 0x00ff, 'n', 2, "INCW (0xff%n)" },
   { 0x009F, 0x00ff, 'n', 2, "DECW (0xff%n)" },
   { 0xa0, 0xff, ' ', 1, "RLCA" },
-- 
2.43.0


From 9750d8e161e6c9c9983532fc526324f84562e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 078/256] fix: xa: length of LEA Rd,Rs+offset16

---
 src/sims/xa.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/xa.src/glob.cc b/src/sims/xa.src/glob.cc
index c106a63..df029c7 100644
--- a/src/sims/xa.src/glob.cc
+++ b/src/sims/xa.src/glob.cc
@@ -292,7 +292,7 @@ struct xa_dis_entry disass_xa[]= {
  {1,0xee00,0xff00,' ',2, JNZ,   REL8         }, //  JNZ rel8                   1 1 1 0 1 1 1 0  rel8
  {1,0xec00,0xff00,' ',2, JZ,    REL8         }, //  JZ rel8                    1 1 1 0 1 1 0 0  rel8
  {0,0x4000,0xff88,' ',3, LEA,   REG_REGOFF8  }, //  LEA Rd,Rs+offset8          0 1 0 0 0 0 0 0  0 d d d 0 s s s
- {0,0x4800,0xff88,' ',3, LEA,   REG_REGOFF16 }, //  LEA Rd,Rs+offset16         0 1 0 0 0 0 0 0  0 d d d 0 s s s
+ {0,0x4800,0xff88,' ',4, LEA,   REG_REGOFF16 }, //  LEA Rd,Rs+offset16         0 1 0 0 0 0 0 0  0 d d d 0 s s s
  /* LSR(3?)  */
 
  {0,0x8100,0xf700,' ',2,MOV, REG_REG         },  // MOV Rd, Rs                 1 0 0 0 S 0 0 1  d d d d s s s s
-- 
2.43.0


From ef27d81e97ffdbce05d06b4f3270b616e316ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 079/256] fix: xa: CJNE Rd,direct fetches its operand once

---
 src/sims/xa.src/inst.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sims/xa.src/inst.cc b/src/sims/xa.src/inst.cc
index c70647e..b27e278 100644
--- a/src/sims/xa.src/inst.cc
+++ b/src/sims/xa.src/inst.cc
@@ -580,7 +580,8 @@ int cl_xa::inst_CJNE(uint code, int operands)
        // update C,N,Z
        if (code & 0x800) {  // word op
          int result;
-         int src = get_word_direct( ((code & 0x7)<<4) | fetch1());
+         int daddr = ((code & 0x7)<<8) | fetch1();
+         int src = get_word_direct(daddr);
          int addr = (fetch1() * 2);
          int dst = reg2(RI_F0);
          unsigned char flags;
@@ -595,7 +596,8 @@ int cl_xa::inst_CJNE(uint code, int operands)
            PC += addr;
        } else {
          int result;
-         int src = get_byte_direct( ((code & 0x7)<<4) | fetch1());
+         int daddr = ((code & 0x7)<<8) | fetch1();
+         int src = get_byte_direct(daddr);
          int addr = (fetch1() * 2);
          int dst = reg1(RI_F0);
          unsigned char flags;
-- 
2.43.0


From 10b1a1b93c892593ece51d05038fc63c58cb51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 080/256] fix: hc12: length of JMP ext and of bit instructions
 with indexed operand

---
 src/sims/m68hc12.src/decode12.h | 6 +++---
 src/sims/m68hc12.src/dis.cc     | 3 ++-
 src/sims/m68hc12.src/wfills.h   | 6 +++---
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index e08ae73..77fda25 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -6,14 +6,14 @@ DEC(0, 02,	inxy	, _cY		, "INY"		, ' ', 1	, 1)
 DEC(0, 03,	dexy	, _cY		, "INY"		, ' ', 1	, 1)
 // 04 loop
 DEC(0, 05,	jump	, _xba		, "JMP %p"	, ' ', -2	, 0x643)
-DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 2	, 4)
+DEC(0, 06,	jump	, _ea		, "JMP %e"	, ' ', 3	, 4)
 DEC(0, 07,	bsr	, _NONE		, "BSR %r"	, ' ', 2	, 4)
 DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -4	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -4	, 4)
+DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -3	, 4)
+DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -3	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index 6892d74..c7b8420 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -543,7 +543,8 @@ CL12::inst_length(t_addr addr)
       if (di->length >= 0)
 	return di->length;
       int l= -(di->length);
-      u16_t a= (u16_t)addr+l-1;
+      // index byte follows the opcode
+      u16_t a= (u16_t)addr+((code == 0x18)?2:1);
       u8_t p= rom->get(a);
       int corr= 0;
       if ((di->code == 0x4b)
diff --git a/src/sims/m68hc12.src/wfills.h b/src/sims/m68hc12.src/wfills.h
index 1ae69e6..af9ab65 100644
--- a/src/sims/m68hc12.src/wfills.h
+++ b/src/sims/m68hc12.src/wfills.h
@@ -2,14 +2,14 @@ virtual void fill_0_01() { page0[0x01 ]= wrap_0_01; set_disass(0, 0x01, "MEM", '
 virtual void fill_0_02() { page0[0x02 ]= wrap_0_02; set_disass(0, 0x02, "INY", ' ', 1); set_ticks(0, 0x02, 1); }
 virtual void fill_0_03() { page0[0x03 ]= wrap_0_03; set_disass(0, 0x03, "INY", ' ', 1); set_ticks(0, 0x03, 1); }
 virtual void fill_0_05() { page0[0x05 ]= wrap_0_05; set_disass(0, 0x05, "JMP %p", ' ', -2); set_ticks(0, 0x05, 0x643); }
-virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 2); set_ticks(0, 0x06, 4); }
+virtual void fill_0_06() { page0[0x06 ]= wrap_0_06; set_disass(0, 0x06, "JMP %e", ' ', 3); set_ticks(0, 0x06, 4); }
 virtual void fill_0_07() { page0[0x07 ]= wrap_0_07; set_disass(0, 0x07, "BSR %r", ' ', 2); set_ticks(0, 0x07, 4); }
 virtual void fill_0_08() { page0[0x08 ]= wrap_0_08; set_disass(0, 0x08, "INX", ' ', 1); set_ticks(0, 0x08, 1); }
 virtual void fill_0_09() { page0[0x09 ]= wrap_0_09; set_disass(0, 0x09, "INX", ' ', 1); set_ticks(0, 0x09, 1); }
 virtual void fill_0_0a() { page0[0x0a ]= wrap_0_0a; set_disass(0, 0x0a, "RTC", ' ', 1); set_ticks(0, 0x0a, 7); }
 virtual void fill_0_0b() { page0[0x0b ]= wrap_0_0b; set_disass(0, 0x0b, "RTI", ' ', 1); set_ticks(0, 0x0b, 8); }
-virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -4); set_ticks(0, 0x0c, 4); }
-virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -4); set_ticks(0, 0x0d, 4); }
+virtual void fill_0_0c() { page0[0x0c ]= wrap_0_0c; set_disass(0, 0x0c, "BSET %p,%b", ' ', -3); set_ticks(0, 0x0c, 4); }
+virtual void fill_0_0d() { page0[0x0d ]= wrap_0_0d; set_disass(0, 0x0d, "BCLR %p,%b", ' ', -3); set_ticks(0, 0x0d, 4); }
 virtual void fill_0_0e() { page0[0x0e ]= wrap_0_0e; set_disass(0, 0x0e, "BRSET %p,%b,%r", ' ', -4); set_ticks(0, 0x0e, 5); }
 virtual void fill_0_0f() { page0[0x0f ]= wrap_0_0f; set_disass(0, 0x0f, "BRCLR %p,%b,%r", ' ', -4); set_ticks(0, 0x0f, 5); }
 virtual void fill_0_10() { page0[0x10 ]= wrap_0_10; set_disass(0, 0x10, "ANDCC %b", ' ', 2); set_ticks(0, 0x10, 1); }
-- 
2.43.0


From ba54285f0676353405b4a21c8ebe675b8a249441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 081/256] fix: huc6280: undefined opcodes do not execute as ST0

---
 src/sims/mos6502.src/glob.cc    |  7 +++++++
 src/sims/mos6502.src/huc6280.cc | 16 ++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/sims/mos6502.src/glob.cc b/src/sims/mos6502.src/glob.cc
index 7d48b4f..eb2a7a2 100644
--- a/src/sims/mos6502.src/glob.cc
+++ b/src/sims/mos6502.src/glob.cc
@@ -335,6 +335,13 @@ struct dis_entry disass_huc6280[]=
     { 0xd4, 0xff, ' ', 1, "CSH" },
     { 0xf4, 0xff, ' ', 1, "SET" },
 
+    // undefined opcodes
+    { 0xe2, 0xff, ' ', 1, "NOP" },
+    { 0x5c, 0xff, ' ', 1, "NOP" },
+    { 0xdc, 0xff, ' ', 1, "NOP" },
+    { 0xfc, 0xff, ' ', 1, "NOP" },
+    { 0x0b, 0x0f, ' ', 1, "NOP" },
+
     { 0, 0, 0, 0, 0, 0 }
   };
 
diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index 9781c70..0a3899d 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -59,16 +59,16 @@ cl_huc6280::init(void)
 {
   int i;
   cl_mos6502::init();
-  // Map all 0x_b into NOP 1,1
+  // Map all 0x_b into NOP
   for (i=0x0b; i<=0xfb; i+= 0x10)
-    itab[i]= instruction_wrapper_03;
+    itab[i]= instruction_wrapper_ea;
   // some other non-codes
-  itab[0xe2]= instruction_wrapper_03;
-  itab[0x33]= instruction_wrapper_03;
-  itab[0x63]= instruction_wrapper_03;
-  itab[0x5c]= instruction_wrapper_03;
-  itab[0xdc]= instruction_wrapper_03;
-  itab[0xfc]= instruction_wrapper_03;
+  itab[0xe2]= instruction_wrapper_ea;
+  itab[0x33]= instruction_wrapper_ea;
+  itab[0x63]= instruction_wrapper_ea;
+  itab[0x5c]= instruction_wrapper_ea;
+  itab[0xdc]= instruction_wrapper_ea;
+  itab[0xfc]= instruction_wrapper_ea;
   
   address_spaces->add(mpras);
   memchips->add(mprch);
-- 
2.43.0


From bb7d2f129c2e3ab7d083f06f38f29e210bb2b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 082/256] fix: st7: direct and indirect operands of
 instructions working on Y

---
 src/sims/st7.src/glob.cc |  8 ++++----
 src/sims/st7.src/inst.cc | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index b141256..a183c7e 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -577,12 +577,12 @@ struct dis_entry disass_st7_91[]= {
   { 0x00e7, 0x00ff, ' ', 2, "ld ([%1],Y),A" },
 //  { 0x00a7, 0x00ff, ' ', 2, "ldf ([%2.e],Y),A" },
 //  { 0x00af, 0x00ff, ' ', 2, "ldf A,([%2.e],Y)" },
-  { 0x00be, 0x00ff, ' ', 3, "ld Y,[%1]" },
-  { 0x00ce, 0x00ff, ' ', 3, "ld Y,[%1.w]" },
+  { 0x00be, 0x00ff, ' ', 2, "ld Y,[%1]" },
+  { 0x00ce, 0x00ff, ' ', 2, "ld Y,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 3, "ld Y,([%1.w],Y)" },
   { 0x00ee, 0x00ff, ' ', 3, "ld Y,([%1],Y)" },
-  { 0x00bf, 0x00ff, ' ', 3, "ld [%1],Y" },
-  { 0x00cf, 0x00ff, ' ', 3, "ld [%1.w],Y" },
+  { 0x00bf, 0x00ff, ' ', 2, "ld [%1],Y" },
+  { 0x00cf, 0x00ff, ' ', 2, "ld [%1.w],Y" },
   { 0x00df, 0x00ff, ' ', 3, "ld ([%1.w],Y),Y" },
   { 0x00ef, 0x00ff, ' ', 3, "ld ([%1],Y),Y" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1],Y)" },
diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 986d0ed..d30328c 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -51,9 +51,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
   switch ((code >> 4) & 0x0f) {
 	
     case 0xb:
-	  if ( 0 == prefix) {              // short direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // short direct
 		 resaddr = fetch();
-     } else if ( 0x92 == prefix) {    // short indirect - pointer
+     } else if (( 0x92 == prefix) || ( 0x91 == prefix)) {    // short indirect - pointer
        resaddr = get1(fetch());
 	  } else {
 	    resaddr = ( resHALT);
@@ -61,9 +61,9 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
      break;
      
     case 0xc:
-	  if ( 0 == prefix) {              // long direct
+	  if (( 0 == prefix) || ( 0x90 == prefix)) {              // long direct
 		resaddr = fetch2();
-	  } else if ( 0x92 == prefix) {    // long indirect - pointer is under 0x100
+	  } else if (( 0x92 == prefix) || ( 0x91 == prefix)) {    // long indirect - pointer is under 0x100
        ftc = fetch();
        resaddr = get2(ftc);
 	  } else {
@@ -523,13 +523,13 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
         break;
       case 6: // JRNM / JRM
         taken = !(regs.CC & BIT_I);
-        break;
-      case 7: // JRIL - interrupt low - no means to test this ???
-        taken = 1; 
-        break;
-      default:
-        return(resHALT);
-    } 
+        break;
+      case 7: // JRIL - interrupt low - no means to test this ???
+        taken = 1; 
+        break;
+      default:
+        return(resHALT);
+    } 
   if (code & 1)
     taken = ! taken;
   
-- 
2.43.0


From b1f19d4c0e7041ba8ea8f6c5b6e8bacd65f7011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 083/256] fix: st7: JP jumps to the effective address

---
 src/sims/st7.src/st7.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 7b4f4d0..e0117e3 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = OPERAND(code, cprefix);
+            PC = fetchea(code, cprefix);
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 6453191e75c16b2355e314cb2fe7fba4af1f7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:27 +0000
Subject: [PATCH 084/256] fix: f8: length of LDW r,(A)

---
 src/sims/f8.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index 8a30eb1..d8fe1b5 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -90,7 +90,7 @@ struct dis_entry disass_f8[]=
     { 0x70, 0xff, ' ', 1, "ldw %A, sp" },
     { 0x74, 0xff, ' ', 2, "ldw (('nsp_16')),%A" },
     { 0xdc, 0xff, ' ', 1, "ldw %A,z" },
-    { 0xde, 0xff, ' ', 2, "ldw %R,(%A)" },
+    { 0xde, 0xff, ' ', 1, "ldw %R,(%A)" },
 
     { 0xed, 0xff, ' ', 2, "ldi ('ny_8'),(z)" },
     { 0xcf, 0xff, ' ', 2, "ldwi ('ny16'),(z)" },
-- 
2.43.0


From 3ee011649962341247674af776fe599e867a0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:58 +0000
Subject: [PATCH 085/256] fix: hc12: BSET and BCLR fetch the operand address
 before the mask

---
 src/sims/m68hc12.src/decode12.h  | 12 ++++++------
 src/sims/m68hc12.src/hcwrapcl.h  |  6 ------
 src/sims/m68hc12.src/m68hc12cl.h |  2 ++
 src/sims/m68hc12.src/wdefs.h     | 12 ++++++------
 4 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/sims/m68hc12.src/decode12.h b/src/sims/m68hc12.src/decode12.h
index 77fda25..443fedd 100644
--- a/src/sims/m68hc12.src/decode12.h
+++ b/src/sims/m68hc12.src/decode12.h
@@ -12,8 +12,8 @@ DEC(0, 08,	inxy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 09,	dexy	, _cX		, "INX"		, ' ', 1	, 1)
 DEC(0, 0a,	rtc	, _NONE	 	, "RTC"		, ' ', 1	, 7)
 DEC(0, 0b,	rti	, _NONE	 	, "RTI"		, ' ', 1	, 8)
-DEC(0, 0c,	Or	, _xb_i8	, "BSET %p,%b"	, ' ', -3	, 4)
-DEC(0, 0d,	And	, _xb_i8n	, "BCLR %p,%b"	, ' ', -3	, 4)
+DEC(0, 0c,	bset	, _xb		, "BSET %p,%b"	, ' ', -3	, 4)
+DEC(0, 0d,	bclr	, _xb		, "BCLR %p,%b"	, ' ', -3	, 4)
 DEC(0, 0e,	brset_id, _NONE		, "BRSET %p,%b,%r", ' ', -4	, 5)
 DEC(0, 0f,	brclr_id, _NONE		, "BRCLR %p,%b,%r", ' ', -4	, 5)
 
@@ -29,8 +29,8 @@ DEC(0, 17,	jsr	, _da	 	, "JSR %d"	, ' ', 2	, 4)
 DEC(0, 19,	lea	, _cY		, "LEAY %p"	, ' ', -2	, 0x532)
 DEC(0, 1a,	lea	, _cX		, "LEAX %p"	, ' ', -2	, 0x532)
 DEC(0, 1b,	lea	, _cS		, "LEAS %p"	, ' ', -2	, 0x532)
-DEC(0, 1c,	Or	, _e_i8		, "BSET %e,%b"	, ' ', 4	, 4)
-DEC(0, 1d,	And	, _e_i8n	, "BCLR %e,%b"	, ' ', 4	, 4)
+DEC(0, 1c,	bset	, _e		, "BSET %e,%b"	, ' ', 4	, 4)
+DEC(0, 1d,	bclr	, _e		, "BCLR %e,%b"	, ' ', 4	, 4)
 DEC(0, 1e,	brset_e	, _NONE		, "BRSET %e,%b,%r", ' ', 5	, 5)
 DEC(0, 1f,	brclr_e	, _NONE		, "BRCLR %e,%b,%r", ' ', 5	, 5)
 
@@ -80,8 +80,8 @@ DEC(0, 48,	asl	, _cA	 	, "ASLA"	, ' ', 1	, 1)
 DEC(0, 49,	lsr16	, _cD		, "LSRD"	, ' ', 1	, 1)
 DEC(0, 4a,	call_e	, _NONE		, "CALL 'ep'"	, ' ', 4	, 7)
 DEC(0, 4b,	call_id	, _NONE		, "CALL 'ip'"	, ' ', -2	, 0xa98)
-DEC(0, 4c,	Or	, _d_i8		, "BSET %d,%b"	, ' ', 3	, 4)
-DEC(0, 4d,	And	, _d_i8n	, "BCLR %d,%b"	, ' ', 3	, 4)
+DEC(0, 4c,	bset	, _d		, "BSET %d,%b"	, ' ', 3	, 4)
+DEC(0, 4d,	bclr	, _d		, "BCLR %d,%b"	, ' ', 3	, 4)
 DEC(0, 4e,	brset_d	, _NONE		, "BRSET %d,%b,%r", ' ', 4	, 5)
 DEC(0, 4f,	brclr_d	, _NONE		, "BRCLR %d,%b,%r", ' ', 4	, 5)
 
diff --git a/src/sims/m68hc12.src/hcwrapcl.h b/src/sims/m68hc12.src/hcwrapcl.h
index 898df3f..b623e67 100644
--- a/src/sims/m68hc12.src/hcwrapcl.h
+++ b/src/sims/m68hc12.src/hcwrapcl.h
@@ -46,8 +46,6 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #define _d		uc->ddst()
 #define _d_Aop		uc->ddst(),uc->acc.DAB.a8.Ar
 #define _d_Bop		uc->ddst(),uc->acc.DAB.a8.Br
-#define _d_i8		uc->ddst(),uc->i8()
-#define _d_i8n		uc->ddst(),~(uc->i8())
 
 #define _da		uc->daddr()
 #define _da_Dop		uc->daddr(),uc->acc.DAB.Dr
@@ -58,8 +56,6 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #define _e		uc->edst()
 #define _e_Aop		uc->edst(),uc->acc.DAB.a8.Ar
 #define _e_Bop		uc->edst(),uc->acc.DAB.a8.Br
-#define _e_i8		uc->edst(),uc->i8()
-#define _e_i8n		uc->edst(),~(uc->i8())
 
 #define _ea		uc->eaddr()
 #define _ea_Dop		uc->eaddr(),uc->acc.DAB.Dr
@@ -70,8 +66,6 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 #define _xb		uc->xbdst()
 #define _xb_Aop		uc->xbdst(),uc->acc.DAB.a8.Ar
 #define _xb_Bop		uc->xbdst(),uc->acc.DAB.a8.Br
-#define _xb_i8		uc->xbdst(),uc->i8()
-#define _xb_i8n		uc->xbdst(),~(uc->i8())
 
 #define _xba		uc->xbaddr()
 #define _xba_Dop	uc->xbaddr(),uc->acc.DAB.Dr
diff --git a/src/sims/m68hc12.src/m68hc12cl.h b/src/sims/m68hc12.src/m68hc12cl.h
index 6744c3e..8aebe3e 100644
--- a/src/sims/m68hc12.src/m68hc12cl.h
+++ b/src/sims/m68hc12.src/m68hc12cl.h
@@ -180,6 +180,8 @@ public:
   // BRANCH
   virtual int call_e(void);
   virtual int call_id(void);
+  virtual int bset(class cl_memory_cell &m) { u8_t op= i8(); return Or(m, op); }
+  virtual int bclr(class cl_memory_cell &m) { u8_t op= i8(); return And(m, ~op); }
   virtual int brset(class cl_memory_cell &m);
   virtual int brset_d(void);
   virtual int brset_id(void);
diff --git a/src/sims/m68hc12.src/wdefs.h b/src/sims/m68hc12.src/wdefs.h
index 8434c56..c6ba223 100644
--- a/src/sims/m68hc12.src/wdefs.h
+++ b/src/sims/m68hc12.src/wdefs.h
@@ -8,8 +8,8 @@ int wrap_0_08(class CL12 *uc, t_mem code) { return uc-> inxy ( _cX ); }
 int wrap_0_09(class CL12 *uc, t_mem code) { return uc-> dexy ( _cX ); }
 int wrap_0_0a(class CL12 *uc, t_mem code) { return uc-> rtc ( _NONE ); }
 int wrap_0_0b(class CL12 *uc, t_mem code) { return uc-> rti ( _NONE ); }
-int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> Or ( _xb_i8 ); }
-int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> And ( _xb_i8n ); }
+int wrap_0_0c(class CL12 *uc, t_mem code) { return uc-> bset ( _xb ); }
+int wrap_0_0d(class CL12 *uc, t_mem code) { return uc-> bclr ( _xb ); }
 int wrap_0_0e(class CL12 *uc, t_mem code) { return uc-> brset_id ( _NONE ); }
 int wrap_0_0f(class CL12 *uc, t_mem code) { return uc-> brclr_id ( _NONE ); }
 int wrap_0_10(class CL12 *uc, t_mem code) { return uc-> andcc ( _i8 ); }
@@ -23,8 +23,8 @@ int wrap_0_17(class CL12 *uc, t_mem code) { return uc-> jsr ( _da ); }
 int wrap_0_19(class CL12 *uc, t_mem code) { return uc-> lea ( _cY ); }
 int wrap_0_1a(class CL12 *uc, t_mem code) { return uc-> lea ( _cX ); }
 int wrap_0_1b(class CL12 *uc, t_mem code) { return uc-> lea ( _cS ); }
-int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> Or ( _e_i8 ); }
-int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> And ( _e_i8n ); }
+int wrap_0_1c(class CL12 *uc, t_mem code) { return uc-> bset ( _e ); }
+int wrap_0_1d(class CL12 *uc, t_mem code) { return uc-> bclr ( _e ); }
 int wrap_0_1e(class CL12 *uc, t_mem code) { return uc-> brset_e ( _NONE ); }
 int wrap_0_1f(class CL12 *uc, t_mem code) { return uc-> brclr_e ( _NONE ); }
 int wrap_0_20(class CL12 *uc, t_mem code) { return uc-> BRA ( 0x20 ); }
@@ -69,8 +69,8 @@ int wrap_0_48(class CL12 *uc, t_mem code) { return uc-> asl ( _cA ); }
 int wrap_0_49(class CL12 *uc, t_mem code) { return uc-> lsr16 ( _cD ); }
 int wrap_0_4a(class CL12 *uc, t_mem code) { return uc-> call_e ( _NONE ); }
 int wrap_0_4b(class CL12 *uc, t_mem code) { return uc-> call_id ( _NONE ); }
-int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> Or ( _d_i8 ); }
-int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> And ( _d_i8n ); }
+int wrap_0_4c(class CL12 *uc, t_mem code) { return uc-> bset ( _d ); }
+int wrap_0_4d(class CL12 *uc, t_mem code) { return uc-> bclr ( _d ); }
 int wrap_0_4e(class CL12 *uc, t_mem code) { return uc-> brset_d ( _NONE ); }
 int wrap_0_4f(class CL12 *uc, t_mem code) { return uc-> brclr_d ( _NONE ); }
 int wrap_0_50(class CL12 *uc, t_mem code) { return uc-> neg ( _cB ); }
-- 
2.43.0


From 20369344998a516ab814e2b07ceb476b88f23f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 086/256] fix: st7: length of LD with indirect indexed operands
 on Y

---
 src/sims/st7.src/glob.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/glob.cc b/src/sims/st7.src/glob.cc
index a183c7e..2e7bd56 100644
--- a/src/sims/st7.src/glob.cc
+++ b/src/sims/st7.src/glob.cc
@@ -579,12 +579,12 @@ struct dis_entry disass_st7_91[]= {
 //  { 0x00af, 0x00ff, ' ', 2, "ldf A,([%2.e],Y)" },
   { 0x00be, 0x00ff, ' ', 2, "ld Y,[%1]" },
   { 0x00ce, 0x00ff, ' ', 2, "ld Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ld Y,([%1.w],Y)" },
-  { 0x00ee, 0x00ff, ' ', 3, "ld Y,([%1],Y)" },
+  { 0x00de, 0x00ff, ' ', 2, "ld Y,([%1.w],Y)" },
+  { 0x00ee, 0x00ff, ' ', 2, "ld Y,([%1],Y)" },
   { 0x00bf, 0x00ff, ' ', 2, "ld [%1],Y" },
   { 0x00cf, 0x00ff, ' ', 2, "ld [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ld ([%1.w],Y),Y" },
-  { 0x00ef, 0x00ff, ' ', 3, "ld ([%1],Y),Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ld ([%1.w],Y),Y" },
+  { 0x00ef, 0x00ff, ' ', 2, "ld ([%1],Y),Y" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x00ea, 0x00ff, ' ', 2, "or A,([%1],Y)" },
-- 
2.43.0


From 52ca2aae5d204ba48dff937623600264ba2294e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 087/256] fix: stm8: length of LDW with indirect operands on Y

---
 src/sims/stm8.src/glob.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index e83f0f9..a7dac9f 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -690,10 +690,10 @@ struct dis_entry disass_stm8_91[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],Y),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],Y),A" }, // 91
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],Y)" },
-  { 0x00ce, 0x00ff, ' ', 3, "ldw Y,[%1.w]" },
-  { 0x00de, 0x00ff, ' ', 3, "ldw Y,([%1.w],Y)" },
-  { 0x00cf, 0x00ff, ' ', 3, "ldw [%1.w],Y" },
-  { 0x00df, 0x00ff, ' ', 3, "ldw ([%1.w],Y),X" },
+  { 0x00ce, 0x00ff, ' ', 2, "ldw Y,[%1.w]" },
+  { 0x00de, 0x00ff, ' ', 2, "ldw Y,([%1.w],Y)" },
+  { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],Y" },
+  { 0x00df, 0x00ff, ' ', 2, "ldw ([%1.w],Y),X" },
   { 0x0060, 0x00ff, ' ', 2, "neg ([%1.w],Y)" },
   { 0x00da, 0x00ff, ' ', 2, "or A,([%1.w],Y)" },
   { 0x0069, 0x00ff, ' ', 2, "rlc ([%1.w],Y)" },
-- 
2.43.0


From 37f3e78e53610dfe66c99ae54a79b7a02f807b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 088/256] fix: m6809: length of SEX, EXG, CWAI, SWI2 and of
 instructions on page 0x10 and 0x11

---
 src/sims/m6809.src/m6809.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3247032..c0856cf 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -750,6 +750,8 @@ cl_m6809::inst_length(t_addr addr)
       code= rom->get(addr+1);
       ch= code>>4;
       cl= code&0xf;
+      if (code==0x3f) return ret;
+      if (ch==2) return 4; // long branches
       int aml= 1;
       switch (code & 0x30)
 	{
@@ -803,13 +805,14 @@ cl_m6809::inst_length(t_addr addr)
       if (ch==1)
 	{
 	  if (cl==6||cl==7) return 3;
-	  if (cl==10||cl==12||cl==13||cl==15) return 2;
+	  if (cl==10||cl==12||cl==14||cl==15) return 2;
 	}
       if (ch==2) return 2;
       if (ch==3)
 	{
 	  if (cl < 4) return indexed_length(addr);
 	  if (cl < 8) return 2;
+	  if (cl == 12) return 2;
 	}
       if (ch==6) return indexed_length(addr);
       if (ch==7) return 3; // extend
-- 
2.43.0


From 7ed15a1e9c0f6ae8afd1fb49c55c6d39cb9f9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 089/256] fix: rabbit: length of LDP, of loads of 32 bit
 registers and of LDL, LD with (SP+n)

---
 src/sims/rxk.src/gpddm3.cc |  4 ++--
 src/sims/rxk.src/gpddm4.cc | 16 ++++++++--------
 src/sims/rxk.src/gpedm4.cc | 36 ++++++++++++++++++------------------
 3 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/sims/rxk.src/gpddm3.cc b/src/sims/rxk.src/gpddm3.cc
index 39f2eb5..2957fd7 100644
--- a/src/sims/rxk.src/gpddm3.cc
+++ b/src/sims/rxk.src/gpddm3.cc
@@ -85,9 +85,9 @@ struct dis_entry disass_pddm3[]=
     { 0xf4, 0xff, ' ', 3, "LD (%J%d),HL" },
     
     { 0x64, 0xff, ' ', 2, "LDP (%I),HL" },
-    { 0x64, 0xff, ' ', 4, "LDP (%w),%I" },
+    { 0x65, 0xff, ' ', 4, "LDP (%w),%I" },
     { 0x6c, 0xff, ' ', 2, "LDP HL,(%I)" },
-    { 0x6d, 0xff, ' ', 2, "LDP %I,(%w)" },
+    { 0x6d, 0xff, ' ', 4, "LDP %I,(%w)" },
 
     { 0xe9, 0xff, ' ', 2, "JP (%I)" },
 
diff --git a/src/sims/rxk.src/gpddm4.cc b/src/sims/rxk.src/gpddm4.cc
index bdc5426..4c0e1fd 100644
--- a/src/sims/rxk.src/gpddm4.cc
+++ b/src/sims/rxk.src/gpddm4.cc
@@ -82,14 +82,14 @@ struct dis_entry disass_pddm4[]=
     { 0x1d, 0xff, ' ', 2, "LD (PX+HL),%3" },
     { 0x2d, 0xff, ' ', 2, "LD (PY+HL),%3" },
     { 0x3d, 0xff, ' ', 2, "LD (PZ+HL),%3" },
-    { 0x0e, 0xff, ' ', 2, "LD %3,(PW%d)" },
-    { 0x1e, 0xff, ' ', 2, "LD %3,(PX%d)" },
-    { 0x2e, 0xff, ' ', 2, "LD %3,(PY%d)" },
-    { 0x3e, 0xff, ' ', 2, "LD %3,(PZ%d)" },
-    { 0x0f, 0xff, ' ', 2, "LD (PW%d),%3" },
-    { 0x1f, 0xff, ' ', 2, "LD (PX%d),%3" },
-    { 0x2f, 0xff, ' ', 2, "LD (PY%d),%3" },
-    { 0x3f, 0xff, ' ', 2, "LD (PZ%d),%3" },
+    { 0x0e, 0xff, ' ', 3, "LD %3,(PW%d)" },
+    { 0x1e, 0xff, ' ', 3, "LD %3,(PX%d)" },
+    { 0x2e, 0xff, ' ', 3, "LD %3,(PY%d)" },
+    { 0x3e, 0xff, ' ', 3, "LD %3,(PZ%d)" },
+    { 0x0f, 0xff, ' ', 3, "LD (PW%d),%3" },
+    { 0x1f, 0xff, ' ', 3, "LD (PX%d),%3" },
+    { 0x2f, 0xff, ' ', 3, "LD (PY%d),%3" },
+    { 0x3f, 0xff, ' ', 3, "LD (PZ%d),%3" },
     { 0x8c, 0xff, ' ', 2, "LDL PW,%I" },
     { 0x9c, 0xff, ' ', 2, "LDL PX,%I" },
     { 0xac, 0xff, ' ', 2, "LDL PY,%I" },
diff --git a/src/sims/rxk.src/gpedm4.cc b/src/sims/rxk.src/gpedm4.cc
index b82cf9c..095334b 100644
--- a/src/sims/rxk.src/gpedm4.cc
+++ b/src/sims/rxk.src/gpedm4.cc
@@ -74,18 +74,18 @@ struct dis_entry disass_pedm4[]=
     { 0xb5, 0xff, ' ', 4, "SETUSRP %w" },
     { 0xb1, 0xff, ' ', 4, "SETSYSP %w" },
     { 0xfa, 0xff, ' ', 2, "LLCALL (JKHL)" },
-    { 0x03, 0xff, ' ', 2, "LDL PW,(SP+%b)" },
-    { 0x13, 0xff, ' ', 2, "LDL PX,(SP+%b)" },
-    { 0x23, 0xff, ' ', 2, "LDL PY,(SP+%b)" },
-    { 0x33, 0xff, ' ', 2, "LDL PZ,(SP+%b)" },
-    { 0x04, 0xff, ' ', 2, "LD PW,(SP+%b)" },
-    { 0x14, 0xff, ' ', 2, "LD PX,(SP+%b)" },
-    { 0x24, 0xff, ' ', 2, "LD PY,(SP+%b)" },
-    { 0x34, 0xff, ' ', 2, "LD PZ,(SP+%b)" },
-    { 0x05, 0xff, ' ', 2, "LD (SP+%b),PW" },
-    { 0x15, 0xff, ' ', 2, "LD (SP+%b),PX" },
-    { 0x25, 0xff, ' ', 2, "LD (SP+%b),PY" },
-    { 0x35, 0xff, ' ', 2, "LD (SP+%b),PZ" },
+    { 0x03, 0xff, ' ', 3, "LDL PW,(SP+%b)" },
+    { 0x13, 0xff, ' ', 3, "LDL PX,(SP+%b)" },
+    { 0x23, 0xff, ' ', 3, "LDL PY,(SP+%b)" },
+    { 0x33, 0xff, ' ', 3, "LDL PZ,(SP+%b)" },
+    { 0x04, 0xff, ' ', 3, "LD PW,(SP+%b)" },
+    { 0x14, 0xff, ' ', 3, "LD PX,(SP+%b)" },
+    { 0x24, 0xff, ' ', 3, "LD PY,(SP+%b)" },
+    { 0x34, 0xff, ' ', 3, "LD PZ,(SP+%b)" },
+    { 0x05, 0xff, ' ', 3, "LD (SP+%b),PW" },
+    { 0x15, 0xff, ' ', 3, "LD (SP+%b),PX" },
+    { 0x25, 0xff, ' ', 3, "LD (SP+%b),PY" },
+    { 0x35, 0xff, ' ', 3, "LD (SP+%b),PZ" },
     { 0x06, 0xff, ' ', 2, "LD HL,(PW+BC)" },
     { 0x16, 0xff, ' ', 2, "LD HL,(PX+BC)" },
     { 0x26, 0xff, ' ', 2, "LD HL,(PY+BC)" },
@@ -102,21 +102,21 @@ struct dis_entry disass_pedm4[]=
     { 0x19, 0xff, ' ', 5, "LDF (%l),PX" },
     { 0x29, 0xff, ' ', 5, "LDF (%l),PY" },
     { 0x39, 0xff, ' ', 5, "LDF (%l),PZ" },
-    { 0x08, 0xff, ' ', 5, "LDF BC,(%l)" },
-    { 0x18, 0xff, ' ', 5, "LDF DE,(%l)" },
-    { 0x28, 0xff, ' ', 5, "LDF IX,(%l)" },
-    { 0x38, 0xff, ' ', 5, "LDF IY,(%l)" },
+    { 0x0a, 0xff, ' ', 5, "LDF BC,(%l)" },
+    { 0x1a, 0xff, ' ', 5, "LDF DE,(%l)" },
+    { 0x2a, 0xff, ' ', 5, "LDF IX,(%l)" },
+    { 0x3a, 0xff, ' ', 5, "LDF IY,(%l)" },
     { 0x0b, 0xff, ' ', 5, "LDF (%l),BC" },
     { 0x1b, 0xff, ' ', 5, "LDF (%l),DE" },
     { 0x2b, 0xff, ' ', 5, "LDF (%l),IX" },
     { 0x3b, 0xff, ' ', 5, "LDF (%l),IY" },
     { 0x0c, 0xff, ' ', 6, "LD PW,%x" },
     { 0x1c, 0xff, ' ', 6, "LD PX,%x" },
-    { 0x2c, 0xff, ' ', 6, "LD PW,%x" },
+    { 0x2c, 0xff, ' ', 6, "LD PY,%x" },
     { 0x3c, 0xff, ' ', 6, "LD PZ,%x" },
     { 0x0d, 0xff, ' ', 4, "LDL PW,%w" },
     { 0x1d, 0xff, ' ', 4, "LDL PX,%w" },
-    { 0x2d, 0xff, ' ', 4, "LDL PW,%w" },
+    { 0x2d, 0xff, ' ', 4, "LDL PY,%w" },
     { 0x3d, 0xff, ' ', 4, "LDL PZ,%w" },
     { 0x0e, 0xff, ' ', 2, "CONVC PW" },
     { 0x1e, 0xff, ' ', 2, "CONVC PX" },
-- 
2.43.0


From f663d77b792d3b46a926b92b9c5e2184e6db8615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 090/256] fix: hc11: disassembly of prefixed loads, stores,
 compares and bit instructions

---
 src/core/motorola.src/g11p18.cc | 18 +++++++++---------
 src/core/motorola.src/g11p1a.cc |  8 ++++----
 src/core/motorola.src/g11pcd.cc |  4 ++--
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core/motorola.src/g11p18.cc b/src/core/motorola.src/g11p18.cc
index 624e315..8f8b2f3 100644
--- a/src/core/motorola.src/g11p18.cc
+++ b/src/core/motorola.src/g11p18.cc
@@ -71,13 +71,13 @@ struct dis_entry disass11p18[]= {
   { 0xae, 0xff, ' ', 3, "LDS %X" },
   { 0xaf, 0xff, ' ', 3, "STS %X" },
   { 0xbc, 0xff, ' ', 4, "CPY %E" },
-  { 0xce, 0xff, ' ', 3, "LDY %B" },
+  { 0xce, 0xff, ' ', 4, "LDY %B" },
   { 0xde, 0xff, ' ', 3, "LDY %D" },
-  { 0xde, 0xff, ' ', 3, "LDY %X" },
-  { 0xfe, 0xff, ' ', 3, "LDY %E" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xfe, 0xff, ' ', 4, "LDY %E" },
   { 0xdf, 0xff, ' ', 3, "STY %D" },
-  { 0xdf, 0xff, ' ', 3, "STY %X" },
-  { 0xff, 0xff, ' ', 3, "STY %E" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
+  { 0xff, 0xff, ' ', 4, "STY %E" },
   { 0xe0, 0xff, ' ', 3, "SUB B,%x" },
   { 0xe1, 0xff, ' ', 3, "CMP B,%x" },
   { 0xe2, 0xff, ' ', 3, "SBC B,%x" },
@@ -93,10 +93,10 @@ struct dis_entry disass11p18[]= {
   { 0xec, 0xff, ' ', 3, "LDD %X" },
   { 0xed, 0xff, ' ', 3, "STD %X" },
 
-  { 0x1c, 0xff, ' ', 3, "BSET %x,%b" },
-  { 0x1e, 0xff, 'R', 4, "BRSET %x,%b,%r" },
-  { 0x1d, 0xff, ' ', 3, "BCLR %x,%b" },
-  { 0x1f, 0xff, 'R', 4, "BRCLR %x,%b,%r" },
+  { 0x1c, 0xff, ' ', 4, "BSET %x,%b" },
+  { 0x1e, 0xff, 'R', 5, "BRSET %x,%b,%r" },
+  { 0x1d, 0xff, ' ', 4, "BCLR %x,%b" },
+  { 0x1f, 0xff, 'R', 5, "BRCLR %x,%b,%r" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 96d42c9..7fb0ecb 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -32,14 +32,14 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 // code, mask, branch, len, mnem, iscall, ticks
 struct dis_entry disass11p1a[]= {
 
-  { 0x83, 0xff, ' ', 3, "CPD %B" },  
+  { 0x83, 0xff, ' ', 4, "CPD %B" },  
   { 0x93, 0xff, ' ', 3, "CPD %D" },  
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xb3, 0xff, ' ', 3, "CPD %E" },  
+  { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
   { 0xad, 0xff, ' ', 3, "CPY %X" },
-  { 0xee, 0xff, ' ', 2, "LDY %x" },
-  { 0xef, 0xff, ' ', 2, "STY %x" },
+  { 0xee, 0xff, ' ', 3, "LDY %X" },
+  { 0xef, 0xff, ' ', 3, "STY %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index f28dc1d..0130ec0 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -34,8 +34,8 @@ struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
   { 0xad, 0xff, ' ', 3, "CPD %X" },
-  { 0xee, 0xff, ' ', 2, "LDX %x" },
-  { 0xef, 0xff, ' ', 2, "STX %x" },
+  { 0xee, 0xff, ' ', 3, "LDX %X" },
+  { 0xef, 0xff, ' ', 3, "STX %X" },
 
   { 0, 0, 0, 0, 0, 0 }
 };
-- 
2.43.0


From c3bad286277701162d5d60268608b90f42424d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:03 +0000
Subject: [PATCH 091/256] fix: m6801: MUL is 0x3d

---
 src/core/motorola.src/glob68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/glob68.cc b/src/core/motorola.src/glob68.cc
index 17fed6c..7c547d8 100644
--- a/src/core/motorola.src/glob68.cc
+++ b/src/core/motorola.src/glob68.cc
@@ -259,7 +259,7 @@ struct dis_entry disass_m6801[]=
     { 0x04, 0xff, ' ', 1, "LSRD" },
     { 0x05, 0xff, ' ', 1, "ASLD" },
     { 0x3a, 0xff, ' ', 1, "ABX" },
-    { 0x3b, 0xff, ' ', 1, "MUL" },
+    { 0x3d, 0xff, ' ', 1, "MUL" },
       
     { 0xc3, 0xff, ' ', 3, "ADDD %B" },
     { 0xd3, 0xff, ' ', 2, "ADDD %D" },
-- 
2.43.0


From a6dbe63acb3de439b00d91e41ccd76b0bd67a806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 092/256] fix: hc11: indexed CPY and CPX on prefixed pages have
 opcode 0xac

---
 src/core/motorola.src/g11p1a.cc  | 2 +-
 src/core/motorola.src/g11pcd.cc  | 2 +-
 src/core/motorola.src/m68hc11.cc | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/g11p1a.cc b/src/core/motorola.src/g11p1a.cc
index 7fb0ecb..48439c9 100644
--- a/src/core/motorola.src/g11p1a.cc
+++ b/src/core/motorola.src/g11p1a.cc
@@ -37,7 +37,7 @@ struct dis_entry disass11p1a[]= {
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
   { 0xb3, 0xff, ' ', 4, "CPD %E" },  
 
-  { 0xad, 0xff, ' ', 3, "CPY %X" },
+  { 0xac, 0xff, ' ', 3, "CPY %X" },
   { 0xee, 0xff, ' ', 3, "LDY %X" },
   { 0xef, 0xff, ' ', 3, "STY %X" },
 
diff --git a/src/core/motorola.src/g11pcd.cc b/src/core/motorola.src/g11pcd.cc
index 0130ec0..3f90194 100644
--- a/src/core/motorola.src/g11pcd.cc
+++ b/src/core/motorola.src/g11pcd.cc
@@ -33,7 +33,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 struct dis_entry disass11pcd[]= {
 
   { 0xa3, 0xff, ' ', 3, "CPD %X" },  
-  { 0xad, 0xff, ' ', 3, "CPD %X" },
+  { 0xac, 0xff, ' ', 3, "CPX %X" },
   { 0xee, 0xff, ' ', 3, "LDX %X" },
   { 0xef, 0xff, ' ', 3, "STX %X" },
 
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 0dd87d4..c04e4a8 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -428,7 +428,7 @@ CL11::PAGE1A(t_mem code)
     case 0xa3: return cp16(cD, iop16()); break;
     case 0xb3: return cp16(cD, eop16()); break;
 
-    case 0xad: return cp16(cY, iop16()); break;
+    case 0xac: return cp16(cY, iop16()); break;
     case 0xee: return ldsx(cY, iop16()); break;
     case 0xef: return stsx(iaddr(), rY); break;
     }
@@ -444,7 +444,7 @@ CL11::PAGECD(t_mem code)
     {
     case 0xa3: return cp16(cD, iop16()); break;
 
-    case 0xad: return cp16(cX, iop16()); break;
+    case 0xac: return cp16(cX, iop16()); break;
     case 0xee: return ldsx(cX, iop16()); break;
     case 0xef: return stsx(iaddr(), rX); break;
     }
-- 
2.43.0


From 1571cd145904444723f842281237284cd93cb890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 093/256] fix: hc12: target of long branches in the disassembly

---
 src/sims/m68hc12.src/dis.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index c7b8420..3e65ae0 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -329,9 +329,9 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      break;
 	    case 'R': // relative 16 bit offset
 	      {
-		u16_t a= addr+4;
-		i16_t r= rom->get(addr+2)*256;
-		r+= rom->get(addr+3);
+		u16_t a= addr+3;
+		i16_t r= rom->get(addr+1)*256;
+		r+= rom->get(addr+2);
 		a+= r;
 		work.appendf("$%04x", a);
 		break;
-- 
2.43.0


From b09ab8174de562acaa517e9f8ff41a84c95b43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 094/256] fix: m6809: length of prefixed instructions with
 indexed operand

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index c0856cf..2ed34a8 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -757,7 +757,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
@@ -772,7 +772,7 @@ cl_m6809::inst_length(t_addr addr)
 	{
 	case 0x00: aml= 1+1; break; // immed
 	case 0x10: aml= 1; break; // direct
-	case 0x20: aml= indexed_length(addr+1); break;// index
+	case 0x20: aml= indexed_length(addr+1)-1; break;// index
 	case 0x30: aml= 2; // extend
 	}
       ret+= aml;
-- 
2.43.0


From 66ded4d8c6b53276acca31f41571531bf33bb319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 095/256] fix: m6809: targets of branches and JSR in the
 disassembly

---
 src/sims/m6809.src/glob.cc  | 2 +-
 src/sims/m6809.src/m6809.cc | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m6809.src/glob.cc b/src/sims/m6809.src/glob.cc
index 481973f..570fcc2 100644
--- a/src/sims/m6809.src/glob.cc
+++ b/src/sims/m6809.src/glob.cc
@@ -80,7 +80,7 @@ struct dis_entry disass_m6809[]=
 
    { 0x8d, 0xff, 's', 1, "BSR %b"	, true, 0 },
    { 0xbd, 0xff, 's', 1, "JSR %j"	, true, 0 },
-   { 0x8d, 0xcf, 's', 1, "JSR %b"	, true, 0 },
+   { 0x8d, 0xcf, 's', 1, "JSR %j"	, true, 0 },
    
    { 0x16, 0xff, ' ', 1, "LBRA %B"	, 0, 0 },
    { 0x17, 0xff, ' ', 1, "LBSR %B"	, true, 0 },
diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 2ed34a8..e6a2dee 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -635,9 +635,9 @@ cl_m6809::disass(t_addr addr)
 		    i16= rom->get(addr++)*256;
 		    i16+= rom->get(addr++);
 		  }
-		i16= (i16 + addr) & 0xffff;
-		work.appendf("$%04x", i16);
-		addr_name(i16, rom, &work);
+		op16= (i16 + addr) & 0xffff;
+		work.appendf("$%04x", op16);
+		addr_name(op16, rom, &work);
 		break;
 	      }
 	    case 'p': case 'P':
-- 
2.43.0


From 4addb438dffc12b4bd37d8c6586b70ab67bbabea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 096/256] fix: m6809: relative branches wrap around at 64k

---
 src/sims/m6809.src/m6809.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index e6a2dee..162658d 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1363,7 +1363,7 @@ cl_m6809::inst_10(t_mem code)
       {
 	u16_t u= fetch()*256 + fetch();
 	i16_t i= u;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	tick(2);
 	break;
       }
@@ -1376,7 +1376,7 @@ cl_m6809::inst_10(t_mem code)
 	rom->write(--reg.S, (PC>>8)&0xff);
 	tick(2);
 	vc.wr+= 2;
-	PC= PC + i;
+	PC= (PC + i) & 0xffff;
 	break;
       }
     case 0x08: // --
@@ -1563,7 +1563,7 @@ cl_m6809::inst_branch(t_mem code, bool l)
     }
   if (t)
     {
-      PC= PC + i;
+      PC= (PC + i) & 0xffff;
       tick(1);
     }
       
-- 
2.43.0


From 30218332e44867000a2a50df8c6f7f052b5fc373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 097/256] fix: stm8: disassembly of ADDW Y,(n,SP) and LDF
 A,[nn.e]

---
 src/sims/stm8.src/glob.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sims/stm8.src/glob.cc b/src/sims/stm8.src/glob.cc
index a7dac9f..8652264 100644
--- a/src/sims/stm8.src/glob.cc
+++ b/src/sims/stm8.src/glob.cc
@@ -357,7 +357,6 @@ struct dis_entry disass_stm8_72[]= {
   { 0x00bb, 0x00ff, ' ', 3, "addw X,%x" },
   { 0x00b9, 0x00ff, ' ', 3, "addw Y,%x" },
   { 0x00a9, 0x00ff, ' ', 3, "addw Y,%w" },
-  { 0x00f9, 0x00ff, ' ', 3, "addw Y,%d" },
   { 0x00fb, 0x00ff, ' ', 2, "addw X,(%1,SP)" },
   { 0x00f9, 0x00ff, ' ', 2, "addw Y,(%1,SP)" },
   { 0x00c4, 0x00ff, ' ', 3, "and A,[%2.w]" },
@@ -745,7 +744,7 @@ struct dis_entry disass_stm8_92[]= {
   { 0x00d7, 0x00ff, ' ', 2, "ld ([%1.w],X),A" },
   { 0x00a7, 0x00ff, ' ', /*2*/3, "ldf ([%2.e],X),A" },
   { 0x00af, 0x00ff, ' ', /*2*/3, "ldf A,([%2.e],X)" },
-  { 0x00bc, 0x00ff, ' ', 2, "ldf A,[%1.e]" },
+  { 0x00bc, 0x00ff, ' ', 3, "ldf A,[%2.e]" },
   { 0x00ce, 0x00ff, ' ', 2, "ldw X,[%1.w]" },
   { 0x00de, 0x00ff, ' ', 2, "ldw X,([%1.w],X)" },
   { 0x00cf, 0x00ff, ' ', 2, "ldw [%1.w],X" },
-- 
2.43.0


From 73c2011ef6615e3cfc42485f4b8eafc5434a890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 098/256] fix: f8: target of relative jumps in the disassembly

---
 src/sims/f8.src/disass.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/f8.src/disass.cc b/src/sims/f8.src/disass.cc
index 1bbb1a4..0edf68e 100644
--- a/src/sims/f8.src/disass.cc
+++ b/src/sims/f8.src/disass.cc
@@ -387,7 +387,7 @@ cl_f8::disassc(t_addr addr, chars *comment)
 	    case 'r':
 	      d= rom->get(addr+1);
 	      if (d&0x80) d|= 0xff00;
-	      a= addr+2+d;
+	      a= addr+d;
 	      word->appendf("0x%04x", a);
 	      break;
 	      
-- 
2.43.0


From 56421f52d4b592569dc3e73175d712900e1d9290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 099/256] fix: i8048: setting PC sets all of its bits

---
 src/sims/i8048.src/i8020.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8048.src/i8020.cc b/src/sims/i8048.src/i8020.cc
index 094f73c..89d4c4a 100644
--- a/src/sims/i8048.src/i8020.cc
+++ b/src/sims/i8048.src/i8020.cc
@@ -131,17 +131,15 @@ cl_i8020::id_string(void)
 void
 cl_i8020::set_PC(t_addr addr)
 {
-  // do not change A11
-  PC&= ~0x7ff;
-  addr&= 0x7ff;
-  PC|= addr;
+  PC= addr & PCmask;
 }
 
 t_mem
 cl_i8020::fetch(void)
 {
   u8_t c= rom->read(PC);
-  set_PC((PC+1)&PCmask);
+  // incrementing does not change A11
+  PC= (PC & ~0x7ff) | ((PC+1) & 0x7ff);
   if (PC >= inner_rom)
     bus->latch(PC);
   vc.fetch++;
-- 
2.43.0


From faa1d165eb8759e0ce00abab37f69e748025447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:08 +0000
Subject: [PATCH 100/256] fix: tlcs: length of LD (ix+d),rr

---
 src/sims/tlcs.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/tlcs.src/glob.cc b/src/sims/tlcs.src/glob.cc
index 2e4731c..6ddae75 100644
--- a/src/sims/tlcs.src/glob.cc
+++ b/src/sims/tlcs.src/glob.cc
@@ -325,7 +325,7 @@ struct dis_entry disass_tlcs[]= {
   {     0xD000f4,     0xf000fc, ' ', 3, "CALL %F%I%d", true },
   {     0x2000f4,     0xf800fc, ' ', 3, "LD (%I%d),%t" },
   {     0x3800f4,     0xf800fc, ' ', 3, "LDA %u,%I%d" },
-  {     0x4000f4,     0xf800fc, ' ', 4, "LD (%I%d),%u" },
+  {     0x4000f4,     0xf800fc, ' ', 3, "LD (%I%d),%u" },
   /* Others in exec_inst: c1&0xf8 */
   { 0x20, 0xf8, 'r', 1, "LD A,%r" },
   { 0x28, 0xf8, 'r', 1, "LD %r,A" },
-- 
2.43.0


From cbc3a65ed2cd0f4125c17b9ce663b26eb9b6d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 101/256] fix: pdk: setting PC sets it in the active FPP

---
 src/sims/pdk.src/pdk.cc  | 8 ++++++++
 src/sims/pdk.src/pdkcl.h | 1 +
 2 files changed, 9 insertions(+)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index f15bb4a..84c0497 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -936,6 +936,14 @@ cl_pdk::set_pc(int id, t_addr new_pc)
   fpps[id]->cPC.W(new_pc);
 }
 
+void
+cl_pdk::set_PC(t_addr addr)
+{
+  PC= addr;
+  if (fpps[act] != NULL)
+    fpps[act]->set_PC(addr);
+}
+
 
 int
 cl_pdk::exec_inst(void)
diff --git a/src/sims/pdk.src/pdkcl.h b/src/sims/pdk.src/pdkcl.h
index eb3e687..c9e0505 100644
--- a/src/sims/pdk.src/pdkcl.h
+++ b/src/sims/pdk.src/pdkcl.h
@@ -266,6 +266,7 @@ public:
   virtual u8_t set_nuof(u8_t val);
   virtual t_addr get_pc(int id);
   virtual void set_pc(int id, t_addr new_pc);
+  virtual void set_PC(t_addr addr);
   
   virtual int exec_inst(void);
 
-- 
2.43.0


From 6e063ae18dc3fff374bc55d1eba828002a168816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 102/256] fix: pdk: selecting the active FPP takes the PC of
 the selected one

---
 src/sims/pdk.src/pdk.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/pdk.src/pdk.cc b/src/sims/pdk.src/pdk.cc
index 84c0497..d9752ca 100644
--- a/src/sims/pdk.src/pdk.cc
+++ b/src/sims/pdk.src/pdk.cc
@@ -882,8 +882,8 @@ cl_pdk::set_act(u8_t val)
   u8_t r= 0;
   if (val < nuof_fpp)
     r= val;
-  cPC.decode(&(fpps[act]->PC));
-  PC= fpps[act]->PC;
+  cPC.decode(&(fpps[r]->PC));
+  PC= fpps[r]->PC;
   return r;
 }
 
-- 
2.43.0


From 5887b665d196d1a8cb442ac3798fef27c60c562d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 103/256] fix: memory: the address after the last one is not
 valid

---
 src/core/sim.src/mem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index de1792a..8de788e 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -179,7 +179,7 @@ cl_memory::validate_address(t_addr addr)
 {
   while (addr < start_address)
     addr+= size;
-  if (addr > start_address+size)
+  if (addr >= start_address+size)
     {
       addr-= start_address;
       addr%= size;
-- 
2.43.0


From 65920f510c5c2ba1ffc05f4ed0038090dc0ce0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 104/256] fix: hc12: disassembly of instructions with more
 operands

---
 src/sims/m68hc12.src/dis.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sims/m68hc12.src/dis.cc b/src/sims/m68hc12.src/dis.cc
index 3e65ae0..3e6cb79 100644
--- a/src/sims/m68hc12.src/dis.cc
+++ b/src/sims/m68hc12.src/dis.cc
@@ -304,6 +304,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      else
 		temp.appendf("; [$%04x]=$%04x", a,
 			     peek_addr(rom, a));
+	      addr+= 2;
 	      break;
 	    case 'd': case 'D': // direct
 	      h= a= rom->get(addr+1);
@@ -314,10 +315,12 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      else
 	        temp.appendf("; [$%04x]=$%04x", a,
 			     peek_addr(rom, a));
+	      addr++;
 	      break;
 	    case 'b': // immediate 8 bit
 	      work.appendf("#$%02x",
 			   rom->get(addr+1));
+	      addr++;
 	      break;
 	    case 'B': // immediate 16 bit
 	      work.appendf("#$%04x",
@@ -340,7 +343,7 @@ cl_m68hc12::disassc(t_addr addr, chars *comment)
 	      {
 		t_addr a= addr+1;
 		disass_xb(&a, &work, comment, isupper(b[i])?2:1);
-		addr= a;
+		addr= a-1; // last byte of the operand
 		break;
 	      }
 	    case 'T': // TFR/EXG
-- 
2.43.0


From d15eaed34d62a63d283725808ec9b302e6c10189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 105/256] fix: z80: no RLC B at ED 00 in the disassembly

---
 src/sims/z80.src/glob.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index d98f508..9b91a7f 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -376,7 +376,6 @@ struct dis_entry disass_z180_ed[]= {
 };
   
 struct dis_entry disass_z80_ed[]= {
-  { 0x0000, 0x00ff, ' ', 1, "RLC B" },
   { 0x0040, 0x00ff, ' ', 1, "IN B,(C)" },
   { 0x0041, 0x00ff, ' ', 1, "OUT (C),B" },
   { 0x0042, 0x00ff, ' ', 1, "SBC HL,BC" },
-- 
2.43.0


From e489a60de3f4a62d202089073bc0fbe4474fb9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 106/256] fix: pdk: PC of PDK16 has 13 bits

---
 src/sims/pdk.src/pdk16.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/pdk.src/pdk16.cc b/src/sims/pdk.src/pdk16.cc
index 1fb9f76..bf6a7ac 100644
--- a/src/sims/pdk.src/pdk16.cc
+++ b/src/sims/pdk.src/pdk16.cc
@@ -52,6 +52,7 @@ int
 cl_fpp16::init(void)
 {
   cl_fpp15::init();
+  PCmask= 0x1fff;
   return 0;
 }
 
-- 
2.43.0


From c16023561e66870e69c51ccf4c45ae9025db8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 107/256] fix: hc08: relative jumps stay within 64K

---
 src/sims/m68hc08.src/inst.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index f1094d9..fdcf60c 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -348,7 +348,7 @@ cl_hc08::inst_bsr(t_mem code, bool prefix)
 
   push2(PC);
   tick(2);
-  PC += ofs;
+  PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -692,7 +692,7 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1015,7 +1015,7 @@ cl_hc08::inst_condbranch(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   return(resGO);
@@ -1057,7 +1057,7 @@ cl_hc08::inst_bittestsetclear(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (taken)
-    PC += ofs;
+    PC = (PC + ofs) & 0xffff;
   tick(1); // extra cycle to reload pipeline
 
   FLAG_ASSIGN (BIT_C, operand & (1 << bit));
@@ -1091,7 +1091,7 @@ cl_hc08::inst_cbeq(t_mem code, bool prefix)
   ofs = fetch();
   tick(1);
   if (operand1==operand2)
-    PC += ofs;  
+    PC = (PC + ofs) & 0xffff;
 
   if (code == 0x71 || (!prefix && code == 0x61))
     incx();
-- 
2.43.0


From 2cd75fc209b3aabae81fab16642fab78113ab5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 108/256] fix: tlcs: jumps stay within 64K

---
 src/sims/tlcs.src/inst_jump.cc | 4 ++--
 src/sims/tlcs.src/tlcs.cc      | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/tlcs.src/inst_jump.cc b/src/sims/tlcs.src/inst_jump.cc
index 8dde138..ef21303 100644
--- a/src/sims/tlcs.src/inst_jump.cc
+++ b/src/sims/tlcs.src/inst_jump.cc
@@ -70,7 +70,7 @@ cl_tlcs::inst_djnz_b(i8_t d)
 {
   reg.rbc.b--;
   if (reg.rbc.b != 0)
-    PC+= d;
+    PC= (PC + d) & 0xffff;
   tick(8);
   return resGO;
 }
@@ -82,7 +82,7 @@ cl_tlcs::inst_djnz_bc(i8_t d)
 {
   reg.bc--;
   if (reg.bc != 0)
-    PC+= d;
+    PC= (PC + d) & 0xffff;
   return resGO;
 }
 
diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index 6be78a2..b66e087 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -786,7 +786,7 @@ cl_tlcs::exec_inst2(u8_t c1)
               if (cc(c1))
                 {
                   tick(4);
-                  PC+= d;
+                  PC= (PC + d) & 0xffff;
                 }
             }
           else
@@ -1211,7 +1211,7 @@ cl_tlcs::exec_inst3(u8_t c1, u8_t c2)
   switch (c1)
     {
     case 0x1a: tick(2); PC= c3*256 + c2; break; // JP mn
-    case 0x1b: PC+= i16_t(c3*256 + c2); break; // JRL $+2+cd
+    case 0x1b: PC= (PC + i16_t(c3*256 + c2)) & 0xffff; break; // JRL $+2+cd
     case 0x1c: inst_call(PC-3, c3*256 + c2); break; // CALL mn
     case 0x1d: tick(2); inst_call(PC-3, PC + i16_t(c3*256 + c2)); break; // CALR $+2+cd
     case 0x78: reg.hl= op_add_hl_v((c3*256+c2)); break; // ADD HL,mn
@@ -1569,7 +1569,7 @@ cl_tlcs::exec_inst4_f4ix(u8_t c1, u8_t c2, u8_t c3)
     default:
       switch (c3 & 0xf0)
         {
-        case 0xc0: if (cc(c3)){ tick(2);  PC= *aof_reg16_ix(c1)+d;} break; // JP [cc,]ix+d
+        case 0xc0: if (cc(c3)){ tick(2);  PC= (*aof_reg16_ix(c1)+d) & 0xffff;} break; // JP [cc,]ix+d
         case 0xd0: if (cc(c3)) inst_call(PC-4, *aof_reg16_ix(c1)+d); break; // CALL [cc,]ix+d
         default:
           switch (c3 & 0xf8)
-- 
2.43.0


From 1f4d1268cc59b7153b7b860cfc6a151601a886a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 109/256] fix: tlcs: JP HL+A adds A to HL

---
 src/sims/tlcs.src/tlcs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/tlcs.src/tlcs.cc b/src/sims/tlcs.src/tlcs.cc
index b66e087..b11b2a1 100644
--- a/src/sims/tlcs.src/tlcs.cc
+++ b/src/sims/tlcs.src/tlcs.cc
@@ -932,7 +932,7 @@ cl_tlcs::exec_inst2_f7(u8_t c2)
     default:
       switch (c2 & 0xf0)
         {
-        case 0xc0: if (cc(c2)){ tick(2); PC= reg.hl|reg.raf.a;} break; // JP [cc,]HL+A
+        case 0xc0: if (cc(c2)){ tick(2); PC= (reg.hl + reg.raf.a) & 0xffff;} break; // JP [cc,]HL+A
         case 0xd0: if (cc(c2)) inst_call(PC-2, reg.hl+reg.raf.a); break; // CALL [cc,]HL+A
         default:
           switch (c2 & 0xf8)
-- 
2.43.0


From 54a6d749ceef6ded3a0eda2cd4de124be3962014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 110/256] fix: rabbit: reset clears the MMU registers that the
 program can read

---
 src/sims/rxk.src/r3ka.cc | 1 +
 src/sims/rxk.src/r4k.cc  | 6 ++++--
 src/sims/rxk.src/rxk.cc  | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sims/rxk.src/r3ka.cc b/src/sims/rxk.src/r3ka.cc
index ee1809d..db7006b 100644
--- a/src/sims/rxk.src/r3ka.cc
+++ b/src/sims/rxk.src/r3ka.cc
@@ -71,6 +71,7 @@ cl_r3ka::reset(void)
   cl_r3k::reset();
   ioi->set(0x420, 0); // edmr
   ioi->write(0x10, 0); // MMIDR
+  cSU.W(0);
   sysmode= false;
   //mode3k();  
 }
diff --git a/src/sims/rxk.src/r4k.cc b/src/sims/rxk.src/r4k.cc
index d47f36b..856645f 100644
--- a/src/sims/rxk.src/r4k.cc
+++ b/src/sims/rxk.src/r4k.cc
@@ -143,9 +143,11 @@ cl_r4k::id_string(void)
 void
 cl_r4k::reset(void)
 {
-  //ioi->set(0x1b, 0); // stacksegh
+  ioi->set(0x1a, 0); // stacksegl
+  ioi->set(0x1b, 0); // stacksegh
   mem->stackseg= 0;
-  //ioi->set(0x1f, 0); // datasegh
+  ioi->set(0x1e, 0); // datasegl
+  ioi->set(0x1f, 0); // datasegh
   mem->dataseg= 0;
   ioi->set(0x420, 0); // edmr
   cl_r3ka::reset();
diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index f4399d4..97aaa98 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -145,6 +145,9 @@ cl_rxk::reset(void)
   cl_uc::reset();
 
   // MMU reset
+  ioi->set(0x11, 0); // stackseg
+  ioi->set(0x12, 0); // dataseg
+  ioi->set(0x13, 0xff); // segsize
   mem->set_dataseg(0);
   mem->set_segsize(0xff);
   mem->set_stackseg(0);
-- 
2.43.0


From e4c9e3ff6481a80f4d9bcbefa0608f89125d2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 111/256] fix: huc6280: reset sets the registers and starts at
 the reset vector

---
 src/sims/mos6502.src/huc6280.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/huc6280.cc b/src/sims/mos6502.src/huc6280.cc
index 0a3899d..9d9e016 100644
--- a/src/sims/mos6502.src/huc6280.cc
+++ b/src/sims/mos6502.src/huc6280.cc
@@ -50,7 +50,8 @@ void
 cl_huc6280::reset(void)
 {
   mpras->write(7, 0);
-  cl_uc::reset();
+  cl_mos65c02s::reset();
+  PC= read_addr(rom, 0xfffe);
 }
 
 
-- 
2.43.0


From 53be4154ad6e2f416a2e65187cf9f832de61f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 112/256] fix: avr: reset clears the I/O registers

---
 src/sims/avr.src/avr.cc  | 12 ++++++++++++
 src/sims/avr.src/avrcl.h |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/sims/avr.src/avr.cc b/src/sims/avr.src/avr.cc
index 9cb6749..369cae9 100644
--- a/src/sims/avr.src/avr.cc
+++ b/src/sims/avr.src/avr.cc
@@ -139,6 +139,18 @@ cl_avr::init(void)
   return(0);
 }
 
+void
+cl_avr::reset(void)
+{
+  t_addr a;
+
+  cl_uc::reset();
+  // R0-R31 keep their values
+  for (a= 0x20; a <= SREG; a++)
+    ram->write(a, 0);
+  sleep_executed= 0;
+}
+
 const char *
 cl_avr::id_string(void)
 {
diff --git a/src/sims/avr.src/avrcl.h b/src/sims/avr.src/avrcl.h
index f78f9b5..1774ed5 100644
--- a/src/sims/avr.src/avrcl.h
+++ b/src/sims/avr.src/avrcl.h
@@ -46,6 +46,7 @@ public:
 public:
   cl_avr(class cl_sim *asim);
   virtual int init(void);
+  virtual void reset(void);
   virtual const char *id_string(void);
 
   virtual void mk_hw_elements(void);
-- 
2.43.0


From d86cf78c985a9a0051e68d065da671a4e51ab66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:06 +0000
Subject: [PATCH 113/256] fix: rabbit: reset clears LXPC and the pending prefix

---
 src/sims/rxk.src/rxk.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/rxk.src/rxk.cc b/src/sims/rxk.src/rxk.cc
index 97aaa98..4c8a0c0 100644
--- a/src/sims/rxk.src/rxk.cc
+++ b/src/sims/rxk.src/rxk.cc
@@ -151,8 +151,9 @@ cl_rxk::reset(void)
   mem->set_dataseg(0);
   mem->set_segsize(0xff);
   mem->set_stackseg(0);
-  mem->set_xpc(0); // calls re-decode
+  mem->set_lxpc(0); // calls re-decode
 
+  prefix= altd= false;
   rIP= 0xff;
   rIIR= 0;
   rEIR= 0;
-- 
2.43.0


From c57a3b364ad8bee7dd90aeaccf59177d10f4b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:09 +0000
Subject: [PATCH 114/256] fix: mos6502: reset cancels a pending BRK

---
 src/sims/mos6502.src/mos6502.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 8c186ee..e759222 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -162,6 +162,7 @@ cl_mos6502::reset(void)
   cF.W(CC= 0x00 | flagI);
   PC= read_addr(rom, RESET_AT);
   rSP= 0xfd;
+  src_brk->clear();
   
   tick(7);
 }
-- 
2.43.0


From 6a7a9fb45315b147407e20c745e96b07696f47d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 115/256] fix: C8051F380: reset selects SFR page 0

---
 src/sims/s51.src/uc380.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/uc380.cc b/src/sims/s51.src/uc380.cc
index 5b0bccf..205a1a8 100644
--- a/src/sims/s51.src/uc380.cc
+++ b/src/sims/s51.src/uc380.cc
@@ -166,6 +166,7 @@ cl_uc380::decode_sfr(void)
 void
 cl_uc380::clear_sfr(void)
 {
+  sfr->write(/*SFRPAGE*/0xbf, 0);
   cl_uc52::clear_sfr();
 
   sfr->write(/*P4*/0xc7, 0xff);
-- 
2.43.0


From 9cbda28460a791f07358cafbe54e55594bf18cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 116/256] fix: hc08: effective addresses of the indexed modes
 have 16 bits

---
 src/sims/m68hc08.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index fdcf60c..97cd9fa 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -75,14 +75,14 @@ cl_hc08::fetchea(t_mem code, bool prefix)
     case 0xe:
       tick(1);
       if (!prefix)
-        return ((unsigned char)fetch())+((regs.H << 8) | regs.X); // IX1
+        return (((unsigned char)fetch())+((regs.H << 8) | regs.X)) & 0xffff; // IX1
       else
-        return ((unsigned char)fetch())+regs.SP; // SP1
+        return (((unsigned char)fetch())+regs.SP) & 0xffff; // SP1
     case 0xd:
       if (!prefix)
-        return fetch2()+((regs.H << 8) | regs.X); // IX2
+        return (fetch2()+((regs.H << 8) | regs.X)) & 0xffff; // IX2
       else
-        return fetch2()+regs.SP; // SP2
+        return (fetch2()+regs.SP) & 0xffff; // SP2
     case 0xc:
       return fetch2();
     default:
-- 
2.43.0


From 8c0dbd9511c9c437898e628a7ef7abbef9598276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 117/256] fix: i8041: reset disables the flag outputs on P2

---
 src/sims/i8048.src/i8041.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 6dd3504..004900c 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -210,6 +210,7 @@ cl_i8041_cpu::reset(void)
 {
   cfg_set(i8041cpu_status, 0);
   cfg_set(i8041cpu_enflags, 0);
+  set_flags();
 }
 
 const char *
-- 
2.43.0


From 73f888cb8cfe06cc40e9f9a54d45d86af42d8387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:44 +0000
Subject: [PATCH 118/256] fix: i8041: EN FLAGS, OUT DBB,A and writes of the
 host update OBF, IBF and P2

---
 src/sims/i8048.src/i8041.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims/i8048.src/i8041.cc b/src/sims/i8048.src/i8041.cc
index 004900c..11e79a5 100644
--- a/src/sims/i8048.src/i8041.cc
+++ b/src/sims/i8048.src/i8041.cc
@@ -133,6 +133,8 @@ int
 cl_i8041::OUTDBBA(MP)
 {
   cpu->cfg_write(i8041cpu_out, rA);
+  u8_t s= cpu->cfg_read(i8041cpu_status);
+  cpu->cfg_write(i8041cpu_status, s | stat_obf);
   return resGO;
 }
 
@@ -159,7 +161,7 @@ cl_i8041::MOVSTSA(MP)
 int
 cl_i8041::ENFLAGS(MP)
 {
-  cpu->cfg_set(i8041cpu_enflags, 1);
+  cpu->cfg_write(i8041cpu_enflags, 1);
   return resGO;
 }
 
@@ -248,7 +250,7 @@ cl_i8041_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  cell->set(*val&= 0xff);
 	  u->flagF1= 0;
 	  u8_t stat= cfg_read(i8041cpu_status);
-	  stat&= ~stat_ibf;
+	  stat|= stat_ibf;
 	  cfg_write(i8041cpu_status, stat);
 	}
       break;
@@ -258,7 +260,7 @@ cl_i8041_cpu::conf_op(cl_memory_cell *cell, t_addr addr, t_mem *val)
 	  cell->set(*val&= 0xff);
 	  u->flagF1= 1;
 	  u8_t stat= cfg_read(i8041cpu_status);
-	  stat&= ~stat_ibf;
+	  stat|= stat_ibf;
 	  cfg_write(i8041cpu_status, stat);
 	}
       break;
-- 
2.43.0


From ff4f26699eec01f56e3a0407b7edf526a9c333f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 119/256] fix: s51: MOVC addresses wrap at the end of the code
 memory

---
 src/sims/s51.src/mov.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/mov.cc b/src/sims/s51.src/mov.cc
index 19c912e..a6796f1 100644
--- a/src/sims/s51.src/mov.cc
+++ b/src/sims/s51.src/mov.cc
@@ -123,7 +123,7 @@ cl_51core::instruction_78/*inst_mov_rn_Sdata*/(t_mem/*uchar*/ code)
 int
 cl_51core::instruction_83/*inst_movc_a_Sa_pc*/(t_mem/*uchar*/ code)
 {
-  acc->write(rom->read(PC + acc->read()));
+  acc->write(rom->read(rom->validate_address(PC + acc->read())));
   tick(1);
   vc.rd++;
   //vc.wr++;
@@ -222,7 +222,7 @@ cl_51core::instruction_93/*inst_movc_a_Sa_dptr*/(t_mem/*uchar*/ code)
 {
   u16_t h= /*sfr*/dptr->read(/*DPH*/1);
   u16_t l= /*sfr*/dptr->read(/*DPL*/0);
-  acc->write(rom->read(h*256 + l +  acc->read()));
+  acc->write(rom->read(rom->validate_address(h*256 + l +  acc->read())));
   tick(1);
   vc.rd+= 3;//4;
   //vc.wr++;
-- 
2.43.0


From de2c363461a5b7d835497b3b9a328b5b453eafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 120/256] fix: s51: the parity flag can not be changed by
 writing PSW

---
 src/sims/s51.src/uc51.cc  | 12 +++++++++++-
 src/sims/s51.src/uc51cl.h |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index a3da859..9af4f3d 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1996,7 +1996,8 @@ cl_uc51_cpu::init(void)
     {
       fprintf(stderr, "No SFR to register %s[%d] into\n", id_string, id);
     }
-  cell_psw= sfr->get_cell(PSW);//use_cell(sfr, PSW);
+  cell_psw= register_cell(sfr, PSW);
+  cell_p= register_cell(bas, PSW);
   cell_acc= register_cell(sfr, ACC);
   cell_sp= register_cell(sfr, SP);
   for (i= 0; i < 8; i++)
@@ -2061,6 +2062,15 @@ cl_uc51_cpu::write(class cl_memory_cell *cell, t_mem *val)
       if (*val > uc->sp_most)
 	uc->sp_most= *val;
     }
+  else if (cell == cell_psw)
+    {
+      // P always shows the parity of ACC
+      *val= (*val & ~bmP) | ptab51[cell_acc->get()];
+    }
+  else if (cell == cell_p)
+    {
+      *val= ptab51[cell_acc->get()];
+    }
   else // ACC and its bits
     {
       uchar uc, n= *val;
diff --git a/src/sims/s51.src/uc51cl.h b/src/sims/s51.src/uc51cl.h
index de60f77..0f9f928 100644
--- a/src/sims/s51.src/uc51cl.h
+++ b/src/sims/s51.src/uc51cl.h
@@ -297,7 +297,7 @@ class cl_uc51_cpu: public cl_hw
 {
 protected:
   class cl_memory_cell *cell_acc, *cell_sp, *cell_psw;
-  class cl_memory_cell *acc_bits[8];
+  class cl_memory_cell *acc_bits[8], *cell_p;
 public:
   chars movxri_expr;
  public:
-- 
2.43.0


From 4c33e5d68cd7d57e2d7808f79a4de30131f93ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:28 +0000
Subject: [PATCH 121/256] fix: mos6502: pointers in the zero page wrap at the
 end of the page

---
 src/sims/mos6502.src/mos6502.cc  | 16 +++++++++++++---
 src/sims/mos6502.src/mos6502cl.h |  1 +
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index e759222..0f7ab7e 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -492,6 +492,16 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
   return h*256+l;
 }
 
+// pointer in the zero page
+t_addr
+cl_mos6502::read_addr_zp(class cl_memory *m, u8_t start_addr)
+{
+  u8_t h, l, next= start_addr+1;
+  l= m->read(start_addr);
+  h= m->read(next);
+  return h*256+l;
+}
+
 class cl_cell8 &
 cl_mos6502::imm8(void)
 {
@@ -582,7 +592,7 @@ class cl_cell8 &
 cl_mos6502::zind(void)
 {
   u16_t a= fetch();
-  a= read_addr(rom, a);
+  a= read_addr_zp(rom, a);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 2;
   tick(4);
@@ -593,7 +603,7 @@ class cl_cell8 &
 cl_mos6502::indX(void)
 {
   u8_t a0= fetch() + rX;
-  u16_t a= read_addr(rom, a0);
+  u16_t a= read_addr_zp(rom, a0);
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a);
   vc.rd+= 3;
   tick(5);
@@ -603,7 +613,7 @@ cl_mos6502::indX(void)
 class cl_cell8 &
 cl_mos6502::indY(void)
 {
-  u16_t a1= read_addr(rom, fetch());
+  u16_t a1= read_addr_zp(rom, fetch());
   u16_t a2= a1 + rY;
   class cl_cell8 *c= (class cl_cell8 *)rom->get_cell(a2);
   vc.rd+= 3;
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index 7e063e2..b68b4a0 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -135,6 +135,7 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual t_addr read_addr(class cl_memory *m, t_addr start_addr);
+  virtual t_addr read_addr_zp(class cl_memory *m, u8_t start_addr);
 
   virtual void print_regs(class cl_console_base *con);
   virtual int inst_length(t_addr addr);
-- 
2.43.0


From b6b2b1358d8656ca6a9af294a8998661656ec7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:28 +0000
Subject: [PATCH 122/256] fix: mos6502: BRK works in interrupt handlers too,
 only I prevents nested IRQs

---
 src/sims/mos6502.src/mos6502.cc  | 2 ++
 src/sims/mos6502.src/mos65c02.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 0f7ab7e..0927471 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -733,6 +733,8 @@ cl_mos6502::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  // there are no priority levels, just the I flag
+  il->level= 0;
   it_levels->push(il);
   
   return resGO;
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index d69a9c8..bab2dd9 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -109,6 +109,8 @@ cl_mos65c02::accept_it(class it_level *il)
 
   rF|= flagI;
   is->clear();
+  // there are no priority levels, just the I flag
+  il->level= 0;
   it_levels->push(il);
   
   return resGO;
-- 
2.43.0


From 6d5e91a1fd506d52bafb3240d42a39cdde961d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 123/256] fix: mos6502: clock cycles of NOP, BRK, indexed
 stores and indexed read-modify-write instructions

---
 src/sims/mos6502.src/inst.cc     |  1 +
 src/sims/mos6502.src/mos6502.cc  |  3 ++-
 src/sims/mos6502.src/mos6502cl.h | 13 +++++++------
 src/sims/mos6502.src/mos65c02.cc |  3 ++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/sims/mos6502.src/inst.cc b/src/sims/mos6502.src/inst.cc
index 677740d..321608c 100644
--- a/src/sims/mos6502.src/inst.cc
+++ b/src/sims/mos6502.src/inst.cc
@@ -31,6 +31,7 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 int
 cl_mos6502::NOP(t_mem code)
 {
+  tick(1);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 0927471..f91c29e 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -717,7 +717,8 @@ cl_mos6502::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  // (fetch of BRK took one cycle already)
+  tick((is == src_brk)?1:2);
   push_addr(PC);
   rom->write(SPh + rSP, rF|0x20);
   if (set_b)
diff --git a/src/sims/mos6502.src/mos6502cl.h b/src/sims/mos6502.src/mos6502cl.h
index b68b4a0..e9157b5 100644
--- a/src/sims/mos6502.src/mos6502cl.h
+++ b/src/sims/mos6502.src/mos6502cl.h
@@ -171,19 +171,20 @@ public:
   virtual class cl_cell8 &dstzpgX(void) { vc.wr++; return zpgX(); }
   virtual class cl_cell8 &dstzpgY(void) { vc.wr++; return zpgY(); }
   virtual class cl_cell8 &dstabs(void) { vc.wr++; return abs(); }
-  virtual class cl_cell8 &dstabsX(void) { vc.wr++; return absX(); }
-  virtual class cl_cell8 &dstabsY(void) { vc.wr++; return absY(); }
+  // no matter if page is crossed or not
+  virtual class cl_cell8 &dstabsX(void) { vc.wr++; vc.rd++; u16_t a= i16()+rX; tick(4); return *(class cl_cell8 *)rom->get_cell(a); }
+  virtual class cl_cell8 &dstabsY(void) { vc.wr++; vc.rd++; u16_t a= i16()+rY; tick(4); return *(class cl_cell8 *)rom->get_cell(a); }
   virtual class cl_cell8 &dstind(void) { vc.wr++; return ind(); }
   virtual class cl_cell8 &dstzind(void) { vc.wr++; return zind(); }
   virtual class cl_cell8 &dstindX(void) { vc.wr++; return indX(); }
-  virtual class cl_cell8 &dstindY(void) { vc.wr++; return indY(); }
+  virtual class cl_cell8 &dstindY(void) { vc.wr++; vc.rd+= 3; u16_t a= read_addr_zp(rom, fetch())+rY; tick(5); return *(class cl_cell8 *)rom->get_cell(a); }
   // read-modify-write operands
   virtual class cl_cell8 &rmwzpg(void) { vc.rd++;vc.wr++;tick(2); return zpg(); }
   virtual class cl_cell8 &rmwzpgX(void) { vc.rd++;vc.wr++;tick(2); return zpgX(); }
   virtual class cl_cell8 &rmwzpgY(void) { vc.rd++;vc.wr++;tick(2); return zpgY(); }
   virtual class cl_cell8 &rmwabs(void) { vc.rd++;vc.wr++;tick(2); return abs(); }
-  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;vc.wr++;tick(3); return absX(); }
-  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;vc.wr++;tick(3); return absY(); }
+  virtual class cl_cell8 &rmwabsX(void) { vc.rd++;tick(2); return dstabsX(); }
+  virtual class cl_cell8 &rmwabsY(void) { vc.rd++;tick(2); return dstabsY(); }
   virtual class cl_cell8 &rmwind(void) { vc.rd++;vc.wr++;tick(1); return ind(); }
   virtual class cl_cell8 &rmwzind(void) { vc.rd++;vc.wr++;tick(1); return zind(); }
   virtual class cl_cell8 &rmwindX(void) { vc.rd++;vc.wr++;tick(1); return indX(); }
@@ -264,7 +265,7 @@ public:
   virtual int STAzx(t_mem code) { return sta(dstzpgX()); }
   virtual int STAay(t_mem code) { return sta(dstabsY()); }
   virtual int STAa (t_mem code) { return sta(dstabs()); }
-  virtual int STAax(t_mem code) { tick(1); return sta(dstabsX()); }
+  virtual int STAax(t_mem code) { return sta(dstabsX()); }
 
   virtual int lda(class cl_cell8 &op);
   virtual int LDAix(t_mem code) { return lda(indX()); }
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index bab2dd9..8f62f86 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -91,7 +91,8 @@ cl_mos65c02::accept_it(class it_level *il)
 {
   class cl_it_src *is= il->source;
 
-  tick(2);
+  // (fetch of BRK took one cycle already)
+  tick((is == src_brk)?1:2);
   push_addr(PC);
   rom->write(0x0100 + rSP, rF|0x20);
   if (set_b)
-- 
2.43.0


From 4827385f73aad1be15ae40277cfa7f9771880350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:01 +0000
Subject: [PATCH 124/256] fix: mos65c02: clock cycles of TSB, TRB, BIT #, JMP
 (abs), shifts abs,X and of decimal ADC and SBC

---
 src/sims/mos6502.src/mos65c02.cc  |  3 +--
 src/sims/mos6502.src/mos65c02cl.h | 10 ++++++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index 8f62f86..f1da5c1 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -134,6 +134,7 @@ cl_mos65c02::BIT8(t_mem code)
   u8_t f= rF & ~(flagZ);
   if (!(rA & v)) f|= flagZ;
   cF.W(f);
+  tick(1);
   return resGO;
 }
 
@@ -181,7 +182,6 @@ cl_mos65c02::tsb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
@@ -194,7 +194,6 @@ cl_mos65c02::trb(class cl_cell8 &op)
   if (!r1) f|= flagZ;
   op.W(r2);
   cF.W(f);
-  tick(2);
   return resGO;
 }
 
diff --git a/src/sims/mos6502.src/mos65c02cl.h b/src/sims/mos6502.src/mos65c02cl.h
index 0bc4a98..8a4eb9b 100644
--- a/src/sims/mos6502.src/mos65c02cl.h
+++ b/src/sims/mos6502.src/mos65c02cl.h
@@ -49,6 +49,16 @@ class cl_mos65c02: public cl_mos6502
   virtual int trb(class cl_cell8 &op);
   virtual int stz(class cl_cell8 &op);
   
+  // Timing differs from NMOS
+  virtual int JMPi(t_mem code) { tick(1); return cl_mos6502::JMPi(code); }
+  virtual int adc(class cl_cell8 &op) { if (rF & flagD) tick(1); return cl_mos6502::adc(op); }
+  virtual int sbc(class cl_cell8 &op) { if (rF & flagD) tick(1); return cl_mos6502::sbc(op); }
+  virtual class cl_cell8 &shabsX(void) { vc.rd++;vc.wr++;tick(2); return absX(); }
+  virtual int ASLax(t_mem code) { return asl(shabsX()); }
+  virtual int LSRax(t_mem code) { return lsr(shabsX()); }
+  virtual int ROLax(t_mem code) { return rol(shabsX()); }
+  virtual int RORax(t_mem code) { return ror(shabsX()); }
+
   // New insts in column 0
   virtual int BRA(t_mem code) { return branch(true); tick(1); }
   // New insts in column 2
-- 
2.43.0


From 35f775cb5b0aea94d7f87d3373dcd0b7d6f04def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 125/256] fix: mos6502: JSR takes 6 clock cycles

---
 src/sims/mos6502.src/ibranch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/mos6502.src/ibranch.cc b/src/sims/mos6502.src/ibranch.cc
index 51acdc2..e03ad76 100644
--- a/src/sims/mos6502.src/ibranch.cc
+++ b/src/sims/mos6502.src/ibranch.cc
@@ -61,6 +61,7 @@ cl_mos6502::JSR(t_mem code)
   op->init();
   stack_write(op);
   PC= a;
+  tick(3);
   return resGO;
 }
 
-- 
2.43.0


From 548f164bb4269ae6dfdecf92a217cb5c2db73257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 126/256] fix: mos6502: pointer on the last address wraps to
 address 0

---
 src/sims/mos6502.src/mos6502.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index f91c29e..3d426be 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -488,7 +488,7 @@ cl_mos6502::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   l= m->read(start_addr);
-  h= m->read(start_addr+1);
+  h= m->read((start_addr+1) & 0xffff);
   return h*256+l;
 }
 
-- 
2.43.0


From 4e074ed91aee3b904bc3931d3f419d6a2ee9f04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 127/256] fix: i8085: RST 2, 3, 6 and 7 jump to their own
 vectors

---
 src/sims/i8085.src/ibranch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ibranch.cc b/src/sims/i8085.src/ibranch.cc
index 2e9cef4..aadf8b2 100644
--- a/src/sims/i8085.src/ibranch.cc
+++ b/src/sims/i8085.src/ibranch.cc
@@ -98,7 +98,7 @@ cl_i8080::PCHL(t_mem code)
 int
 cl_i8080::rst(t_mem code)
 {
-  u16_t a= code & 0x28;
+  u16_t a= code & 0x38;
   push2(PC);
   PC= a;
   return resGO;
-- 
2.43.0


From aa9ea1b61cf118c951b6dc8e399d2b1539487130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 128/256] fix: i8085: carry and auxiliary carry of ADC and SBB
 when operand plus carry overflows

---
 src/sims/i8085.src/ialu.cc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 80a87f0..d8fc593 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -31,9 +31,8 @@ int
 cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 {
   u16_t res;
-  if (add_c && (rF & flagC))
-    op++;
-  res= rA+op;
+  u8_t ci= (add_c && (rF & flagC))?1:0;
+  res= rA+op+ci;
   rF&= ~fAll_A;
   if (!is_daa) rF&= ~flagA;
   if (res>0xff) rF|= flagC;
@@ -41,7 +40,7 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
   res&= 0xff;
   if (!res) rF|= flagZ;
   if (!is_daa)
-    if ((rA&0xf)+(op&0xf) > 0xf)
+    if ((rA&0xf)+(op&0xf)+ci > 0xf)
       rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
@@ -54,17 +53,15 @@ cl_i8080::add8(u8_t op, bool add_c, bool is_daa)
 int
 cl_i8080::sub8(u8_t op, bool sub_c, bool cmp)
 {
-  u16_t orga= rA, orgb= op;
-  if (sub_c && (rF & flagC))
-    op++;
-  op= ~op+1;
-  u16_t res= rA+op;
+  u8_t ci= (sub_c && (rF & flagC))?0:1;
+  op= ~op;
+  u16_t res= rA+op+ci;
   rF&= ~fAll;
-  if (/*res<=0xff*/orga<orgb) rF|= flagC;
+  if (res<=0xff) rF|= flagC;
   if (res&0x80) rF|= flagS;
   res&= 0xff;
   if (!res) rF|= flagZ;
-  if ((rA&0xf)+(op&0xf) > 0xf) rF|= flagA;
+  if ((rA&0xf)+(op&0xf)+ci > 0xf) rF|= flagA;
   rF|= ADDV8(rA,op,res);
   rF|= X5(res);
   rF|= ptab[res];
-- 
2.43.0


From 05be7e61512a9a88a37500055021cf258e1bb0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 129/256] fix: i8085: DAA sets auxiliary carry from the
 correction and flags from the result

---
 src/sims/i8085.src/ialu.cc | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index d8fc593..3ba0a85 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -249,20 +249,9 @@ cl_i8080::DAA(t_mem code)
     c= 9;
   if ((v >= c) || (rF & flagC))
     corr|= 0x60;
-  if (corr)
-    {
-      /*u8_t org= rA;
-      rF&= ~(flagS|flagZ|flagV|flagP|flagK);
-      rA+= corr;
-      if (rA&0x80) rF|= flagS;
-      if (!rA) rF|= flagZ;
-      rF|= ADDV8(org, corr, rA);
-      rF|= X5(rA);
-      rF|= ptab[rA];
-      cF.W(rF);
-      cA.W(rA);*/
-      add8(corr, false, true);
-    }
+  u8_t oc= rF & flagC;
+  add8(corr, false);
+  if (oc) cF.W(rF | flagC);
   return resGO;
 }
 
-- 
2.43.0


From 7339232cc08db89d614fc9fa1b8096b8a046e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 130/256] fix: i8080: auxiliary carry of ANA and ANI comes from
 bit 3 of the operands

---
 src/sims/i8085.src/i8080cl.h | 1 +
 src/sims/i8085.src/i8085cl.h | 1 +
 src/sims/i8085.src/ialu.cc   | 2 +-
 3 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index ff4fa3f..d0b35c9 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -207,6 +207,7 @@ public:
   virtual int add8(u8_t op, bool add_c, bool is_daa= false);
   virtual int sub8(u8_t op, bool sub_c, bool cmp);
   virtual int ana(u8_t op);
+  virtual u8_t ana_ac(u8_t op) { return ((rA|op)&8)?flagA:flagNON; }
   virtual int ora(u8_t op);
   virtual int xra(u8_t op);
   virtual int ADD_A(t_mem code) { return add8(rA, false); }
diff --git a/src/sims/i8085.src/i8085cl.h b/src/sims/i8085.src/i8085cl.h
index 0e29e38..8bf47e0 100644
--- a/src/sims/i8085.src/i8085cl.h
+++ b/src/sims/i8085.src/i8085cl.h
@@ -87,6 +87,7 @@ class cl_i8085: public cl_i8080
 
   virtual u16_t *tick_tab(void) { return tick_tab_8085; }
 
+  virtual u8_t ana_ac(u8_t op) { return flagA; }
   virtual int inx(class cl_memory_cell &op);
   virtual int dcx(class cl_memory_cell &op);
 
diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 3ba0a85..21fb0c8 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -140,7 +140,7 @@ cl_i8080::ana(u8_t op)
 {
   u8_t res= rA & op;
   rF&= ~fAll;
-  rF|= flagA;
+  rF|= ana_ac(op);
   if (!res) rF|= flagZ;
   if (res&0x80) rF|= flagS;
   rF|= X5(res);
-- 
2.43.0


From b26758cee5bb40d7501220dc32c4d9e682310bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:58 +0000
Subject: [PATCH 131/256] fix: i8085: clock cycles of conditional jumps on
 8080, of MOV A,H on 8085 and of instructions overwriting themselves

---
 src/sims/i8085.src/glob.cc  | 10 +++++-----
 src/sims/i8085.src/i8080.cc |  3 ++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sims/i8085.src/glob.cc b/src/sims/i8085.src/glob.cc
index 3f576c8..a4ac789 100644
--- a/src/sims/i8085.src/glob.cc
+++ b/src/sims/i8085.src/glob.cc
@@ -194,10 +194,10 @@ u16_t tick_tab_8080[256]= {
   /* 9_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
   /* b_ */    0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04, 0x04, 0x04,   0x04, 0x04, 0x07, 0x04, 
-  /* c_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* d_ */  0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
-  /* e_ */  0x0b05, 0x0a, 0x0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
-  /* f_ */  0x0b05, 0x0a, 0x0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
+  /* c_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* d_ */  0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x0a, 0x0a0a, 0x0a, 0x110b, 0x11, 0x07, 0x0b, 
+  /* e_ */  0x0b05, 0x0a, 0x0a0a, 0x12, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x05, 0x110b, 0x11, 0x07, 0x0b, 
+  /* f_ */  0x0b05, 0x0a, 0x0a0a, 0x04, 0x110b, 0x0b, 0x07, 0x0b, 0x0b05, 0x05, 0x0a0a, 0x04, 0x110b, 0x11, 0x07, 0x0b
 };
 
 u16_t tick_tab_8085[256]= {
@@ -209,7 +209,7 @@ u16_t tick_tab_8085[256]= {
   /* 4_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 5_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 6_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
-  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x05,   0x04, 0x07, 0x04, 
+  /* 7_ */    0x07, 0x07,   0x07, 0x07,   0x07, 0x07, 0x05, 0x07,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 8_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* 9_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
   /* a_ */    0x04, 0x04,   0x04, 0x04,   0x04, 0x04, 0x07, 0x04,   0x04, 0x04,   0x04,   0x04,   0x04,   0x04, 0x07, 0x04, 
diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 306a01e..4be7407 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -475,12 +475,13 @@ cl_i8080::exec_inst(void)
   int res;
   u16_t *ttab= tick_tab();
 
+  u8_t code= rom->get(PC);
+
   tick_shift= 0;
   if ((res= exec_inst_tab(itab)) == resBREAKPOINT)
     return res;
   if (res != resNOT_DONE)
     {
-      u8_t code= rom->read(instPC);
       u16_t t= ttab[code];
       t>>= tick_shift;
       t&= 0xff;
-- 
2.43.0


From 962ee7ecf0681823d5b5d6bd46b7ffe2c6092981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 132/256] fix: i8085: 16 bit read on the last address wraps to
 address 0

---
 src/sims/i8085.src/i8080.cc  | 8 ++++++++
 src/sims/i8085.src/i8080cl.h | 1 +
 src/sims/i8085.src/i8085.cc  | 6 +++---
 src/sims/i8085.src/imove.cc  | 4 ++--
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sims/i8085.src/i8080.cc b/src/sims/i8085.src/i8080.cc
index 4be7407..0f54e93 100644
--- a/src/sims/i8085.src/i8080.cc
+++ b/src/sims/i8085.src/i8080.cc
@@ -469,6 +469,14 @@ cl_i8080::fetch16()
   return h*256+l;
 }
 
+u16_t
+cl_i8080::read16(u16_t a)
+{
+  u8_t l= rom->read(a);
+  u8_t h= rom->read((a+1) & 0xffff);
+  return h*256+l;
+}
+
 int
 cl_i8080::exec_inst(void)
 {
diff --git a/src/sims/i8085.src/i8080cl.h b/src/sims/i8085.src/i8080cl.h
index d0b35c9..ca8eda9 100644
--- a/src/sims/i8085.src/i8080cl.h
+++ b/src/sims/i8085.src/i8080cl.h
@@ -151,6 +151,7 @@ public:
   virtual u16_t *tick_tab(void) { return tick_tab_8080; }
   virtual class cl_memory_cell &cM(void);
   virtual u16_t fetch16(void);
+  virtual u16_t read16(u16_t a);
   virtual int exec_inst(void);
 
   virtual void push2(u16_t v);
diff --git a/src/sims/i8085.src/i8085.cc b/src/sims/i8085.src/i8085.cc
index 6d1485e..1f3db73 100644
--- a/src/sims/i8085.src/i8085.cc
+++ b/src/sims/i8085.src/i8085.cc
@@ -301,7 +301,7 @@ int
 cl_i8085::LDHI(t_mem code)
 {
   u16_t a= rHL + fetch();
-  cDE.W(read_addr(rom, a));
+  cDE.W(read16(a));
   vc.rd+= 2;
   return resGO;
 }
@@ -310,7 +310,7 @@ int
 cl_i8085::LDSI(t_mem code)
 {
   u16_t a= rSP + fetch();
-  cDE.W(read_addr(rom, a));
+  cDE.W(read16(a));
   vc.rd+= 2;
   return resGO;
 }
@@ -319,7 +319,7 @@ int
 cl_i8085::LHLX(t_mem code)
 {
   u16_t a= rDE;
-  cHL.W(read_addr(rom, a));
+  cHL.W(read16(a));
   vc.rd+= 2;
   return resGO;
 }
diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index a9bb054..08ddd59 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -62,7 +62,7 @@ cl_i8080::STA_a16(t_mem code)
 int
 cl_i8080::LHLD_a16(t_mem code)
 {
-  cHL.W(read_addr(rom, fetch16()));
+  cHL.W(read16(fetch16()));
   vc.rd+= 2;
   return resGO;
 }
@@ -121,7 +121,7 @@ cl_i8080::OUT_INST(t_mem code)
 int
 cl_i8080::XTHL(t_mem code)
 {
-  u16_t temp= read_addr(rom, rSP);
+  u16_t temp= read16(rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
   rom->write(rSP+1, rH);
-- 
2.43.0


From 8402fcd3ae7e07bdb49c911dbb74173ede28b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 133/256] fix: i8085: SHLD and XTHL on the last address wrap to
 address 0

---
 src/sims/i8085.src/imove.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8085.src/imove.cc b/src/sims/i8085.src/imove.cc
index 08ddd59..21d8b76 100644
--- a/src/sims/i8085.src/imove.cc
+++ b/src/sims/i8085.src/imove.cc
@@ -72,7 +72,7 @@ cl_i8080::SHLD_a16(t_mem code)
 {
   u16_t a= fetch16();
   rom->write(a, rL);
-  rom->write(a+1, rH);
+  rom->write((a+1) & 0xffff, rH);
   vc.wr+= 2;
   return resGO;
 }
@@ -124,7 +124,7 @@ cl_i8080::XTHL(t_mem code)
   u16_t temp= read16(rSP);
   vc.rd+= 2;
   rom->write(rSP, rL);
-  rom->write(rSP+1, rH);
+  rom->write((rSP+1) & 0xffff, rH);
   vc.wr+= 2;
   cHL.W(temp);
   return resGO;
-- 
2.43.0


From d1fabb6e7b75d45f58bb4f03828c695d30f795ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 134/256] fix: core: reset drops the pending, not yet reported
 errors

---
 src/core/sim.src/uc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index 9f1a435..afdf10f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -796,6 +796,7 @@ cl_uc::reset(void)
   //sp_avg= 0;
 
   stack_ops->free_all();
+  errors->free_all();
 
   int i;
   for (i= 0; i < hws->count; i++)
-- 
2.43.0


From 4f040217a4c61d3d24a08bdfea4b0fffe64fcc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 135/256] fix: i8085: DAA corrects the high digit only if it is
 above 9 after the correction of the low one

---
 src/sims/i8085.src/ialu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8085.src/ialu.cc b/src/sims/i8085.src/ialu.cc
index 21fb0c8..edee92e 100644
--- a/src/sims/i8085.src/ialu.cc
+++ b/src/sims/i8085.src/ialu.cc
@@ -245,7 +245,7 @@ cl_i8080::DAA(t_mem code)
   if (((rA & 0xf) > 9) || (rF & flagA))
     corr= 6;
   u8_t v= rA>>4, c= 10;
-  if (corr==6)
+  if ((rA & 0xf) > 9)
     c= 9;
   if ((v >= c) || (rF & flagC))
     corr|= 0x60;
-- 
2.43.0


From 638a0ff2e1b9793b6a746ea699c00344bd206112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 136/256] fix: memory cell: address of the chip where the cell
 is decoded to

---
 src/core/sim.src/mem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 8de788e..cf773c5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2160,9 +2160,9 @@ cl_memory_chip::is_slot(void *data_ptr, t_addr *addr_of)
   t_addr i= p - a;
   if (width <= 8)
     /*i*/;
-  if (width <= 16)
+  else if (width <= 16)
     i= i/2;
-  if (width <= 32)
+  else
     i= i/4;
   if (addr_of)
     *addr_of= i;
-- 
2.43.0


From d533d713b0e99b3f64e0c8c737fb1d78056f2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:39 +0000
Subject: [PATCH 137/256] fix: memory create addressdecoder: wrong parameters
 do not crash, area must fit into the chip

---
 src/core/cmd.src/cmd_mem.cc | 4 ++--
 src/core/sim.src/mem.cc     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 619fe7d..b852e8d 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -221,7 +221,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
     chip_begin= params[4]->value.number;
   }
   else
-    syntax_error(con);
+    return syntax_error(con), false;
 
   if (!as->is_address_space())
     con->dd_printf("%s is not an address space\n", as->get_name("unknown"));
@@ -234,7 +234,7 @@ COMMAND_DO_WORK_UC(cl_memory_create_addressdecoder_cmd)
   else if (as_begin < as->start_address ||
            as_end > as->highest_valid_address())
     con->dd_printf("Specified area is out of address space\n");
-  else if (as_end-as_begin > chip->get_size()-chip_begin)
+  else if (as_end-as_begin >= chip->get_size()-chip_begin)
     con->dd_printf("Specified area is out of chip size\n");
   else
     {
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index cf773c5..c0445c5 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2393,7 +2393,7 @@ cl_address_decoder::activate(class cl_console_base *con)
       D("Specified area is out of address space\n");
       return(false);
     }
-  if (as_end-as_begin > memchip->get_size()-chip_begin)
+  if (as_end-as_begin >= memchip->get_size()-chip_begin)
     {
       D("Specified area is out of chip size\n");
       return(false);
-- 
2.43.0


From 7dd0e82badf0ffbf9b10d5300d40a7b880cf06d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 138/256] fix: memory create bank: redefinition of the active
 bank takes effect, wrong bank number is refused

---
 src/core/cmd.src/cmd_mem.cc | 2 ++
 src/core/sim.src/mem.cc     | 5 ++++-
 src/core/sim.src/memcl.h    | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index b852e8d..540c170 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -433,6 +433,8 @@ COMMAND_DO_WORK_UC(cl_memory_create_bank_cmd)
 	con->dd_printf("Specified address is not decoded, create a banker first\n");
       else if (!d->is_banker())
 	con->dd_printf("Specified area is not decoded by banker\n");
+      else if (!d->is_bank(bank))
+	con->dd_printf("Wrong bank number\n");
       else
 	{
 	  d->add_bank(bank, chip, chip_begin);
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index c0445c5..e4c66e3 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2733,7 +2733,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   if (!chip->is_chip())
     return;
 
-  if (bank_nr >= nuof_banks)
+  if (bank_nr < 0 ||
+      bank_nr >= nuof_banks)
     return;
   
   class cl_address_decoder *ad= new cl_address_decoder(address_space,
@@ -2745,6 +2746,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
     {
       delete banks[bank_nr];
       banks[bank_nr]= 0;
+      if (bank == bank_nr)
+	bank= -1;
     }
   banks[bank_nr]= ad;
   /*
diff --git a/src/core/sim.src/memcl.h b/src/core/sim.src/memcl.h
index 21b12d7..a8b6a97 100644
--- a/src/core/sim.src/memcl.h
+++ b/src/core/sim.src/memcl.h
@@ -724,6 +724,7 @@ class cl_banker: public cl_address_decoder
   virtual int init();
   virtual bool is_banker() { return true; }
 
+  virtual bool is_bank(int bank_nr) { return bank_nr >= 0 && bank_nr < nuof_banks; }
   virtual void add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start);
 
   virtual t_mem actual_bank();
-- 
2.43.0


From 63d3d9c63d36161e02837848aaefd378de26a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 139/256] fix: memory create banker: empty mask and reversed
 area are refused, mask can have holes; redefinition of a bank keeps the area
 decoded

---
 src/core/cmd.src/cmd_mem.cc |  4 ++++
 src/core/sim.src/mem.cc     | 11 +++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/cmd.src/cmd_mem.cc b/src/core/cmd.src/cmd_mem.cc
index 540c170..78430b2 100644
--- a/src/core/cmd.src/cmd_mem.cc
+++ b/src/core/cmd.src/cmd_mem.cc
@@ -293,6 +293,10 @@ COMMAND_DO_WORK_UC(cl_memory_create_banker_cmd)
   else if (ase < banked_as->start_address ||
            ase > banked_as->highest_valid_address())
     con->dd_printf("Specified banked end address is out of address space\n");
+  else if (asb > ase)
+    con->dd_printf("Wrong address area specification\n");
+  else if ((mask & 0xffff) == 0 || (mask & ~0xffff) != 0)
+    con->dd_printf("Wrong mask\n");
   else
     {
       class cl_banker *d=
diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index e4c66e3..51cbaeb 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -2632,14 +2632,7 @@ cl_banker::init()
     {
       while ((m&1) == 0)
 	m>>= 1, shift_by++;
-      b= 1;
-      m>>= 1;
-      while ((m&1) != 0)
-	{
-	  m>>= 1;
-	  b++;
-	}
-      nuof_banks= 1 << b;
+      nuof_banks= m+1;
     }
   shift2_by= 0;
   if (banker2_as &&
@@ -2744,6 +2737,8 @@ cl_banker::add_bank(int bank_nr, class cl_memory *chip, t_addr chip_start)
   ad->init();
   if (banks[bank_nr])
     {
+      // the area stays decoded
+      banks[bank_nr]->address_space= NULL;
       delete banks[bank_nr];
       banks[bank_nr]= 0;
       if (bank == bank_nr)
-- 
2.43.0


From 9a79092614d995dfb3020db4bc3f72eb29372f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 140/256] fix: memory: address decoded to a chip again after a
 bit bander uses all bits

---
 src/core/sim.src/mem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/sim.src/mem.cc b/src/core/sim.src/mem.cc
index 51cbaeb..d2122cf 100644
--- a/src/core/sim.src/mem.cc
+++ b/src/core/sim.src/mem.cc
@@ -1189,6 +1189,7 @@ void
 cl_memory_cell::decode(class cl_memory_chip *chip, t_addr addr)
 {
   data= chip->get_slot(addr);
+  set_width(width);
   if (!data)
     {
       data= &def_data;
@@ -1201,6 +1202,7 @@ cl_memory_cell::decode(class cl_memory_chip *chip, t_addr addr)
 void
 cl_memory_cell::decode(void *data_ptr)
 {
+  set_width(width);
   if (data_ptr == NULL)
     {
       data= &def_data;
-- 
2.43.0


From 2ec6be26ad7b4e14a54c5559e47829fbe40abe18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 141/256] fix: memory remove chip: banker using the chip is
 removed only once

---
 src/core/sim.src/uc.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/uc.cc b/src/core/sim.src/uc.cc
index afdf10f..b55940f 100644
--- a/src/core/sim.src/uc.cc
+++ b/src/core/sim.src/uc.cc
@@ -1399,7 +1399,8 @@ cl_uc::remove_chip(class cl_memory *chip)
 		}
 	      if (ad->is_banker())
 		{
-		  if (ad->uses_chip(chip))
+		  if (ad->uses_chip(chip) &&
+		      !bankers.index_of(ad, &idx))
 		    {
 		      bankers.add(ad);
 		    }
-- 
2.43.0


From aa48f5fd958ed496bca4e52dd608564c091202f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 142/256] fix: stm8: RET keeps the extended part of PC

---
 src/sims/stm8.src/stm8.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/stm8.src/stm8.cc b/src/sims/stm8.src/stm8.cc
index a21bc4b..1d75132 100644
--- a/src/sims/stm8.src/stm8.cc
+++ b/src/sims/stm8.src/stm8.cc
@@ -1215,7 +1215,8 @@ cl_stm8::exec_inst(void)
                      return(resINV_INST);
                }
             case 0x80: // ret
-               pop2( PC);
+               pop2( tempi);
+               PC= (PC & 0xff0000) | tempi;
 	       tick(3);
                return(resGO);
             case 0x10: 
-- 
2.43.0


From ed1ae30436b9ed697ea488098141e16349b74453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:08 +0000
Subject: [PATCH 143/256] fix: stm8: JRM and JRNM test if both I0 and I1 are
 set

---
 src/sims/stm8.src/inst.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/stm8.src/inst.cc b/src/sims/stm8.src/inst.cc
index 6bdf9f0..f97199d 100644
--- a/src/sims/stm8.src/inst.cc
+++ b/src/sims/stm8.src/inst.cc
@@ -818,14 +818,14 @@ cl_stm8::inst_jr(t_mem code, unsigned char prefix)
          taken = !(regs.CC & BIT_H);
        break;
       case 6: // JRNM (2C) / JRM (2D)
-        taken = !(regs.CC & (BIT_I1|BIT_I0));
-        break;
-      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
-        taken = 0;
-        break;
-      default:
-        return(resHALT);
-    }
+        taken = (regs.CC & (BIT_I1|BIT_I0)) != (BIT_I1|BIT_I0);
+        break;
+      case 7: // JRIL (2E) / JRIH (2F), no means to test this ???
+        taken = 0;
+        break;
+      default:
+        return(resHALT);
+    }
   }
   else
     return(resHALT);
-- 
2.43.0


From a30807285664f344733c618c945004c911c19854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 144/256] fix: avr: immediate operand of CPI, SBCI and SUBI

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 22d4524..259409c 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -43,7 +43,7 @@ cl_avr::cpi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -93,7 +93,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
@@ -144,7 +144,7 @@ cl_avr::subi_Rd_K(t_mem code)
   t_mem D, K, result, res;
 
   d= 16+((code&0xf0)>>4);
-  K= (code&0xf) | ((code&0xf00)>>8);
+  K= (code&0xf) | ((code&0xf00)>>4);
   D= ram->read(d);
 
   if (K & 0x80)
-- 
2.43.0


From 5e53586d1f4d9d292205e86b1df940ea88afea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 145/256] fix: avr: SBCI, CPC and SBC subtract the carry

---
 src/sims/avr.src/arith_inst.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 259409c..4be4ef4 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -101,7 +101,7 @@ cl_avr::sbci_Rd_K(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)K-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)K-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
@@ -237,7 +237,7 @@ cl_avr::cpc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   
   sreg= sreg & ~(BIT_H|BIT_S|BIT_V|BIT_N|BIT_C);
@@ -287,7 +287,7 @@ cl_avr::sbc_Rd_Rr(t_mem code)
   if (D & 0x80)
     D|= ~0xff;
   t_mem sreg= ram->get(SREG);
-  result= (signed)D-(signed)R-(sreg&BIT_C)?1:0;
+  result= (signed)D-(signed)R-((sreg&BIT_C)?1:0);
   res= result & 0xff;
   ram->write(d, res);
   
-- 
2.43.0


From 85279d3cb91ac3d187eb75d66af0fc3adddf0af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 146/256] fix: avr: half carry of ADC includes the carry

---
 src/sims/avr.src/arith_inst.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 4be4ef4..43e941f 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -485,7 +485,8 @@ cl_avr::adc_Rd_Rr(t_mem code)
   R= ram->read(r);
   D= ram->read(d);
   t_mem sreg= ram->get(SREG);
-  result= D+R+((sreg&BIT_C)?1:0);
+  t_mem oldc= (sreg&BIT_C)?1:0;
+  result= D+R+oldc;
   res= result & 0xff;
   ram->write(d, res);
   
@@ -509,7 +510,7 @@ cl_avr::adc_Rd_Rr(t_mem code)
     sreg|= BIT_C;
   else
     sreg&= ~BIT_C;
-  if ((R&0xf) + (D&0xf) > 15)
+  if ((R&0xf) + (D&0xf) + oldc > 15)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 38738b9ae0e97645d8a70822e393850e00047596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 147/256] fix: avr: half carry of NEG

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 43e941f..aaa961f 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -576,7 +576,7 @@ cl_avr::neg_Rd(t_mem code)
   ram->write(d, res);
   
   t_mem sreg= ram->get(SREG);
-  if (res & (~d) & 0x08)
+  if ((res | D) & 0x08)
     sreg|= BIT_H;
   else
     sreg&= ~BIT_H;
-- 
2.43.0


From 163d2ad28c13c478e7e7c77685dfec6e2369d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 148/256] fix: avr: MUL sets the Z flag

---
 src/sims/avr.src/arith_inst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index aaa961f..62d9d6d 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -845,9 +845,11 @@ cl_avr::mul_Rd_Rr(t_mem code)
   resh= (result>>8) & 0xff;
   ram->write(0, resl);
   ram->write(1, resh);
-  t_mem sreg= ram->read(SREG) & ~BIT_C;
+  t_mem sreg= ram->read(SREG) & ~(BIT_C|BIT_Z);
   if (resh & 0x80)
     sreg|= BIT_C;
+  if (!(resl | resh))
+    sreg|= BIT_Z;
   ram->write(SREG, sreg);
   tick(1);
   return(resGO);
-- 
2.43.0


From 3c1eb13ae9a0976e9da28511366aaf714f56ead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 149/256] fix: avr: overflow of ADIW

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 62d9d6d..0c9ba4f 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -883,7 +883,7 @@ cl_avr::adiw_Rdl_K(t_mem code)
     sreg|= BIT_Z;
   else
     sreg&= ~BIT_Z;
-  if (D&res&0x8000)
+  if ((~D)&res&0x8000)
     sreg|= (BIT_V|BIT_S);
   else
     sreg&= ~(BIT_V|BIT_S);
-- 
2.43.0


From 5289ee8c7e53b57c0d02f03d6ca3ad740fece06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 150/256] fix: avr: immediate operand of SBIW is unsigned

---
 src/sims/avr.src/arith_inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 0c9ba4f..25eb4d7 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -921,8 +921,6 @@ cl_avr::sbiw_Rdl_K(t_mem code)
   dl= 24+(2*((code&0x30)>>4));
   K= ((code&0xc0)>>2)|(code&0xf);
   D= ram->read(dl+1)*256 + ram->read(dl);
-  if (K & 0x20)
-    K|= ~0x3f;
   if (D & 0x8000)
     D|= ~0xffff;
   result= (signed)D-(signed)K;
-- 
2.43.0


From 56a5f8789c9e4673f2f25a0961d7d46b50800463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 151/256] fix: avr: ROR shifts the register

---
 src/sims/avr.src/arith_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/arith_inst.cc b/src/sims/avr.src/arith_inst.cc
index 25eb4d7..7e0d2eb 100644
--- a/src/sims/avr.src/arith_inst.cc
+++ b/src/sims/avr.src/arith_inst.cc
@@ -752,7 +752,7 @@ cl_avr::ror_Rd(t_mem code)
       sreg|= BIT_C;
       c= 1;
     }
-  result= (D >> 1) | oldc?0x80:0;
+  result= (D >> 1) | (oldc?0x80:0);
   res= result & 0xff;
   ram->write(d, res);
   if (res & 0x80)
-- 
2.43.0


From a7c0e75b5327be9c901ad2a0e804dce788fcc837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 152/256] fix: avr: ORI and ANDI read the upper half of the
 registers

---
 src/sims/avr.src/logic_inst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/avr.src/logic_inst.cc b/src/sims/avr.src/logic_inst.cc
index 6d7ae2e..b731165 100644
--- a/src/sims/avr.src/logic_inst.cc
+++ b/src/sims/avr.src/logic_inst.cc
@@ -44,7 +44,7 @@ cl_avr::ori_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K | ram->read(d);
+  data= K | ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
@@ -66,7 +66,7 @@ cl_avr::andi_Rd_K(t_mem code)
 
   d= (code&0xf0)>>4;
   K= ((code&0xf00)>>4)|(code&0xf);
-  data= K & ram->read(d);
+  data= K & ram->read(d+16);
   ram->write(d+16, data);
   set_zn0s(data);
   return(resGO);
-- 
2.43.0


From 7b53a9ece40563628166828663b11a8a921aa7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 153/256] fix: avr: LPM addresses bytes of the program memory

---
 src/sims/avr.src/move_inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/avr.src/move_inst.cc b/src/sims/avr.src/move_inst.cc
index a3489c9..55388e8 100644
--- a/src/sims/avr.src/move_inst.cc
+++ b/src/sims/avr.src/move_inst.cc
@@ -43,7 +43,7 @@ cl_avr::lpm(t_mem code)
   t_mem data;
 
   addr= ram->get(ZH)*256 + ram->get(ZL);
-  data= rom->read(addr);
+  data= rom->read(addr>>1);
   vc.rd++;
   if (addr & 1)
     ram->/*write*/set(0, (data>>8)&0xff);
-- 
2.43.0


From 3682112a51a259758ed77cd44194448a06959fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 154/256] fix: avr: skip instructions take one more cycle per
 skipped word, SBIC and SBIS skip the whole instruction

---
 src/sims/avr.src/jump_inst.cc | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index 85268d9..fb8b290 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -195,7 +195,7 @@ cl_avr::cpse_Rd_Rr(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -325,7 +325,7 @@ cl_avr::sbrc_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -358,7 +358,7 @@ cl_avr::sbrs_Rr_b(t_mem code)
       if (dt[i].mnemonic != NULL)
 	{
 	  PC= rom->validate_address(PC + dt[i].length);
-	  tick(1);
+	  tick(dt[i].length);
 	}
       else
 	return(resINV_INST);
@@ -384,14 +384,9 @@ cl_avr::sbic_P_b(t_mem code)
   vc.rd++;
   if (0 == (mask & ram->read(addr)))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
-      tick(1);
+      int size= inst_length(PC);
+      PC= rom->validate_address(PC + size);
+      tick(size);
     }
   return(resGO);
 }
@@ -414,14 +409,9 @@ cl_avr::sbis_P_b(t_mem code)
   vc.rd++;
   if (mask & ram->read(addr))
     {
-      code= fetch();
-      int size= inst_length(code);
-      while (size > 1)
-	{
-	  fetch();
-	  size--;
-	}
-      tick(1);
+      int size= inst_length(PC);
+      PC= rom->validate_address(PC + size);
+      tick(size);
     }
   return(resGO);
 }
-- 
2.43.0


From febd8df466e7fd11a0fa920b62d77740cddd5d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 155/256] fix: avr: IJMP takes two cycles

---
 src/sims/avr.src/jump_inst.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/avr.src/jump_inst.cc b/src/sims/avr.src/jump_inst.cc
index fb8b290..7aaee60 100644
--- a/src/sims/avr.src/jump_inst.cc
+++ b/src/sims/avr.src/jump_inst.cc
@@ -44,6 +44,7 @@ cl_avr::ijmp(t_mem code)
   z= ram->get(ZH)*256 + ram->get(ZL);
   PC= rom->validate_address((PC & ~0xffff) | z);
   //FIXME: analyze
+  tick(1);
   return(resGO);
 }
 
-- 
2.43.0


From 470aa9f879309e1c2c45641f48677490e3bc4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:47 +0000
Subject: [PATCH 156/256] fix: m6800: loads and stores keep C and clear Z

---
 src/core/motorola.src/imove68.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index 8d01847..e4f4bb8 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -40,7 +40,7 @@ cl_m6800::clr(class cl_memory_cell &dest)
 int
 cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -51,7 +51,7 @@ cl_m6800::lda(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x80) f|= flagN;
@@ -62,7 +62,7 @@ cl_m6800::sta(class cl_memory_cell &dest, u8_t op)
 int
 cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   dest.W(op);
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
@@ -73,7 +73,7 @@ cl_m6800::ldsx(class cl_cell16 &dest, u16_t op)
 int
 cl_m6800::stsx(t_addr a, u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagV|flagC);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
   rom->write(a+1, op&0xff);
   vc.wr+= 2;
-- 
2.43.0


From f34bb64d979d182429127f805b1845c88e5748c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:47 +0000
Subject: [PATCH 157/256] fix: m6800: carry in counts in half carry of ADC

---
 src/core/motorola.src/ialu68.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/ialu68.cc b/src/core/motorola.src/ialu68.cc
index 5875a64..ebb60ee 100644
--- a/src/core/motorola.src/ialu68.cc
+++ b/src/core/motorola.src/ialu68.cc
@@ -90,7 +90,7 @@ cl_m6800::add(class cl_memory_cell &dest, u8_t op, bool c)
   a7= a&0x80; na7= a7^0x80;
   b7= b&0x80; nb7= b7^0x80;
   r7= r&0x80; nr7= r7^0x80;
-  if ((a&0xf) + (b&0xf) > 0xf) f|= flagH;
+  if ((a&0xf) + (b&0xf) + ((c && orgc)?1:0) > 0xf) f|= flagH;
   if (r7) f|= flagN;
   if (!r) f|= flagZ;
   if ((a7&b7&nr7) | (na7&nb7&r7)) f|= flagV;
-- 
2.43.0


From 76bf0e069476f19da738838130137c84fbeea949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:47 +0000
Subject: [PATCH 158/256] fix: m6801: N, V and C of ADDD and SUBD

---
 src/core/motorola.src/m6801.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 076102a..dea68d1 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -128,7 +128,7 @@ cl_m6801::add16(class cl_memory_cell &dest, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a+b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
@@ -149,7 +149,7 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
   u8_t orgc= rF&flagC;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
   u16_t a= dest.read(), b= op, r;
-  u8_t a15, b15, r15, na15, nb15, nr15;
+  u16_t a15, b15, r15, na15, nb15, nr15;
   r= a-b;
   a15= a&0x8000; na15= a15^0x8000;
   b15= b&0x8000; nb15= b15^0x8000;
-- 
2.43.0


From e32dc2ed504dc69b0b37e93144acf6e385319372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 159/256] fix: m6801: C and V of CPX

---
 src/core/motorola.src/m6801.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index dea68d1..1896a03 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -167,18 +167,11 @@ cl_m6801::sub16(class cl_memory_cell &dest, u16_t op)
 int
 cl_m6801::cpx(u16_t op)
 {
-  u32_t r;
-  u16_t x= rX, r2;
+  u16_t x= rX, r= x-op;
   u8_t f= rF & ~(flagN|flagZ|flagV|flagC);
-  op= ~op+1;
-  r= x+op;
-  r2= (x&0x7fff) + (op&0x7fff);
   if (r&0x8000) f|= flagN;
-  if (!(r&0xffff)) f|= flagZ;
-  r &= ~0xffff;
-  r2&= ~0x7fff;
-  if ((r && !r2) ||
-      (!r && r2)) f|= flagV;
+  if (!r) f|= flagZ;
+  if ((x^op) & (x^r) & 0x8000) f|= flagV;
   if (op > x)
     f|= flagC;
   cCC.W(f);
-- 
2.43.0


From c4c1155db96060c0152147615ee4f30407a60cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 160/256] fix: m6800: bits 6 and 7 of CC read as 1 after RTI

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 44a77d6..9b45c36 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -556,7 +556,7 @@ void
 cl_m6800::pull_regs(bool inst_part)
 {
   u8_t l, h;
-  rCC= rom->read(++rSP);
+  cCC.W(rom->read(++rSP));
   rB= rom->read(++rSP);
   rA= rom->read(++rSP);
   h= rom->read(++rSP);
-- 
2.43.0


From 211ae4461f03b22e7cd2b914cc8b360812127942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 161/256] fix: m6800: SWI is enabled after init

---
 src/core/motorola.src/irq68.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/irq68.cc b/src/core/motorola.src/irq68.cc
index 77f70ef..bf4a898 100644
--- a/src/core/motorola.src/irq68.cc
+++ b/src/core/motorola.src/irq68.cc
@@ -46,6 +46,7 @@ cl_irq_hw::init()
   //class cl_var *v;
 
   cl_hw::init();
+  cfg_set(m68_swi_en, 1);
 
   return 0;
 }
-- 
2.43.0


From 48c7fc17028b985618becba28bd01be2f272f93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:00 +0000
Subject: [PATCH 162/256] fix: m6800: 16 bit operands and indexed jumps wrap
 around at 0xffff

---
 src/core/motorola.src/ibranch68.cc | 2 +-
 src/core/motorola.src/imove68.cc   | 2 +-
 src/core/motorola.src/m6800.cc     | 4 ++--
 src/core/motorola.src/m6801.cc     | 6 +++---
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index f502866..8f28c26 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -66,7 +66,7 @@ cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
   a+= rX;
-  PC= a;
+  PC= a&0xffff;
   return resGO;
 }
 
diff --git a/src/core/motorola.src/imove68.cc b/src/core/motorola.src/imove68.cc
index e4f4bb8..ad0f409 100644
--- a/src/core/motorola.src/imove68.cc
+++ b/src/core/motorola.src/imove68.cc
@@ -75,7 +75,7 @@ cl_m6800::stsx(t_addr a, u16_t op)
 {
   u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(a, op>>8);
-  rom->write(a+1, op&0xff);
+  rom->write((a+1)&0xffff, op&0xff);
   vc.wr+= 2;
   if (!op) f|= flagZ;
   if (op&0x8000) f|= flagN;
diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index 9b45c36..ee11c20 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -465,7 +465,7 @@ cl_m6800::peek_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->get(start_addr);
-  l= m->get(start_addr+1);
+  l= m->get((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
@@ -474,7 +474,7 @@ cl_m6800::read_addr(class cl_memory *m, t_addr start_addr)
 {
   u8_t h, l;
   h= m->read(start_addr);
-  l= m->read(start_addr+1);
+  l= m->read((start_addr+1)&0xffff);
   return h*256 + l;
 }
 
diff --git a/src/core/motorola.src/m6801.cc b/src/core/motorola.src/m6801.cc
index 1896a03..b2a7a8c 100644
--- a/src/core/motorola.src/m6801.cc
+++ b/src/core/motorola.src/m6801.cc
@@ -203,7 +203,7 @@ cl_m6801::std(t_addr addr)
     rF|= flagZ;
   cCC.W(rF);
   rom->write(addr, rA);
-  rom->write(addr+1, rB);
+  rom->write((addr+1)&0xffff, rB);
   vc.wr+= 2;
   return resGO;
 }
@@ -213,7 +213,7 @@ int
 cl_m6801::PSHX(t_mem code)
 {
   rom->write(rSP  , rIX);
-  rom->write(rSP-1, rIX>>8);
+  rom->write((rSP-1)&0xffff, rIX>>8);
   cSP.W(rSP-2);
   vc.wr+= 2;
   return resGO;
@@ -223,7 +223,7 @@ cl_m6801::PSHX(t_mem code)
 int
 cl_m6801::PULX(t_mem code)
 {
-  rIX= rom->read(rSP+1) * 256 + rom->read(rSP+2);
+  rIX= rom->read((rSP+1)&0xffff) * 256 + rom->read((rSP+2)&0xffff);
   cIX.W(rIX);
   cSP.W(rSP+2);
   vc.rd+= 2;
-- 
2.43.0


From 695090ec29c7e4cc3e3080046f8759d4bb30ccdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 163/256] fix: m6800: ticks of stacking are counted once in SWI

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index ee11c20..d41ff55 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -522,7 +522,7 @@ cl_m6800::accept_it(class it_level *il)
   class cl_it_src *is= il->source;
 
   if (!wai)
-      push_regs(false);
+      push_regs(is == src_swi);
   wai= false;
   
   if ((is == src_irq) ||
-- 
2.43.0


From e4beebf12715aa060be62fd29a41c8fde51170ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 164/256] fix: m6800: RTI finishes interrupt service, next
 request can be accepted

---
 src/core/motorola.src/inst68.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/motorola.src/inst68.cc b/src/core/motorola.src/inst68.cc
index dd1732b..fe427b8 100644
--- a/src/core/motorola.src/inst68.cc
+++ b/src/core/motorola.src/inst68.cc
@@ -24,6 +24,8 @@ along with UCSIM; see the file COPYING.  If not, write to the Free
 Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 02111-1307, USA. */
 
+#include "itsrccl.h"
+
 #include "m6800cl.h"
 
 int
@@ -36,6 +38,13 @@ int
 cl_m6800::RTI(t_mem code)
 {
   pull_regs(true);
+  class it_level *il= (class it_level *)(it_levels->top());
+  if (il &&
+      il->level >= 0)
+    {
+      il= (class it_level *)(it_levels->pop());
+      delete il;
+    }
   return resGO;
 }
 
-- 
2.43.0


From e7e3e0c646dbb29e1a81959efd11ac41f4df64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:28 +0000
Subject: [PATCH 165/256] fix: m6800: interrupts are masked by the I flag only,
 NMI sets it too

---
 src/core/motorola.src/m6800.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index d41ff55..c58c9ff 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -525,14 +525,14 @@ cl_m6800::accept_it(class it_level *il)
       push_regs(is == src_swi);
   wai= false;
   
-  if ((is == src_irq) ||
-      (is == src_swi))
-    rCC|= flagI;
+  rCC|= flagI;
   
   t_addr a= read_addr(rom, is->addr);
   PC= a;
   
   is->clear();
+  // no priority levels: service can be interrupted by any enabled source
+  il->level= 0;
   it_levels->push(il);
   
   return resGO;
-- 
2.43.0


From 0abcf34a69541c728a56190d2582b690985024c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 166/256] fix: m68hc11: ticks of IDIV, FDIV, MUL, CPY, LDY and
 STY

---
 src/core/motorola.src/m68hc11.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index c04e4a8..8dc7b01 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -45,10 +45,10 @@ instruction_wrapper_fn itab18[256];
 
 i8_t p0ticks11[256]= {
   /*      0  1  2  3  4  5  6  7  8  9  a  b  c  d  e  f  */
-  /* 0 */ 0, 2,40,40, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
+  /* 0 */ 0, 2,41,41, 3, 3, 2, 2, 3, 3, 2, 2, 2, 2, 2, 2,
   /* 1 */ 2, 2, 6, 6, 6, 6, 2, 2, 0, 2, 0, 2, 7, 7, 7, 7,
   /* 2 */ 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
-  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4, 3,14,14,
+  /* 3 */ 3, 3, 4, 4, 3, 3, 3, 3, 5, 5, 3,12, 4,10,14,14,
   /* 4 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 5 */ 2, 0, 0, 2, 2, 0, 2, 2, 2, 2, 2, 0, 2, 2, 0, 2,
   /* 6 */ 6, 0, 0, 6, 6, 0, 6, 6, 6, 6, 6, 0, 6, 6, 3, 6,
@@ -76,11 +76,11 @@ i8_t p18ticks11[256]= {
   /* 8 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 0, 0, 4,
   /* 9 */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0, 0, 0,
   /* a */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 7, 7, 6, 6,
-  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0,
+  /* b */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 5,
-  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 5, 6,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 5, 6
+  /* e */ 5, 5, 5, 7, 5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6
 };
 
 i8_t pcdticks11[256]= {
@@ -119,8 +119,8 @@ i8_t p1aticks11[256]= {
   /* b */ 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* c */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   /* d */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0,
-  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 0
+  /* e */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6, 6,
+  /* f */ 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
 };
 
 
-- 
2.43.0


From 05e9e12af88275a6d0e19c64a0ca9800f99780a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 167/256] fix: m68hc11: LDD, STD and BSET clear V

---
 src/core/motorola.src/m68hc11.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 8dc7b01..734de89 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -479,7 +479,7 @@ CL11::STOP(t_mem code)
 int
 CL11::ldd16(u16_t op)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   cD.W(op);
   if (!op) f|= flagZ;
   if (op & 0x8000) f|= flagN;
@@ -491,7 +491,7 @@ CL11::ldd16(u16_t op)
 int
 CL11::std16(t_addr addr)
 {
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   rom->write(addr, rA);
   rom->write(u16_t(addr+1), rB);
   vc.wr+= 2;
@@ -598,7 +598,7 @@ CL11::bset(class cl_memory_cell &dest)
 {
   u8_t m= fetch();
   u8_t r= dest.R();
-  u8_t f= rF & ~(flagN|flagZ);
+  u8_t f= rF & ~(flagN|flagZ|flagV);
   r|= m;
   dest.W(r);
   if (!r) f|= flagZ;
-- 
2.43.0


From 433a1b728e2888e969d632af9fd8b0e554ac03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 168/256] fix: m68hc11: ABY adds to Y, JMP with Y indexing uses
 Y

---
 src/core/motorola.src/ibranch68.cc | 2 +-
 src/core/motorola.src/m68hc11.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/motorola.src/ibranch68.cc b/src/core/motorola.src/ibranch68.cc
index 8f28c26..a3a81c7 100644
--- a/src/core/motorola.src/ibranch68.cc
+++ b/src/core/motorola.src/ibranch68.cc
@@ -65,7 +65,7 @@ int
 cl_m6800::JMPi(t_mem code)
 {
   t_addr a= fetch();
-  a+= rX;
+  a+= cI->get();
   PC= a&0xffff;
   return resGO;
 }
diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 734de89..a7214c5 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -724,7 +724,7 @@ CL11::ASLD(t_mem code)
 int
 CL11::ABxy(t_mem code)
 {
-  cI->W(rX+rB);
+  cI->W(cI->get()+rB);
   return resGO;
 }
 
-- 
2.43.0


From e164d994f7a7911d619abb9ef58ae10b962c778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 169/256] fix: m68hc11: CPX sets C and V

---
 src/core/motorola.src/m68hc11cl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d0c1700..d8efeae 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -94,6 +94,7 @@ public:
   virtual int bset(class cl_memory_cell &dest);
   virtual int bclr(class cl_memory_cell &dest);
   virtual int cp16(class cl_cell16 &dest, u16_t op);
+  virtual int cpx(u16_t op) { return cp16(cX, op); }
   
   // BRANCH
   virtual int brset(u8_t op);
-- 
2.43.0


From 57cb33df5038c89daa80080ded0b376cdb32f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 170/256] fix: m68hc11: interrupts, SWI, WAI and RTI save and
 restore IY

---
 src/core/motorola.src/m68hc11.cc  | 36 +++++++++++++++++++++++++++++++
 src/core/motorola.src/m68hc11cl.h |  2 ++
 2 files changed, 38 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index a7214c5..7d61067 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -408,6 +408,42 @@ cl_m68hc11::disassc(t_addr addr, chars *comment)
 }
 */
 
+void
+CL11::push_regs(bool inst_part)
+{
+  rom->write(rSP--, PC&0xff);
+  rom->write(rSP--, PC>>8);
+  rom->write(rSP--, rIY&0xff);
+  rom->write(rSP--, rIY>>8);
+  rom->write(rSP--, rIX&0xff);
+  rom->write(rSP--, rIX>>8);
+  rom->write(rSP--, rA);
+  rom->write(rSP--, rB);
+  rom->write(rSP--, rCC);
+  if (!inst_part)
+    tick(9);
+}
+
+void
+CL11::pull_regs(bool inst_part)
+{
+  u8_t l, h;
+  cCC.W(rom->read(++rSP));
+  rB= rom->read(++rSP);
+  rA= rom->read(++rSP);
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIX= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  rIY= h*256+l;
+  h= rom->read(++rSP);
+  l= rom->read(++rSP);
+  PC= h*256+l;
+  if (!inst_part)
+    tick(9);
+}
+
 int
 CL11::PAGE18(t_mem code)
 {
diff --git a/src/core/motorola.src/m68hc11cl.h b/src/core/motorola.src/m68hc11cl.h
index d8efeae..1974ea7 100644
--- a/src/core/motorola.src/m68hc11cl.h
+++ b/src/core/motorola.src/m68hc11cl.h
@@ -83,6 +83,8 @@ public:
   virtual struct dis_entry *get_dis_entry(t_addr addr);
   //virtual char *disassc(t_addr addr, chars *comment=NULL);
   virtual int longest_inst(void) { return 6; }
+  virtual void push_regs(bool inst_part);
+  virtual void pull_regs(bool inst_part);
 
   // MOVE
   virtual int ldd16(u16_t op);
-- 
2.43.0


From e1e43600cbe0907c68b84a3b001342b462d86b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 171/256] fix: m68hc11: addresses of interrupt vectors

---
 src/core/motorola.src/m68hc11.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/motorola.src/m68hc11.cc b/src/core/motorola.src/m68hc11.cc
index 7d61067..972a656 100644
--- a/src/core/motorola.src/m68hc11.cc
+++ b/src/core/motorola.src/m68hc11.cc
@@ -186,6 +186,9 @@ cl_m68hcbase::print_regs(class cl_console_base *con)
 cl_m68hc11::cl_m68hc11(class cl_sim *asim):
   cl_m68hcbase(asim)
 {
+  IRQ_AT	= 0xfff2;
+  NMI_AT	= 0xfff4;
+  SWI_AT	= 0xfff6;
   cCC.decode(&CC);
 }
 
-- 
2.43.0


From 62a3e19904834804590d176a8225b419ca8f92c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:10 +0000
Subject: [PATCH 172/256] fix: m68hc08: 9S08 executes instructions of HCS08

---
 src/sims/m68hc08.src/inst.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 97cd9fa..2dd8163 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1191,12 +1191,12 @@ cl_hc08::inst_sthx(t_mem code, bool prefix)
     ea = fetch();
     tick(1);
   }
-  else if ((code == 0x96) && (type->type == CPU_HCS08))
+  else if ((code == 0x96) && (type->type & (CPU_HCS08|CPU_9S08)))
   {
     ea = fetch2();
     tick(2);
   }
-  else if (prefix && (code == 0xff) && (type->type == CPU_HCS08))
+  else if (prefix && (code == 0xff) && (type->type & (CPU_HCS08|CPU_9S08)))
   {
     ea = regs.SP + fetch();
     tick(1);
@@ -1234,7 +1234,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if ((code == 0x32) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x32) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1242,7 +1242,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xae) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xae) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = (regs.H << 8) | regs.X;
     tick(1);
     regs.H = get1(ea);
@@ -1250,7 +1250,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xbe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xbe) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((regs.H << 8) | regs.X) + fetch2();
     tick(2);
     regs.H = get1(ea);
@@ -1258,7 +1258,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xce) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xce) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((regs.H << 8) | regs.X) + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1266,7 +1266,7 @@ cl_hc08::inst_ldhx(t_mem code, bool prefix)
     regs.X = get1(ea+1);
     tick(1);
   }
-  else if (prefix && (code == 0xfe) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xfe) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = regs.SP + fetch();
     tick(1);
     regs.H = get1(ea);
@@ -1303,14 +1303,14 @@ cl_hc08::inst_cphx(t_mem code, bool prefix)
     tick(2);
     tick(1);
   }
-  else if ((code == 0x3e) && (type->type == CPU_HCS08)) {
+  else if ((code == 0x3e) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = fetch2();
     tick(2);
     operand = (get1(ea) << 8) | get1(ea+1);
     tick(2);
     tick(1);
   }
-  else if (prefix && (code == 0xf3) && (type->type == CPU_HCS08)) {
+  else if (prefix && (code == 0xf3) && (type->type & (CPU_HCS08|CPU_9S08))) {
     ea = ((unsigned char)fetch())+regs.SP;
     tick(1);
     operand = (get1(ea) << 8) | get1(ea+1);
-- 
2.43.0


From 251d26b300682212eb4a59b084a99c774398a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:10 +0000
Subject: [PATCH 173/256] fix: m68hc08: disassembly on 9S08 starts at the
 instruction

---
 src/sims/m68hc08.src/m68hc08.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index f2f6860..e19c5af 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -867,7 +867,7 @@ cl_9s08::get_disasm_info(t_addr addr,
        i++)
     ;
   if (disass_9s08[i].mnemonic == NULL)
-    return cl_s08::get_disasm_info(addr,
+    return cl_s08::get_disasm_info(addr-1,
 				   ret_len,
 				   ret_branch,
 				   immed_offset,
-- 
2.43.0


From 8a172af746a07db57b8b75a8bd2f55d826d219ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 174/256] fix: m68hc08: DBNZ does not affect flags

---
 src/sims/m68hc08.src/inst.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 2dd8163..cc0e9b4 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -675,8 +675,6 @@ cl_hc08::inst_dbnz(t_mem code, bool prefix)
   }
 
   operand--;
-  FLAG_NZ (operand);
-  FLAG_ASSIGN (BIT_V, operand == 0x7f);
 
   if ((code & 0xf0) == 0x40)
     regs.A = operand;
-- 
2.43.0


From d08b871e067e7a884effcbdc52aec622e6e9d136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 175/256] fix: m68hc08: address of byte writes wraps around at
 0xffff

---
 src/sims/m68hc08.src/hc08mac.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/hc08mac.h b/src/sims/m68hc08.src/hc08mac.h
index 66404ec..cdd4ebc 100644
--- a/src/sims/m68hc08.src/hc08mac.h
+++ b/src/sims/m68hc08.src/hc08mac.h
@@ -20,7 +20,7 @@
 #define store2(addr, val) { ram->write((t_addr) (addr) & 0xffff, (val >> 8) & 0xff); \
                             ram->write((t_addr) (addr+1) & 0xffff, val & 0xff); \
   			    vc.wr+=2; }
-#define store1(addr, val) { ram->write((t_addr) (addr), val); vc.wr++; }
+#define store1(addr, val) { ram->write((t_addr) (addr) & 0xffff, val); vc.wr++; }
 //#define get1(addr) ram->get((t_addr) (addr) & 0xffff)
 #define get1(addr) get_1(addr)
 //#define get2(addr) ((ram->get((t_addr) (addr) & 0xffff) << 8) | ram->get((t_addr) (addr+1) & 0xffff) )
-- 
2.43.0


From 1f3bb446b5d64ce9e63e1b7246c562969875b28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 176/256] fix: m68hc08: DAA adjusts A

---
 src/sims/m68hc08.src/inst.cc | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index cc0e9b4..655e0a3 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -893,26 +893,16 @@ cl_hc08::inst_wait(t_mem code, bool prefix)
 int
 cl_hc08::inst_daa(t_mem code, bool prefix)
 {
-  uchar lsn, msn;
+  uchar corr= 0;
 
-  lsn = regs.A & 0xf;
-  msn = (regs.A >> 4) & 0xf;
-  if (regs.P & BIT_H) {
-    lsn += 16;
-    msn = (msn-1) & 0xf;
-  }
-  if (regs.P & BIT_C)
-    msn += 16;
-
-  FLAG_CLEAR (BIT_C);
-  while (lsn>9) {
-    lsn -= 10;
-    msn++;
-  }
-  if (msn>9) {
-    msn = msn % 10;
+  if ((regs.P & BIT_H) || ((regs.A & 0xf) > 9))
+    corr|= 0x06;
+  if ((regs.P & BIT_C) || (regs.A > 0x99)) {
+    corr|= 0x60;
     FLAG_SET (BIT_C);
   }
+  regs.A+= corr;
+  FLAG_NZ (regs.A);
 
   return(resGO);
 }
-- 
2.43.0


From c83ab0e937d71104341ad1b3370eceeb58413cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 177/256] fix: m68hc08: SWI sets the interrupt mask

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index 655e0a3..c924f2f 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -1330,7 +1330,7 @@ cl_hc08::inst_swi(t_mem code, bool prefix)
   tick(1);
   push1(regs.P);
   tick(1);
-  FLAG_CLEAR(BIT_I);
+  FLAG_SET(BIT_I);
 
   PC = get2(0xfffc);
   tick(2);
-- 
2.43.0


From e0324efdbc6091443a72657b5a3b42baf914697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:29 +0000
Subject: [PATCH 178/256] fix: m68hc08: RSP changes the low byte of SP only

---
 src/sims/m68hc08.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m68hc08.src/inst.cc b/src/sims/m68hc08.src/inst.cc
index c924f2f..596a3aa 100644
--- a/src/sims/m68hc08.src/inst.cc
+++ b/src/sims/m68hc08.src/inst.cc
@@ -158,7 +158,7 @@ cl_hc08::inst_setclearflags(t_mem code, bool prefix)
 int
 cl_hc08::inst_rsp(t_mem code, bool prefix)
 {
-  regs.SP = 0x00ff;
+  regs.SP|= 0x00ff;
   return(resGO);
 }
 
-- 
2.43.0


From 33b5d1efb934a6daa899a5f9fa084e5841871c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 179/256] fix: oisc: URISC's ALU does not depend on printing of
 registers

---
 src/sims/oisc.src/urisc.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 7e6314b..379f882 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -78,6 +78,15 @@ cl_urisc::init_alu(void)
 {
   id_str= "Ultimate_RISC";
   reg_cell_var(&cF, &rF, "F", "Flags");
+  class cl_memory_cell *c;
+  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
@@ -90,15 +99,6 @@ cl_urisc::print_regs(class cl_console_base *con)
   con->dd_printf(" 0x%02x", rF);
   con->dd_printf("\n");
   print_disass(PC, con);
-  class cl_memory_cell *c;
-  c= rom->get_cell(0xfff0); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff1); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff2); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff3); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff4); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
-  c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
 }
 
 
-- 
2.43.0


From 56c80016ae5617f089f00ee4cd49f0d2c4bcd294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 180/256] fix: oisc: PC of URISC can be accessed at 0xffff

---
 src/sims/oisc.src/urisc.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 379f882..6850318 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -87,6 +87,7 @@ cl_urisc::init_alu(void)
   c= rom->get_cell(0xfff5); c->append_operator(new cl_op_pass(c, this));
   c= rom->get_cell(0xfff6); c->append_operator(new cl_op_pass(c, this));
   c= rom->get_cell(0xfff7); c->append_operator(new cl_op_pass(c, this));
+  c= rom->get_cell(0xffff); c->append_operator(new cl_op_pass(c, this));
 }
 
 void
-- 
2.43.0


From 43e539abe617bc00a869a1e382981d2b737f4fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:40 +0000
Subject: [PATCH 181/256] fix: oisc: overflow flag of URISC

---
 src/sims/oisc.src/urisc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/oisc.src/urisc.cc b/src/sims/oisc.src/urisc.cc
index 6850318..7f9699f 100644
--- a/src/sims/oisc.src/urisc.cc
+++ b/src/sims/oisc.src/urisc.cc
@@ -61,7 +61,7 @@ cl_urisc::add(u16_t a, u16_t b, u16_t c)
   u32_t sf, ss;
   c= c?1:0;
   sf= a+b+c;
-  ss= (a&0x7fff)+(b+0x7fff)+c;
+  ss= (a&0x7fff)+(b&0x7fff)+c;
   u8_t c1, c2;
   c1= (sf>0xffff)?1:0;
   c2= (ss>0x7fff)?1:0;
-- 
2.43.0


From 7e177f0b630702097752bdb2a0851434c2f99d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 182/256] fix: m68hc08: reset clears the linear address pointer
 of MMU

---
 src/sims/m68hc08.src/m68hc08.cc  | 6 ++++++
 src/sims/m68hc08.src/m68hc08cl.h | 1 +
 2 files changed, 7 insertions(+)

diff --git a/src/sims/m68hc08.src/m68hc08.cc b/src/sims/m68hc08.src/m68hc08.cc
index e19c5af..40e49c8 100644
--- a/src/sims/m68hc08.src/m68hc08.cc
+++ b/src/sims/m68hc08.src/m68hc08.cc
@@ -1009,6 +1009,12 @@ cl_mmu::init(void)
   return 0;
 }
 
+void
+cl_mmu::reset(void)
+{
+  lin_addr= 0;
+}
+
 t_mem
 cl_mmu::read(class cl_memory_cell *cell)
 {
diff --git a/src/sims/m68hc08.src/m68hc08cl.h b/src/sims/m68hc08.src/m68hc08cl.h
index f6a01ca..7593f1c 100644
--- a/src/sims/m68hc08.src/m68hc08cl.h
+++ b/src/sims/m68hc08.src/m68hc08cl.h
@@ -149,6 +149,7 @@ public:
 	 class cl_address_space *Ilas,
 	 class cl_memory_chip *Ilas_chip);
   virtual int init(void);
+  virtual void reset(void);
   virtual unsigned int cfg_size(void) { return 2; }
   virtual t_mem read(class cl_memory_cell *cell);
   virtual void write(class cl_memory_cell *cell, t_mem *val);
-- 
2.43.0


From 02c4d679c58a99a698825baa07124b70a1891fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:25 +0000
Subject: [PATCH 183/256] fix: z80: reset clears I and R

---
 src/sims/z80.src/z80.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index ba3344b..643106c 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -108,6 +108,8 @@ cl_z80::reset(void)
   cl_uc::reset();
   regs.SP= 0xffff;
   regs.AF= 0xffff;
+  regs.iv= 0;
+  regs.R= 0;
   IFF1= false;
   IFF2= false;
   imode= 0;
-- 
2.43.0


From 559b74bc0feb2acd618ace56e0affa22d6b66abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:19 +0000
Subject: [PATCH 184/256] fix: st7: PC wraps around at 64K

---
 src/sims/st7.src/inst.cc | 10 +++++-----
 src/sims/st7.src/st7.cc  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index d30328c..0c7dee7 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -276,13 +276,13 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
 	if(!( dbyte & (1<<pos))) {
-		PC += reljump;
+		PC= (PC + reljump) & 0xffff;
 	}
 	
   } else { // btjt
  	char pos = (code - 0x00) >> 1;
 	if ( dbyte & (1<<pos)) {
-		PC += reljump;
+		PC= (PC + reljump) & 0xffff;
 	}
 	
   }
@@ -295,7 +295,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 {
   int newPC = fetchea(code, prefix);
   push2(PC);
-  PC = newPC;
+  PC = newPC & 0xffff;
 
   return(resGO);
 }
@@ -314,7 +314,7 @@ cl_st7::inst_callr(t_mem code, unsigned char prefix)
    }
    
    push2(PC);
-   PC += newPC;
+   PC= (PC + newPC) & 0xffff;
 
    return(resGO);
 }
@@ -542,7 +542,7 @@ cl_st7::inst_jr(t_mem code, unsigned char prefix)
    }
 
   if (taken)
-    PC += ofs;
+    PC= (PC + ofs) & 0xffff;
 
   return(resGO);
 }
diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index e0117e3..6a94dd7 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -1023,7 +1023,7 @@ cl_st7::exec_inst(void)
          case 0xD0:
          case 0xE0:
          case 0xF0: // JP
-            PC = fetchea(code, cprefix);
+            PC = fetchea(code, cprefix) & 0xffff;
             return( resGO);
             break;
          case 0x80: // 
-- 
2.43.0


From 5a21be73fc931c703a5757604b14d35f0e730ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:15 +0000
Subject: [PATCH 185/256] fix: s51: the request of highest priority is served
 first

---
 src/sims/s51.src/uc51.cc | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 9af4f3d..8c91873 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1820,6 +1820,8 @@ cl_51core::do_interrupt(void)
   if (!((ie= sfr->get(IE)) & bmEA))
     return(resGO);
   class it_level *il= (class it_level *)(it_levels->top()), *IL= 0;
+  class cl_it_src *sel= NULL;
+  int pri= -1;
   for (i= 0; i < it_sources->count; i++)
     {
       class cl_it_src *is= (class cl_it_src *)(it_sources->at(i));
@@ -1831,21 +1833,29 @@ cl_51core::do_interrupt(void)
 	  if (il->level >= 0 &&
 	      pr <= il->level)
 	    continue;
-	  if (state == stIDLE)
+	  if (pr > pri)
 	    {
-	      state= stGO;
-	      sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	      interrupt->was_reti= true;
-	      return(resGO);
+	      sel= is;
+	      pri= pr;
 	    }
-	  is->clear();
-	  sim->app->get_commander()->
-	    debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-			  ticks->get_rtime(), ticks->get_ticks(), object_name(is), PC);
-	  IL= new it_level(pr, is->addr, PC, is);
-	  return(accept_it(IL));
 	}
     }
+  if (sel)
+    {
+      if (state == stIDLE)
+	{
+	  state= stGO;
+	  sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
+	  interrupt->was_reti= true;
+	  return(resGO);
+	}
+      sel->clear();
+      sim->app->get_commander()->
+	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
+	      ticks->get_rtime(), ticks->get_ticks(), object_name(sel), PC);
+      IL= new it_level(pri, sel->addr, PC, sel);
+      return(accept_it(IL));
+    }
   return(resGO);
 }
 
-- 
2.43.0


From 92219591203a1bdeacb1f909c259e5d19efd3fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 186/256] fix: s51: interrupt that ends idle mode is served
 before the next instruction

---
 src/sims/s51.src/uc51.cc | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/sims/s51.src/uc51.cc b/src/sims/s51.src/uc51.cc
index 8c91873..ba75532 100644
--- a/src/sims/s51.src/uc51.cc
+++ b/src/sims/s51.src/uc51.cc
@@ -1842,13 +1842,6 @@ cl_51core::do_interrupt(void)
     }
   if (sel)
     {
-      if (state == stIDLE)
-	{
-	  state= stGO;
-	  sfr->set(PCON, sfr->get(PCON) & ~bmIDL);
-	  interrupt->was_reti= true;
-	  return(resGO);
-	}
       sel->clear();
       sim->app->get_commander()->
 	debug("%g sec (%d clks): Accepting interrupt `%s' PC= 0x%06x\n",
-- 
2.43.0


From ec090405a804c66b9be6e0d9750ebe4eb9d9a612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 187/256] fix: s51: no interrupt is accepted right after write
 of IP

---
 src/sims/s51.src/interrupt.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/interrupt.cc b/src/sims/s51.src/interrupt.cc
index 0cc82c6..97293ff 100644
--- a/src/sims/s51.src/interrupt.cc
+++ b/src/sims/s51.src/interrupt.cc
@@ -54,6 +54,7 @@ cl_interrupt::init(void)
   if (sfr)
     {
       register_cell(sfr, IE);
+      register_cell(sfr, IP);
       cell_tcon= register_cell(sfr, TCON);
       bit_INT0= sfr->read(P3) & bm_INT0;
       bit_INT1= sfr->read(P3) & bm_INT1;
@@ -97,7 +98,7 @@ cl_interrupt::write(class cl_memory_cell *cell, t_mem *val)
       bit_IT1= *val & bmIT1;
     }
   else
-    // IE register
+    // IE or IP register
     was_reti= true;
 }
 
-- 
2.43.0


From bbd87fa93e9b325040d7e231b038cf57b0b6a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:31 +0000
Subject: [PATCH 188/256] fix: s51: IPH takes part in the priority of
 interrupts

---
 src/sims/s51.src/uc51r.cc     | 18 ++++++++++++++++++
 src/sims/s51.src/uc51rcl.h    |  1 +
 src/sims/s51.src/uc89c51r.cc  | 18 ------------------
 src/sims/s51.src/uc89c51rcl.h |  1 -
 4 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/sims/s51.src/uc51r.cc b/src/sims/s51.src/uc51r.cc
index 0278b15..e306957 100644
--- a/src/sims/s51.src/uc51r.cc
+++ b/src/sims/s51.src/uc51r.cc
@@ -121,6 +121,24 @@ cl_uc51r::clear_sfr(void)
   sfr->write(IPH, 0);
 }
 
+int
+cl_uc51r::priority_of(uchar ie_mask)
+{
+  uchar l, h;
+
+  l= sfr->get(IP) & ie_mask;
+  h= sfr->get(IPH) & ie_mask;
+  if (!h && !l)
+    return(0);
+  if (!h && l)
+    return(1);
+  if (h && !l)
+    return(2);
+  if (h && l)
+    return(3);
+  return(0);
+}
+
 
 void
 cl_uc51r::received(int c)
diff --git a/src/sims/s51.src/uc51rcl.h b/src/sims/s51.src/uc51rcl.h
index ef17616..1a7c95f 100644
--- a/src/sims/s51.src/uc51rcl.h
+++ b/src/sims/s51.src/uc51rcl.h
@@ -48,6 +48,7 @@ public:
   virtual void decode_xram(void);
   
   virtual void reset(void);
+  virtual int  priority_of(uchar ie_mask);
   virtual void clear_sfr(void);
 
   virtual void received(int c);
diff --git a/src/sims/s51.src/uc89c51r.cc b/src/sims/s51.src/uc89c51r.cc
index 604265d..a5537ea 100644
--- a/src/sims/s51.src/uc89c51r.cc
+++ b/src/sims/s51.src/uc89c51r.cc
@@ -88,23 +88,5 @@ cl_uc89c51r::reset(void)
   sfr->write(IPH, 0);
 }
 
-int
-cl_uc89c51r::it_priority(uchar ie_mask)
-{
-  uchar l, h;
-
-  l= sfr->get(IP) & ie_mask;
-  h= sfr->get(IPH) & ie_mask;
-  if (!h && !l)
-    return(0);
-  if (!h && l)
-    return(1);
-  if (h && !l)
-    return(2);
-  if (h && l)
-    return(3);
-  return(0);
-}
-
 
 /* End of s51.src/uc89c51r.cc */
diff --git a/src/sims/s51.src/uc89c51rcl.h b/src/sims/s51.src/uc89c51rcl.h
index 9e8c397..c1d8bf8 100644
--- a/src/sims/s51.src/uc89c51rcl.h
+++ b/src/sims/s51.src/uc89c51rcl.h
@@ -44,7 +44,6 @@ public:
   virtual void make_memories(void);
   
   virtual void  reset(void);
-  virtual int   it_priority(uchar ie_mask);
 };
 
 
-- 
2.43.0


From 465bf57b465c6eb520160b002e6d038e66369431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:09 +0000
Subject: [PATCH 189/256] fix: s51: PCA interrupts need ECF or ECCFn to be set

---
 src/sims/s51.src/pca.cc  | 49 ++++++++++++++++++++++++++++++----------
 src/sims/s51.src/pcacl.h | 14 ++++++++++++
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/sims/s51.src/pca.cc b/src/sims/s51.src/pca.cc
index 04b11c4..f0ffd09 100644
--- a/src/sims/s51.src/pca.cc
+++ b/src/sims/s51.src/pca.cc
@@ -45,6 +45,31 @@ cl_pca::cl_pca(class cl_uc *auc, int aid):
   for (i= 0; i < 5; cex_pos[i]= cex_neg[i]= false, i++) ;
 }
 
+/*
+ * Interrupt source of PCA: it has an enable bit of its own, beside EC
+ */
+
+cl_pca_it_src::cl_pca_it_src(class cl_uc *Iuc,
+			     class cl_memory_cell *Ien_cell, t_mem Ien_mask,
+			     class cl_memory_cell *Isrc_cell, t_mem Isrc_mask,
+			     t_addr Iaddr, bool Iclr_bit, bool Iindirect,
+			     const char *Iname, int apoll_priority):
+  cl_it_src(Iuc, bmEC,
+	    Iuc->address_space(MEM_SFR_ID)->get_cell(IE), bmEC,
+	    Isrc_cell, Isrc_mask,
+	    Iaddr, Iclr_bit, Iindirect, Iname, apoll_priority)
+{
+  en_cell= Ien_cell;
+  en_mask= Ien_mask;
+}
+
+bool
+cl_pca_it_src::enabled(void)
+{
+  return cl_it_src::enabled() && (en_cell->get() & en_mask);
+}
+
+
 int
 cl_pca::init(void)
 {
@@ -83,38 +108,38 @@ cl_pca::added_to_uc(void)
   class cl_address_space *sfr= uc->address_space(MEM_SFR_ID);
   class cl_it_src *is;
   
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CCAPM4), bmECCF4,
 					      sfr->get_cell(CCON), bmCCF4,
 					      0x0033, false, false,
 					      "PCA module #4", 5));
   is->init();
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CCAPM3), bmECCF3,
 					      sfr->get_cell(CCON), bmCCF3,
 					      0x0033, false, false,
 					      "PCA module #3", 5));
   is->init();
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CCAPM2), bmECCF2,
 					      sfr->get_cell(CCON), bmCCF2,
 					      0x0033, false, false,
 					      "PCA module #2", 5));
   is->init();
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CCAPM1), bmECCF1,
 					      sfr->get_cell(CCON), bmCCF1,
 					      0x0033, false, false,
 					      "PCA module #1", 5));
   is->init();
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CCAPM0), bmECCF0,
 					      sfr->get_cell(CCON), bmCCF0,
 					      0x0033, false, false,
 					      "PCA module #0", 5));
   is->init();
-  uc->it_sources->add_at(4, is= new cl_it_src(uc, bmEC,
-					      sfr->get_cell(IE), bmEC,
+  uc->it_sources->add_at(4, is= new cl_pca_it_src(uc,
+					      sfr->get_cell(CMOD), bmECF,
 					      sfr->get_cell(CCON), bmCF,
 					      0x0033, false, false,
 					      "PCA counter", 5));
diff --git a/src/sims/s51.src/pcacl.h b/src/sims/s51.src/pcacl.h
index e6947ee..4f88d9a 100644
--- a/src/sims/s51.src/pcacl.h
+++ b/src/sims/s51.src/pcacl.h
@@ -37,6 +37,20 @@ Software Foundation, 59 Temple Place - Suite 330, Boston, MA
 //#include "newcmdcl.h"
 
 
+class cl_pca_it_src: public cl_it_src
+{
+protected:
+  class cl_memory_cell *en_cell;
+  t_mem en_mask;
+public:
+  cl_pca_it_src(class cl_uc *Iuc,
+		class cl_memory_cell *Ien_cell, t_mem Ien_mask,
+		class cl_memory_cell *Isrc_cell, t_mem Isrc_mask,
+		t_addr Iaddr, bool Iclr_bit, bool Iindirect,
+		const char *Iname, int apoll_priority);
+  virtual bool enabled(void);
+};
+
 class cl_pca: public cl_hw
 {
 public:
-- 
2.43.0


From 736ce7f85e1357989008750ab15f31b63e09d659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 190/256] fix: mos6502: B flag is set on the stack by BRK only

---
 src/sims/mos6502.src/mos6502.cc  | 2 +-
 src/sims/mos6502.src/mos65c02.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index 3d426be..e0fe329 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -720,7 +720,7 @@ cl_mos6502::accept_it(class it_level *il)
   // (fetch of BRK took one cycle already)
   tick((is == src_brk)?1:2);
   push_addr(PC);
-  rom->write(SPh + rSP, rF|0x20);
+  rom->write(SPh + rSP, (set_b)?(rF|0x20):((rF|0x20) & ~flagB));
   if (set_b)
     rF&= ~flagB;
   cSP.W(rSP-1);
diff --git a/src/sims/mos6502.src/mos65c02.cc b/src/sims/mos6502.src/mos65c02.cc
index f1da5c1..0c5ded0 100644
--- a/src/sims/mos6502.src/mos65c02.cc
+++ b/src/sims/mos6502.src/mos65c02.cc
@@ -94,7 +94,7 @@ cl_mos65c02::accept_it(class it_level *il)
   // (fetch of BRK took one cycle already)
   tick((is == src_brk)?1:2);
   push_addr(PC);
-  rom->write(0x0100 + rSP, rF|0x20);
+  rom->write(0x0100 + rSP, (set_b)?(rF|0x20):((rF|0x20) & ~flagB));
   if (set_b)
     rF&= ~flagB;
   // All interrupts (incl BRK) clear D flag
-- 
2.43.0


From 62b9ef40afe56e6f5bff5d42ecdc90c2a16ad9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 191/256] fix: mos6502: NMI is edge sensitive

---
 src/sims/mos6502.src/mos6502.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/mos6502.src/mos6502.cc b/src/sims/mos6502.src/mos6502.cc
index e0fe329..5c74896 100644
--- a/src/sims/mos6502.src/mos6502.cc
+++ b/src/sims/mos6502.src/mos6502.cc
@@ -203,7 +203,7 @@ cl_mos6502::mk_hw_elements(void)
 			 irq_nmi,
 			 h->cfg_cell(m65_nmi_en), 1,
 			 h->cfg_cell(m65_nmi), 1,
-			 NMI_AT, false, true,
+			 NMI_AT, true, true,
 			 "Non-maskable interrupt request",
 			 0);
   src_nmi->set_cid('n');
-- 
2.43.0


From 5a6b4726442d9f87071ddc6505a83db87fc6e668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:38 +0000
Subject: [PATCH 192/256] fix: m6800: reset masks interrupts

---
 src/core/motorola.src/m6800.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/motorola.src/m6800.cc b/src/core/motorola.src/m6800.cc
index c58c9ff..79d1203 100644
--- a/src/core/motorola.src/m6800.cc
+++ b/src/core/motorola.src/m6800.cc
@@ -135,7 +135,7 @@ cl_m6800::reset(void)
 {
   cl_uc::reset();
 
-  cCC.W(0xc0);
+  cCC.W(0xc0|flagI);
   PC= read_addr(rom, RESET_AT);
   tick(6);
 }
-- 
2.43.0


From 967012f0219b16e50227d4225f6681b3bc43704e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:07 +0000
Subject: [PATCH 193/256] fix: m6809: arithmetic instructions do not touch E, F
 and I

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 162658d..534f69b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1013,7 +1013,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
 
   if (c) { ++res, ++o; }
   
-  reg.CC= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
   if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
@@ -1043,7 +1043,7 @@ cl_m6809::inst_add16(t_mem code, u16_t *acc, u16_t op, bool c,
     res++;
   r= res;
   
-  reg.CC= (u8_t)(~(flagV|flagS|flagZ|flagC));
+  reg.CC&= (u8_t)(~(flagV|flagS|flagZ|flagC));
   //if ((res < (int)(0x8000)) || (res > (int)(0x7fff)))
   if (is_sub)
     {
-- 
2.43.0


From e03995606a06a1f420af08ad0d871e27adc31fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:07 +0000
Subject: [PATCH 194/256] fix: m6809: half carry of ADC takes carry into
 account

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 534f69b..4ae489b 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1014,7 +1014,7 @@ cl_m6809::inst_add8(t_mem code, u8_t *acc, u8_t op, bool c, bool store, bool inv
   if (c) { ++res, ++o; }
   
   reg.CC&= (u8_t)(~(flagH|flagV|flagS|flagZ|flagC));
-  if ((d & 0xf) + (o & 0xf) > 0xf)  reg.CC|= flagH;
+  if ((d & 0xf) + (op & 0xf) + (c?1:0) > 0xf)  reg.CC|= flagH;
   if ((res < -128) || (res > +127)) reg.CC|= flagV;
   if (d + o > 0xff)                 reg.CC|= flagC;
   if (invert_c)
-- 
2.43.0


From 31bbdf6559d3f08a921305cb487578b465a1d8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 195/256] fix: m6809: ASL sets V flag

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 4ae489b..304e1aa 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1941,6 +1941,8 @@ cl_m6809::inst_asl(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
   op8= (acc)?(*acc):(vc.rd++, tick(1), rom->read(ea));
   newc= op8 & 0x80;
   
+  SET_O( (op8&0x80) ^ ((op8<<1)&0x80) );
+
   op8<<= 1;
 
   if (acc)
-- 
2.43.0


From dc7d42a19c064f5422842d6bfbf1304a5f7bd3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 196/256] fix: m6809: CLR sets Z flag

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 304e1aa..50e75c5 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2051,7 +2051,7 @@ cl_m6809::inst_clr(t_mem code, u8_t *acc, t_addr ea, u8_t op8)
     rom->write(ea, 0), vc.wr++, tick(1);
   
   SET_O(0);
-  SET_Z(1);
+  SET_Z(0);
   SET_S(0);
   SET_C(0);
 
-- 
2.43.0


From 69f1d17f79e05111f534c0c408e24127a93b472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 197/256] fix: m6809: STY and STS store the right register

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 50e75c5..578b391 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2281,7 +2281,7 @@ cl_m6809::inst_page1(t_mem code)
 	  inst_ld16(code, &(reg.S), op16);
       break;
     case 0xf: // STY, STS
-      if (code & 0x40)
+      if ((code & 0x40) == 0)
 	inst_st16(code, reg.Y, ea);
       else
 	inst_st16(code, reg.S, ea);
-- 
2.43.0


From c32bb3b49834720b03681ebdb60200c3fff2d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 198/256] fix: m6809: SWI2 and SWI3 are valid instructions

---
 src/sims/m6809.src/m6809.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 578b391..44624d9 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -2191,6 +2191,7 @@ cl_m6809::inst_page1(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code & 0x80) == 0)
     return resINV_INST;
@@ -2310,6 +2311,7 @@ cl_m6809::inst_page2(t_mem code)
       tick(2);
       tick(1);
       vc.rd+= 2;
+      return resGO;
     }
   if ((code!=0x83)&&(code!=0x8c)&&
       (code!=0x93)&&(code!=0x9c)&&
-- 
2.43.0


From 5a418f07f8c82bc0253639b8f09651b2c426523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 199/256] fix: m6809: addresses of data wrap around at 64K

---
 src/sims/m6809.src/m6809.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 44624d9..36c4a20 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -935,14 +935,14 @@ cl_m6809::index2ea(u8_t idx, t_addr *res_ea)
       if (ind && (idx & 0x10))
 	{
 	  u16_t a;
-	  a= rom->read(ea)*256 + rom->read(ea+1);
+	  a= rom->read(ea & 0xffff)*256 + rom->read((ea+1) & 0xffff);
 	  ea= a;
 	  tick(2);
 	}
     }
 
   if (res_ea)
-    *res_ea= ea;
+    *res_ea= ea & 0xffff;
   return resGO;
 }
 
@@ -1143,7 +1143,7 @@ int
 cl_m6809::inst_st16(t_mem code, u16_t src, t_addr ea)
 {
   rom->write(ea  , (src)>>8);
-  rom->write(ea+1, (src)&0xff);
+  rom->write((ea+1) & 0xffff, (src)&0xff);
   tick(2);
   vc.wr+= 2;
   
@@ -1235,7 +1235,7 @@ cl_m6809::inst_alu(t_mem code)
 	  }
 	else
 	  {
-	    op16= op8*256 + rom->read(ea+1);
+	    op16= op8*256 + rom->read((ea+1) & 0xffff);
 	    tick(1);
 	    vc.rd++;
 	  }
@@ -1276,7 +1276,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -1318,7 +1318,7 @@ cl_m6809::inst_alu(t_mem code)
 	}
       else
 	{
-	  op16= op8*256 + rom->read(ea+1);
+	  op16= op8*256 + rom->read((ea+1) & 0xffff);
 	  tick(1);
 	  vc.rd++;
 	}
@@ -2262,7 +2262,7 @@ cl_m6809::inst_page1(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
@@ -2361,7 +2361,7 @@ cl_m6809::inst_page2(t_mem code)
     }
   else
     {
-      op16= op8*256 + rom->read(ea+1);
+      op16= op8*256 + rom->read((ea+1) & 0xffff);
       tick(1);
       vc.rd++;
     }
-- 
2.43.0


From 03feea8da2ec93f34d3c5268ae5399e626e9aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 200/256] fix: m6809: NMI is edge sensitive

---
 src/sims/m6809.src/m6809.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 36c4a20..2ddf120 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -186,7 +186,7 @@ cl_m6809::mk_hw_elements(void)
 			 h->cfg_cell(cpu_nmi_en), 1,
 			 h->cfg_cell(cpu_nmi), 1,
 			 NMI_AT,
-			 false,
+			 true,
 			 true,
 			 "Non-maskable interrupt request",
 			 0);
-- 
2.43.0


From 4906a4d9f1efd9ee7e56baf305be77374942bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 201/256] fix: m6809: FIRQ is accepted when F flag is clear

---
 src/sims/m6809.src/m6809.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 2ddf120..13fc146 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -178,6 +178,7 @@ cl_m6809::mk_hw_elements(void)
 			  "Fast interrupt request",
 			  0);
   src_firq->set_cid('f');
+  src_firq->set_ie_value(0);
   src_firq->init();
   it_sources->add(src_firq);
   
-- 
2.43.0


From 7dca85ca8204bb3d2a507dae8de56566addc20fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 202/256] fix: m6809: FIRQ pushes CC

---
 src/sims/m6809.src/m6809.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 13fc146..3cb5c4c 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -966,9 +966,9 @@ cl_m6809::push_regs(bool do_cc)
       rom->write(--reg.S, B);
       rom->write(--reg.S, A);
       tick(9);
-      if (do_cc)
-	rom->write(--reg.S, reg.CC), tick(1);
     }
+  if (do_cc)
+    rom->write(--reg.S, reg.CC), tick(1);
 }
 
 void
-- 
2.43.0


From a8e32069e17ad292267a4bb3a5728fc7dd6e2ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:32 +0000
Subject: [PATCH 203/256] fix: m6809: RTI finishes the interrupt service

---
 src/sims/m6809.src/m6809.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sims/m6809.src/m6809.cc b/src/sims/m6809.src/m6809.cc
index 3cb5c4c..ccf54f4 100644
--- a/src/sims/m6809.src/m6809.cc
+++ b/src/sims/m6809.src/m6809.cc
@@ -1763,6 +1763,15 @@ cl_m6809::inst_30(t_mem code)
       break;
     case 0x0b: // RTI
       pull_regs(true);
+      {
+	class it_level *il= (class it_level *)(it_levels->top());
+	if (il &&
+	    il->level >= 0)
+	  {
+	    il= (class it_level *)(it_levels->pop());
+	    delete il;
+	  }
+      }
       tick(1);
       break;
     case 0x0c: // CWAI
@@ -2443,6 +2452,8 @@ cl_m6809::accept_it(class it_level *il)
 
   is->clear();
   
+  // no priority levels: service can be interrupted by any enabled source
+  il->level= 0;
   it_levels->push(il);
   tick(2);
   return resGO;
-- 
2.43.0


From bfc76de7aaf3db8331870666524b75bf1073e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 204/256] fix: s51: timer 0 and 1 count falling edges of T0 and
 T1

---
 src/sims/s51.src/timer0.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 1ea1212..873df61 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -395,8 +395,8 @@ cl_timer0::happen(class cl_hw *where, enum hw_event he, void *params)
     {
       t_mem p3n= ep->new_pins & ep->new_value;
       t_mem p3o= ep->pins & ep->prev_value;
-      if ((p3n & mask_T) &&
-	  !(p3o & mask_T))
+      if (!(p3n & mask_T) &&
+	  (p3o & mask_T))
 	T_edge++;
       INT= p3n & mask_INT;
       //printf("timer%d p%dchanged (%02x,%02x->%02x,%02x) INT=%d(%02x) edge=%d(%02x)\n",id,where->id,ep->prev_value,ep->pins,ep->new_value,ep->new_pins,INT,mask_INT,T_edge,mask_T);
-- 
2.43.0


From 9aa40daff0d59138893b82503d62346a48e70ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 205/256] fix: s51: timer 2 counts every cycle of the
 instruction in capture and reload mode

---
 src/sims/s51.src/timer2.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index ef4a20e..3ed36cd 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -224,10 +224,13 @@ cl_timer2::do_t2_capture(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
-	cell_tcon->set(cell_tcon->get() | bmTF2);
+      if (!cell_tl->set(cell_tl->get() + 1))
+	{
+	  if (!cell_th->set(cell_th->get() + 1))
+	    cell_tcon->set(cell_tcon->get() | bmTF2);
+	}
     }
 }
 
@@ -253,13 +256,16 @@ cl_timer2::do_t2_reload(int cycles)
   if (C_T)
     (cycles= T_edge), T_edge= 0;
 
-  if (!cell_tl->set(cell_tl->get() + 1))
+  while (cycles--)
     {
-      if (!cell_th->set(cell_th->get() + 1))
+      if (!cell_tl->set(cell_tl->get() + 1))
 	{
-	  cell_tcon->set(cell_tcon->get() | mask_TF);
-	  cell_th->set(cell_rcap2h->get());
-	  cell_tl->set(cell_rcap2l->get());
+	  if (!cell_th->set(cell_th->get() + 1))
+	    {
+	      cell_tcon->set(cell_tcon->get() | mask_TF);
+	      cell_th->set(cell_rcap2h->get());
+	      cell_tl->set(cell_rcap2l->get());
+	    }
 	}
     }
 }
-- 
2.43.0


From c286b8360813509aabcc16d71aa4b4a25dbfdb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 206/256] fix: s51: timer 2 mode depends on T2MOD at every
 write of T2CON and T2MOD

---
 src/sims/s51.src/timer2.cc  | 50 ++++++++++++++++++++-----------------
 src/sims/s51.src/timer2cl.h |  1 +
 2 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 3ed36cd..5735cfe 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -97,8 +97,6 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       else
 	n&= ~m;
     }
-  if (exf2it)
-    exf2it->activate();
   if ((cell == cell_tcon) ||
       b)
     {
@@ -108,33 +106,14 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
       TCLK= n & mask_TCLK;
       CP_RL2= n & mask_CP_RL2;
       EXEN2 = n & bmEXEN2;
-      if (!(RCLK || TCLK) &&
-	  !CP_RL2)
-	mode= T2MODE_RELOAD;
-      else if (!(RCLK || TCLK) &&
-	       CP_RL2)
-	mode= T2MODE_CAPTURE;
-      else if (RCLK || TCLK)
-	mode= T2MODE_BAUDRATE;
-      else
-	mode= T2MODE_OFF;
+      select_mode();
       inform_partners(EV_T2_MODE_CHANGED, &n);
     }
   else if (cell == cell_t2mod)
     {
       bit_dcen= (*val & bmDCEN) != 0;
       bit_t2oe= (*val & bmT2OE) != 0;
-      if ((features & t2_down) &&
-	  bit_dcen &&
-	  mode == T2MODE_RELOAD)
-	{
-	  mode= T2MODE_DOWN;
-	  if (exf2it)
-	    exf2it->deactivate();
-	}
-      if ((features & t2_clock_out) &&
-          bit_t2oe)
-        mode= T2MODE_CLKOUT;
+      select_mode();
     }
   if ((mode != oldmode) ||
       (TR && !oldtr) ||
@@ -142,6 +121,31 @@ cl_timer2::write(class cl_memory_cell *cell, t_mem *val)
     T_edge= t2ex_edge= 0;
 }
 
+void
+cl_timer2::select_mode(void)
+{
+  if ((features & t2_clock_out) &&
+      bit_t2oe)
+    mode= T2MODE_CLKOUT;
+  else if (RCLK || TCLK)
+    mode= T2MODE_BAUDRATE;
+  else if (CP_RL2)
+    mode= T2MODE_CAPTURE;
+  else if ((features & t2_down) &&
+	   bit_dcen)
+    mode= T2MODE_DOWN;
+  else
+    mode= T2MODE_RELOAD;
+  if (exf2it)
+    {
+      // EXF2 is not an interrupt flag when the counter can go down
+      if (mode == T2MODE_DOWN)
+	exf2it->deactivate();
+      else
+	exf2it->activate();
+    }
+}
+
 int
 cl_timer2::tick(int cycles)
 { 
diff --git a/src/sims/s51.src/timer2cl.h b/src/sims/s51.src/timer2cl.h
index 2cc9cc1..182ccf2 100644
--- a/src/sims/s51.src/timer2cl.h
+++ b/src/sims/s51.src/timer2cl.h
@@ -79,6 +79,7 @@ public:
   virtual int  do_t2_baud(int cycles);
   virtual void do_t2_capture(int cycles);
   virtual void do_t2_reload(int cycles);
+  virtual void select_mode(void);
   virtual void do_t2_down(int cycles);
   virtual void do_t2_clock_out(int cycles);
   virtual void happen(class cl_hw *where, enum hw_event he, void *params);
-- 
2.43.0


From b13ebf4e713c7b4385f9c851749ee5ac03982d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:32 +0000
Subject: [PATCH 207/256] fix: s51: timer 2 toggles EXF2 when it counts up and
 down

---
 src/sims/s51.src/timer2.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 5735cfe..39143c9 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -320,13 +320,8 @@ cl_timer2::do_t2_down(int cycles)
 	    }
 	}
     }
-  if (toggle &&
-      sfr)
-    {
-      class cl_memory_cell *p1= sfr->get_cell(P1);
-      if (p1)
-	p1->set(p1->get() ^ bmEXF2);
-    }
+  if (toggle)
+    cell_tcon->set(cell_tcon->get() ^ bmEXF2);
 }
 
 void
-- 
2.43.0


From 34efaac6667068fa5999f4ba8ec728aaa8c61a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 208/256] fix: s51: timer 2 mode bits are known at start

---
 src/sims/s51.src/timer2.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 39143c9..d2eafd5 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -36,6 +36,9 @@ cl_timer2::cl_timer2(class cl_uc *auc, int aid, const char *aid_string,
 {
   features= afeatures;
   exf2it= 0;
+  RCLK= TCLK= CP_RL2= EXEN2= 0;
+  t2ex_edge= 0;
+  bit_dcen= bit_t2oe= bit_t2ex= false;
   mask_RCLK= bmRCLK;
   mask_TCLK= bmTCLK;
   mask_CP_RL2= bmCP_RL2;
-- 
2.43.0


From d7458011af9cbec2ffa0d0371996ae1b0e4adebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 209/256] fix: s51: timer 2 counting down underflows after
 RCAP2 value, even if it is 0

---
 src/sims/s51.src/timer2.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index d2eafd5..66a4ca4 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -308,19 +308,16 @@ cl_timer2::do_t2_down(int cycles)
        // DOWN
       while (cycles--)
 	{
-	  t_mem l, h;
-	  if ((l= cell_tl->set(cell_tl->get() - 1)) == 0xff)
-	    h= cell_th->set(cell_th->get() - 1);
-	  else
-	    h= cell_th->get();
-	  if ((u16_t)(h*256+l) <
-	      (u16_t)(cell_rcap2h->get()*256+cell_rcap2l->get()))
+	  if ((cell_th->get() == cell_rcap2h->get()) &&
+	      (cell_tl->get() == cell_rcap2l->get()))
 	    {
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
 	      toggle= true;
 	    }
+	  else if (cell_tl->set(cell_tl->get() - 1) == 0xff)
+	    cell_th->set(cell_th->get() - 1);
 	}
     }
   if (toggle)
-- 
2.43.0


From 563b966330b1ab47e625fd2a9c8396f44b829772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:31 +0000
Subject: [PATCH 210/256] fix: s51: timers 0 and 1 do not count edges while
 gated off

---
 src/sims/s51.src/timer0.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/s51.src/timer0.cc b/src/sims/s51.src/timer0.cc
index 873df61..141285f 100644
--- a/src/sims/s51.src/timer0.cc
+++ b/src/sims/s51.src/timer0.cc
@@ -206,6 +206,8 @@ cl_timer0::mem_cell_changed(class cl_m *mem, t_addr addr)
 int
 cl_timer0::tick(int cycles)
 {
+  if (GATE && !INT)
+    T_edge= 0;
   switch (mode)
     {
     case 0: do_mode0(cycles); break;
-- 
2.43.0


From 7e33c1ca7ab584b89083e465158d84fc16d640ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:53 +0000
Subject: [PATCH 211/256] fix: s51: timer 2 ignores edges which come while they
 are not used

---
 src/sims/s51.src/timer2.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index 66a4ca4..a783f6a 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -151,7 +151,11 @@ cl_timer2::select_mode(void)
 
 int
 cl_timer2::tick(int cycles)
-{ 
+{
+  if (!EXEN2)
+    t2ex_edge= 0;
+  if (!C_T)
+    T_edge= 0;
   switch (mode)
     {
     case T2MODE_BAUDRATE:
-- 
2.43.0


From dc41d4fb53f3f58cf32d9d80c293d10b75a29cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:49 +0000
Subject: [PATCH 212/256] fix: s51: change of port configuration is not a
 change of the port

---
 src/sims/s51.src/port.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sims/s51.src/port.cc b/src/sims/s51.src/port.cc
index 03ef499..4df41bf 100644
--- a/src/sims/s51.src/port.cc
+++ b/src/sims/s51.src/port.cc
@@ -165,7 +165,7 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
 	cfg->write(port_value, port_pins & nv);
     }
   
-  if (bas->is_owned(cell, &ba))
+  else if (bas->is_owned(cell, &ba))
     {
       int bi= ba - addr_p;
       int m= 1 << bi;
@@ -177,9 +177,12 @@ cl_port::write(class cl_memory_cell *cell, t_mem *val)
       if ((port_pins & nv) != cfg->get(port_value))
 	cfg->write(port_value, port_pins & nv);
     }
+  else
+    {
+      conf(cell, val);
+      return;
+    }
 
-  conf(cell, val);
-  
   ep.id= id;
   ep.addr= addr_p;
   ep.prev_value= cell_p->get();
-- 
2.43.0


From 7022e80a19343838ca81112d7bdd34e14577a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:58 +0000
Subject: [PATCH 213/256] fix: s51: timer 2 toggles EXF2 at every overflow when
 it counts up and down

---
 src/sims/s51.src/timer2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/s51.src/timer2.cc b/src/sims/s51.src/timer2.cc
index a783f6a..602edb9 100644
--- a/src/sims/s51.src/timer2.cc
+++ b/src/sims/s51.src/timer2.cc
@@ -303,7 +303,7 @@ cl_timer2::do_t2_down(int cycles)
 		cell_tcon->set(cell_tcon->get() | mask_TF);
 		cell_th->set(cell_rcap2h->get());
 		cell_tl->set(cell_rcap2l->get());
-		toggle= true;
+		toggle= !toggle;
 	      }
 	  }
     }
@@ -318,7 +318,7 @@ cl_timer2::do_t2_down(int cycles)
 	      cell_tcon->set(cell_tcon->get() | mask_TF);
 	      cell_th->set(0xff);
 	      cell_tl->set(0xff);
-	      toggle= true;
+	      toggle= !toggle;
 	    }
 	  else if (cell_tl->set(cell_tl->get() - 1) == 0xff)
 	    cell_th->set(cell_th->get() - 1);
-- 
2.43.0


From 0063b1c6ed017fa8970859b47805cb68a581fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:55 +0000
Subject: [PATCH 214/256] fix: core: value of a variable which names all 32
 bits

---
 src/core/cmd.src/cmd_set.cc | 2 +-
 src/core/sim.src/var.cc     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/cmd.src/cmd_set.cc b/src/core/cmd.src/cmd_set.cc
index bb7185e..7324e17 100644
--- a/src/core/cmd.src/cmd_set.cc
+++ b/src/core/cmd.src/cmd_set.cc
@@ -107,7 +107,7 @@ COMMAND_DO_WORK_UC(cl_set_mem_cmd)
             con->dd_printf("Error: excess data for bit(s)\n");
           else
             {
-              t_mem mask= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+              t_mem mask= ((t_mem)~0 >> (sizeof(t_mem)*8 - (bitnr_high - bitnr_low + 1))) << bitnr_low;
               mem->write(start, (mem->get(start) & (~mask)) | ((array[0] << bitnr_low) & mask));
               uc->check_errors();
               mem->dump(start, bitnr_high, bitnr_low, con);
diff --git a/src/core/sim.src/var.cc b/src/core/sim.src/var.cc
index fd54633..308015e 100644
--- a/src/core/sim.src/var.cc
+++ b/src/core/sim.src/var.cc
@@ -98,7 +98,7 @@ cl_cvar::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= ((t_mem)~0 >> (sizeof(t_mem)*8 - (bitnr_high - bitnr_low + 1))) << bitnr_low;
         }
       else
         {
@@ -157,7 +157,7 @@ cl_var::print_info(cl_console_base *con) const
           con->dd_printf("[%u:%u] = 0b", bitnr_high, bitnr_low);
           for (int i= bitnr_high; i >= bitnr_low; i--)
             con->dd_printf("%c", (m & (1U << i)) ? '1' : '0');
-          m &= ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+          m &= ((t_mem)~0 >> (sizeof(t_mem)*8 - (bitnr_high - bitnr_low + 1))) << bitnr_low;
         }
       else
         {
-- 
2.43.0


From 68e86bac4e316a15ab551ac54005f7c8f6001c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:25 +0000
Subject: [PATCH 215/256] fix: core: vcd output accepts time scale set by user

---
 src/core/sim.src/vcd.cc | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 20ccf8e..983b09b 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -673,7 +673,8 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             con->dd_printf("Units must be ms, us, ns, ps or fs\n");
           if (p1[0] == 't')
-            timescale = time;
+            // output mode counts steps per second
+            timescale = (state == -1 && time > 0) ? 1 / time : time;
           else if (p1[0] == 'p')
             {
               pausetime = time;
@@ -786,18 +787,16 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
 		      else
 			fprintf(fd, "$date\n\t%s$end\n", ctime(&now));
 		      fprintf(fd, "$version\n\tucsim\n$end\n$timescale ");
-                      if (timescale >= 1e15)
-                        fprintf(fd, "%.0ffs", timescale * 1e-15);
-                      else if (timescale >= 1e12)
-                        fprintf(fd, "%.0fps", timescale * 1e-12);
-                      else if (timescale >= 1e9)
-                        fprintf(fd, "%.0fns", timescale * 1e-9);
-                      else if (timescale >= 1e6)
-                        fprintf(fd, "%.0fus", timescale * 1e-6);
-                      else if (timescale >= 1e3)
-                        fprintf(fd, "%.0fms", timescale * 1e-3);
+                      if (timescale <= 1e3)
+                        fprintf(fd, "%.0fms", 1e3 / timescale);
+                      else if (timescale <= 1e6)
+                        fprintf(fd, "%.0fus", 1e6 / timescale);
+                      else if (timescale <= 1e9)
+                        fprintf(fd, "%.0fns", 1e9 / timescale);
+                      else if (timescale <= 1e12)
+                        fprintf(fd, "%.0fps", 1e12 / timescale);
                       else
-                        fprintf(fd, "%.0fms", timescale * 1e3);
+                        fprintf(fd, "%.0ffs", 1e15 / timescale);
 
                       fprintf(fd, " $end\n$scope module %s $end\n", modul.c_str());
 
@@ -1144,16 +1143,16 @@ cl_vcd::print_info(class cl_console_base *con)
         con->dd_printf("  Time scale: auto set on start\n");
       else
         {
-          if (timescale >= 1e15)
-            con->dd_printf("  Time scale: %.0f fs\n", timescale * 1e-15);
-          else if (timescale >= 1e12)
-            con->dd_printf("  Time scale: %.0f ps\n", timescale * 1e-12);
-          else if (timescale >= 1e9)
-            con->dd_printf("  Time scale: %.0f ns\n", timescale * 1e-9);
-          else if (timescale >= 1e6)
-            con->dd_printf("  Time scale: %.0f us\n", timescale * 1e-6);
+          if (timescale <= 1e3)
+            con->dd_printf("  Time scale: %.0f ms\n", 1e3 / timescale);
+          else if (timescale <= 1e6)
+            con->dd_printf("  Time scale: %.0f us\n", 1e6 / timescale);
+          else if (timescale <= 1e9)
+            con->dd_printf("  Time scale: %.0f ns\n", 1e9 / timescale);
+          else if (timescale <= 1e12)
+            con->dd_printf("  Time scale: %.0f ps\n", 1e12 / timescale);
           else
-            con->dd_printf("  Time scale: %.0f ms\n", timescale * 1e-3);
+            con->dd_printf("  Time scale: %.0f fs\n", 1e15 / timescale);
         }
     }
 
-- 
2.43.0


From e65aa2f9e239ce363995a5973e80c2f74f380b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:25 +0000
Subject: [PATCH 216/256] fix: core: vcd of all 32 bits of a cell

---
 src/core/sim.src/vcd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 983b09b..e28dc39 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -120,7 +120,7 @@ cl_vcd_var::cl_vcd_var(class cl_vcd *vcd, char var_id, class cl_memory_cell *cel
   this->bitnr_high = bitnr_high;
   this->bitnr_low = bitnr_low;
 
-  bitmask = ((1U << (bitnr_high - bitnr_low + 1)) - 1) << bitnr_low;
+  bitmask = ((t_mem)~0 >> (sizeof(t_mem)*8 - (bitnr_high - bitnr_low + 1))) << bitnr_low;
 
   if (!(this->var_id = var_id))
     {
-- 
2.43.0


From 1f292d54c995d9f13ebb20b0e425f6d1dc6a2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 217/256] fix: core: vcd start time moves the first input event
 just once

---
 src/core/sim.src/vcd.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index e28dc39..913bafe 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -388,7 +388,8 @@ cl_vcd::parse_header(cl_console_base *con)
         {
           if (token[0] == '#')
             {
-              event = starttime + timescale * strtod(&token[1], NULL);
+              // start adds the start time
+              event = timescale * strtod(&token[1], NULL);
               //uc->sim->app->debug("vcd[%d]: first event at %.15f\n", cl_hw::id, event);
               break;
             }
@@ -685,7 +686,9 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
           else
             {
               starttime += time;
-              event += time;
+              // (time of the next input event is relative while it does not run)
+              if (state == -1 || (started && !paused))
+                event += time;
               //uc->sim->app->debug("vcd[%d]: event rescheduled to %.15f\n", cl_hw::id, event);
             }
           return true;
-- 
2.43.0


From 5cb596a2761ae7256084ce7419f69c2ef872f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:54 +0000
Subject: [PATCH 218/256] fix: core: vcd pause ends the line of its message

---
 src/core/sim.src/vcd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 913bafe..72055c5 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -923,7 +923,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
                     }
                 }
               else
-                con->dd_printf("Not started");
+                con->dd_printf("Not started\n");
               return true;
             }
           if (strcmp(p1, "stop") == 0)
-- 
2.43.0


From 665ee2101259f13ac2564a6dfd31aa1c9b8a98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:21 +0000
Subject: [PATCH 219/256] fix: core: vcd input sets all bits of a cell which is
 named by a variable

---
 src/core/sim.src/vcd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 72055c5..dee03a8 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -446,8 +446,10 @@ cl_vcd::parse_header(cl_console_base *con)
 
           if (param->as_bit(uc))
             {
+              // (a variable of the whole cell has no bit numbers)
+              int low = (param->value.bit.bitnr_low >= 0 ? param->value.bit.bitnr_low : 0);
               if (param->value.bit.mem->is_address_space())
-                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), param->value.bit.bitnr_low + width - 1, param->value.bit.bitnr_low);
+                add_var(con, id, ((cl_address_space *)param->value.bit.mem)->get_cell(param->value.bit.mem_address), low + width - 1, low);
               else
                 con->dd_printf("Unable to interpret %s as a memory/bit reference in an address space\n", token);
             }
-- 
2.43.0


From 5a7c9ce6a435f80ef3e5781fa52125b64f646d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:21 +0000
Subject: [PATCH 220/256] fix: core: vcd del finds variable of a whole cell,
 bit numbers are in order of add

---
 src/core/sim.src/vcd.cc  | 19 ++++++++++++++-----
 src/core/sim.src/vcdcl.h |  4 ++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index dee03a8..68053eb 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -224,8 +224,17 @@ cl_vcd::add_var(class cl_console_base *con, char var_id, class cl_memory_cell *c
 }
 
 void
-cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high)
+cl_vcd::del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_high, int bitnr_low)
 {
+  if (!cell)
+    return;
+
+  if (bitnr_high == -1)
+    bitnr_high = cell->get_width() - 1;
+
+  if (bitnr_low == -1)
+    bitnr_low = 0;
+
   for (class cl_vcd_var **var_p = &vars; *var_p; var_p = &((*var_p)->next_var))
     {
       if ((*var_p)->cell == cell)
@@ -267,11 +276,11 @@ cl_vcd::add_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bi
 }
 
 void
-cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bitnr_low, int bitnr_high)
+cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bitnr_high, int bitnr_low)
 {
   if (!m->is_address_space())
     {
-      if (con) con->dd_printf("%s is not an address space\n");
+      if (con) con->dd_printf("Not an address space\n");
       return;
     }
   if (!m->valid_address(a))
@@ -281,7 +290,7 @@ cl_vcd::del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bi
                               AU(m->highest_valid_address()));
       return;
     }
-  del_var(con, ((cl_address_space*)m)->get_cell(a), bitnr_low, bitnr_high);
+  del_var(con, ((cl_address_space*)m)->get_cell(a), bitnr_high, bitnr_low);
 }
 
 FILE *
@@ -569,7 +578,7 @@ cl_vcd::set_cmd(class cl_cmdline *cmdline, class cl_console_base *con)
             }
           else if (strstr(p1, "del") == p1)
             {
-              del_var(con, params[1]->value.bit.mem, params[1]->value.bit.mem_address, params[1]->value.bit.bitnr_low, params[1]->value.bit.bitnr_high);
+              del_var(con, params[1]->value.bit.mem, params[1]->value.bit.mem_address, params[1]->value.bit.bitnr_high, params[1]->value.bit.bitnr_low);
               return true;
             }
           else if (strcmp(p1, "new") == 0)
diff --git a/src/core/sim.src/vcdcl.h b/src/core/sim.src/vcdcl.h
index cbd3a7c..c40511d 100644
--- a/src/core/sim.src/vcdcl.h
+++ b/src/core/sim.src/vcdcl.h
@@ -70,8 +70,8 @@ class cl_vcd: public cl_hw
     }
   void add_var(class cl_console_base *con, char id, class cl_memory_cell *cell, int bitnr_low, int bitnr_high);
   void add_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bitnr_low, int bitnr_high);
-  void del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_low, int bitnr_high);
-  void del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bitnr_low, int bitnr_high);
+  void del_var(class cl_console_base *con, class cl_memory_cell *cell, int bitnr_high, int bitnr_low);
+  void del_var(class cl_console_base *con, class cl_memory *m, t_addr a, int bitnr_high, int bitnr_low);
 
   FILE *open_vcd(class cl_console_base *con);
   void close_vcd(void);
-- 
2.43.0


From ae74974262cbfd54469cfae7b63bd834d4167c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:35 +0000
Subject: [PATCH 221/256] fix: core: vcd input starts every vector value from
 zero

---
 src/core/sim.src/vcd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/sim.src/vcd.cc b/src/core/sim.src/vcd.cc
index 68053eb..93bc659 100644
--- a/src/core/sim.src/vcd.cc
+++ b/src/core/sim.src/vcd.cc
@@ -1063,6 +1063,7 @@ cl_vcd::tick(int cycles)
               else if (word[0] == 'b' || word[0] == 'B')
                 {
                   // Bit-vector value, next word is ID
+                  value = 0;
                   for (char *ptr = word; *ptr; ptr++)
                     value = (value << 1) | (*ptr == '1' ? 1 : 0);
                   state = 1;
-- 
2.43.0


From 7934e5cbfeb544e954d0c900261c4a02eed63d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:52 +0000
Subject: [PATCH 222/256] fix: s51: reset clears mode bits of timer 2

---
 src/sims/s51.src/uc52.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/s51.src/uc52.cc b/src/sims/s51.src/uc52.cc
index e27fd86..91bbc47 100644
--- a/src/sims/s51.src/uc52.cc
+++ b/src/sims/s51.src/uc52.cc
@@ -128,6 +128,7 @@ cl_uc52::clear_sfr(void)
 {
   cl_51core::clear_sfr();
   sfr->write(T2CON, 0);
+  sfr->write(T2MOD, 0);
   sfr->write(TH2, 0);
   sfr->write(TL2, 0);
   sfr->write(RCAP2L, 0);
-- 
2.43.0


From 4ad156dcea28cb2ec28e5bd800fbaaeea695e2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:22 +0000
Subject: [PATCH 223/256] fix: core: serial input skips just one char of a line
 end

---
 src/core/sim.src/serial_hw.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/sim.src/serial_hw.cc b/src/core/sim.src/serial_hw.cc
index 5b528f9..86499cf 100644
--- a/src/core/sim.src/serial_hw.cc
+++ b/src/core/sim.src/serial_hw.cc
@@ -722,7 +722,7 @@ cl_serial_hw::proc_not_in_menu(cl_f *fin, cl_f *fout)
 	  else if (!input_avail)
 	    {
 	      if (skip_nl /*&& is_nl(c)*/ && (c==skip_nl))
-		;
+		skip_nl= 0;
 	      else
 		{
 		  input= c;
@@ -746,7 +746,7 @@ cl_serial_hw::proc_not_in_menu(cl_f *fin, cl_f *fout)
 	  if (fin->read(&c, 1))
 	    {
 	      if (skip_nl /*&& is_nl(c)*/ && (c==skip_nl))
-		;
+		skip_nl= 0;
 	      else
 		{
 		  input= c;
-- 
2.43.0


From 562e1992f4d90ab03ebf4e9cab91f093ff146d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:05 +0000
Subject: [PATCH 224/256] fix: stm8: uart receives what is left of the input
 when its file is over

---
 src/sims/stm8.src/serial.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sims/stm8.src/serial.cc b/src/sims/stm8.src/serial.cc
index 5a44b59..3bfd783 100644
--- a/src/sims/stm8.src/serial.cc
+++ b/src/sims/stm8.src/serial.cc
@@ -269,13 +269,15 @@ cl_serial::tick(int cycles)
 	}
     }
   if ((ren) &&
-      io->get_fin() &&
       !s_receiving)
     {
       if (cfg_get(serconf_check_often))
 	{
-	  if (io->input_avail())
-	    io->proc_input(0);
+	  if (io->get_fin())
+	    {
+	      if (io->input_avail())
+		io->proc_input(0);
+	    }
 	}
       if (input_avail)
 	{
-- 
2.43.0


From 94c41b411427670a3475bfa46e13584272d9ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:40 +0000
Subject: [PATCH 225/256] fix: set hardware simif with a memory chip tells its
 name

The name was missing from the arguments of the message.
---
 src/core/sim.src/simif.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/simif.cc b/src/core/sim.src/simif.cc
index 1494178..f4c2032 100644
--- a/src/core/sim.src/simif.cc
+++ b/src/core/sim.src/simif.cc
@@ -670,7 +670,7 @@ cl_simulator_interface::set_cmd(class cl_cmdline *cmdline,
       t_addr a= params[1]->value.address;
       if (!mem->is_address_space())
 	{
-	  con->dd_printf("%s is not an address space\n");
+	  con->dd_printf("%s is not an address space\n", mem->get_name());
 	  return true;
 	}
       if (!mem->valid_address(a))
-- 
2.43.0


From 5471b4eed332ee76e428f89f94c1fcb19937017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:41 +0000
Subject: [PATCH 226/256] fix: simif tells the same version by info and by
 command

info hardware simif always printed version 1.
---
 src/core/sim.src/simif.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/sim.src/simif.cc b/src/core/sim.src/simif.cc
index f4c2032..271ef19 100644
--- a/src/core/sim.src/simif.cc
+++ b/src/core/sim.src/simif.cc
@@ -498,7 +498,7 @@ cl_sif_getlimit::produce_answer(void)
 cl_simulator_interface::cl_simulator_interface(class cl_uc *auc):
   cl_hw(auc, HW_SIMIF, 0, "simif")
 {
-  version= 1;
+  version= SIMIF_VERSION;
   as_name= NULL;
   addr= 0;
   commands= new cl_list(2, 2, "sif_commands");
-- 
2.43.0


From 86de1466e45e7fecf24b27bd4d16906c5649f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 227/256] fix: i8048: djnz decrements the register of its code
 and stops at zero

It always took R7, and tested the pointer of the cell instead of its value, so
it always jumped.
---
 src/sims/i8048.src/branch.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/i8048.src/branch.cc b/src/sims/i8048.src/branch.cc
index 8286f10..336982d 100644
--- a/src/sims/i8048.src/branch.cc
+++ b/src/sims/i8048.src/branch.cc
@@ -163,10 +163,10 @@ CL2::JMPPIA(MP)
 int
 CL2::djnz(MP)
 {
-  u8_t r= (code>>5)&7;
+  u8_t r= code&7;
   u8_t a= fetch();
   R[r]->W(R[r]->R() - 1);
-  if (R[r] != 0)
+  if (R[r]->R() != 0)
     {
       PC&= 0xf00;
       PC+= a;
-- 
2.43.0


From 5365dc956cf505b055ed0abefb714b084180dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 228/256] fix: i8048: orld and anld work on the port of their
 code

The port number is in the low two bits of the code.
---
 src/sims/i8048.src/i8020cl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index a89545a..1e4b31b 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -279,14 +279,14 @@ protected:
   int RR(MP);
   int RL(MP);
   int RLC(MP);
-  int ORLDP4A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP5A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP6A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ORLDP7A(MP) { RDWR; return orld(4+(code>>6), &cA); }
-  int ANLDP4A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP5A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP6A(MP) { RDWR; return anld(4+(code>>6), &cA); }
-  int ANLDP7A(MP) { RDWR; return anld(4+(code>>6), &cA); }
+  int ORLDP4A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP5A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP6A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ORLDP7A(MP) { RDWR; return orld(4+(code&3), &cA); }
+  int ANLDP4A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP5A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP6A(MP) { RDWR; return anld(4+(code&3), &cA); }
+  int ANLDP7A(MP) { RDWR; return anld(4+(code&3), &cA); }
   int CLRC(MP) { cF.W(psw & ~flagC); return resGO; }
   int CPLC(MP) { cF.W(psw ^ flagC); return resGO; }
   int XRLIR0(MP) { RD; return xrl(iram_ir(0)); }
-- 
2.43.0


From 8bf061d2e371e591ce4b5a89ef7cb1542bbd9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 229/256] fix: i8048: access of port 4-7 leaves upper half of
 port 2 alone

---
 src/sims/i8048.src/port.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/i8048.src/port.cc b/src/sims/i8048.src/port.cc
index cb6b030..b57056f 100644
--- a/src/sims/i8048.src/port.cc
+++ b/src/sims/i8048.src/port.cc
@@ -219,7 +219,7 @@ cl_p2::set_low(u8_t val)
   r&= 0xf0;
   val&= 0xf;
   r|= val;
-  cfg_write(port_odr, val);
+  cfg_write(port_odr, r);
 }
 
 
-- 
2.43.0


From 48324dfc8d3e510acc04232a3be2072028098679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:19 +0000
Subject: [PATCH 230/256] fix: i8048: anl a,# takes two cycles, mov @rr,a and
 ent0 clk one

---
 src/sims/i8048.src/decode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/i8048.src/decode.h b/src/sims/i8048.src/decode.h
index 5c652ab..011d8e6 100644
--- a/src/sims/i8048.src/decode.h
+++ b/src/sims/i8048.src/decode.h
@@ -90,7 +90,7 @@ DEC( 4f, ORLR7		, "orl a,r7"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 50, ANLIR0		, "anl a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 51, ANLIR1		, "anl a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 52, JB2		, "jb2 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
-DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 1, (void*)"8421" )
+DEC( 53, ANLI8		, "anl a,'i8'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 54, CALL2  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
 DEC( 55, STRTT		, "strt t"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 56, JT1		, "jt1 'a8'"	, 'i', 2, false, 2, (void*)"8421" )
@@ -125,7 +125,7 @@ DEC( 70, ADCIR0		, "adc a,@r0"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 71, ADCIR1		, "adc a,@r1"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 72, JB3		, "jb3 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 74, CALL3  	, "call 'a11'"	, ' ', 2, false, 2, (void*)"8421" )
-DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 2, (void*)"8---" )
+DEC( 75, ENT0CLK        , "ent0 clk"    , ' ', 1, false, 1, (void*)"8---" )
 DEC( 76, JF1		, "jf1 'a8'"	, 'i', 2, false, 2, (void*)"84--" ) //48,41
 DEC( 77, RR		, "rr a"	, ' ', 1, false, 1, (void*)"8421" )
 DEC( 78, ADCR0		, "adc a,r0"	, ' ', 1, false, 1, (void*)"8421" )
@@ -176,8 +176,8 @@ DEC( 9d, ANLDP5A	, "anl p5,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9e, ANLDP6A	, "anl p6,a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( 9f, ANLDP7A	, "anl p7,a"	, ' ', 1, false, 2, (void*)"8421" )
 
-DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 2, (void*)"8421" )
-DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 2, (void*)"8421" )
+DEC( a0, MOVIR0A	, "mov @r0,a"	, ' ', 1, false, 1, (void*)"8421" )
+DEC( a1, MOVIR1A	, "mov @r1,a"	, ' ', 1, false, 1, (void*)"8421" )
 // a2 undefined
 DEC( a3, MOVPAIA	, "movp a,@a"	, ' ', 1, false, 2, (void*)"8421" )
 DEC( a4, JMP5   	, "jmp 'a11'"   , '_', 2, false, 2, (void*)"8421" )
-- 
2.43.0


From ca8af67a2cb9759296656e2c087bab9bc848bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:55 +0000
Subject: [PATCH 231/256] fix: i8048: addc a,@rr is implemented

It was in the instruction table, but executed as an invalid instruction.
---
 src/sims/i8048.src/i8020cl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/i8048.src/i8020cl.h b/src/sims/i8048.src/i8020cl.h
index 1e4b31b..d6b3804 100644
--- a/src/sims/i8048.src/i8020cl.h
+++ b/src/sims/i8048.src/i8020cl.h
@@ -231,6 +231,8 @@ protected:
   int ADDR5(MP) { return add(R[5]->read(), false); }
   int ADDR6(MP) { return add(R[6]->read(), false); }
   int ADDR7(MP) { return add(R[7]->read(), false); }
+  int ADCIR0(MP) { return add(read_ir(0), true); }
+  int ADCIR1(MP) { return add(read_ir(1), true); }
   int ADCR0(MP) { return add(R[0]->read(), true); }
   int ADCR1(MP) { return add(R[1]->read(), true); }
   int ADCR2(MP) { return add(R[2]->read(), true); }
-- 
2.43.0


From 4926eb5f50b86924afde303c5f24aa747d803cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:24 +0000
Subject: [PATCH 232/256] fix: pdk: cneqsn of the 13 bit core is implemented

---
 src/sims/pdk.src/pdk13.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index 5d654d1..6d91b61 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -324,6 +324,17 @@ cl_fpp13::execute(unsigned int code)
     sub_to(rA, get_mem(addr));
     if (rA == get_mem(addr))
       ++PC;
+  } else if (CODE_MASK(0x1300, 0xFF)) {
+    // cneqsn a, k
+    sub_to(rA, code & 0xFF);
+    if (rA != (code & 0xFF))
+      ++PC;
+  } else if (CODE_MASK(0x0BC0, 0x3F)) {
+    // cneqsn a, m
+    u8_t value= get_mem(code & 0x3F);
+    sub_to(rA, value);
+    if (rA != value)
+      ++PC;
   } else if (code == 0x0012) {
     // izsn
     rA = add_to(rA, 1);
-- 
2.43.0


From 9d8dc57caf52b7814016bd33156559a91e1e5510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:10 +0000
Subject: [PATCH 233/256] fix: st7: X and Y registers are 8 bit cells of the
 register space

---
 src/sims/st7.src/st7.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index 6a94dd7..a88c55d 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -164,16 +164,17 @@ cl_st7::make_memories(void)
   as->decoders->add(ad);
   ad->activate(0);
 
-  regs8= new cl_address_space("regs8", 0, 2, 8);
+  regs8= new cl_address_space("regs8", 0, 4, 8);
   regs8->init();
   regs8->get_cell(0)->decode((t_mem*)&regs.A);
   regs8->get_cell(1)->decode((t_mem*)&regs.CC);
 
+  regs8->get_cell(2)->decode((t_mem*)&regs.X);
+  regs8->get_cell(3)->decode((t_mem*)&regs.Y);
+
   regs16= new cl_address_space("regs16", 0, 3, 16);
   regs16->init();
 
-  regs16->get_cell(0)->decode((t_mem*)&regs.X);
-  regs16->get_cell(1)->decode((t_mem*)&regs.Y);
   regs16->get_cell(2)->decode((t_mem*)&regs.SP);
 
   address_spaces->add(regs8);
-- 
2.43.0


From 054266ff25827399f55864477b9524b7c51baef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:37 +0000
Subject: [PATCH 234/256] fix: st7: N flag of NEG, SWAP, TNZ and of the shifts
 is bit 7 of the result

---
 src/sims/st7.src/inst.cc | 48 +++++++---------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 0c7dee7..06c91c1 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -646,11 +646,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, operand);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -709,11 +705,7 @@ cl_st7::inst_rlc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x100));
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
       regs.A = operand;
@@ -753,11 +745,7 @@ cl_st7::inst_rrc(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -815,11 +803,7 @@ cl_st7::inst_sll(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (opres & 0x100));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -859,11 +843,7 @@ cl_st7::inst_sra(t_mem code, unsigned char prefix)
   
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -899,11 +879,7 @@ cl_st7::inst_srl(t_mem code, unsigned char prefix)
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
    FLAG_ASSIGN (BIT_C, (operand & 0x1));
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -958,11 +934,7 @@ cl_st7::inst_swap(t_mem code, unsigned char prefix)
    
    
    FLAG_ASSIGN (BIT_Z, (opres & 0xff) == 0);
-   if (opres == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & opres);
 
    if ((code&0xf0)==0x40) {
       regs.A = opres;
@@ -995,11 +967,7 @@ cl_st7::inst_tnz(t_mem code, unsigned char prefix)
    }
    
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   if (operand == 0x80) {
-	   FLAG_SET (BIT_N);
-   } else {
-      FLAG_CLEAR (BIT_N);
-   }
+   FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    return(resGO);
 }
-- 
2.43.0


From 10f8647c087f90c00c4f024b107592e37671d9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 235/256] fix: st7: NEG of zero clears the carry

---
 src/sims/st7.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 06c91c1..5d4f56d 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -645,7 +645,7 @@ cl_st7::inst_neg(t_mem code, unsigned char prefix)
    operand++;
   
    FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
-   FLAG_ASSIGN (BIT_C, operand);
+   FLAG_ASSIGN (BIT_C, operand & 0xff);
    FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((code&0xf0)==0x40) {
-- 
2.43.0


From d09b0ab35e9ff97fbb18cf21e42b22ec920b417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 236/256] fix: st7: loading a register from memory sets N and Z

---
 src/sims/st7.src/inst.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 5d4f56d..0722da5 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -554,10 +554,8 @@ cl_st7::inst_ldxy(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
    if ((prefix == 0x90) || (prefix == 0x91)) {
      regs.Y = operand;
@@ -575,10 +573,8 @@ cl_st7::inst_lda(t_mem code, unsigned char prefix)
 
   operand = OPERAND(code, prefix);
 
-//  FLAG_ASSIGN (BIT_Z, (result & 0xff) == 0);
-//  FLAG_ASSIGN (BIT_C, 0x100 & result);
-//  FLAG_ASSIGN (BIT_N, 0x80 & result);
-//  FLAG_ASSIGN (BIT_H, 0x10 & (operand1 ^ operand2 ^ result));
+  FLAG_ASSIGN (BIT_Z, (operand & 0xff) == 0);
+  FLAG_ASSIGN (BIT_N, 0x80 & operand);
 
   regs.A = operand;
    
-- 
2.43.0


From d72cb96dd0ce7ad9152a1e81cbe7da4985eac42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 237/256] fix: st7: BTJT and BTJF copy the tested bit into the
 carry

---
 src/sims/st7.src/inst.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 0722da5..769c68f 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -271,7 +271,9 @@ cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
   unsigned char dbyte = get1( ea);
-  char reljump = fetch();
+  signed char reljump = fetch();
+
+  FLAG_ASSIGN (BIT_C, dbyte & (1 << ((code >> 1) & 7)));
   
   if (code & 0x01) { // btjf  
 	char pos = (code - 0x01) >> 1;
-- 
2.43.0


From e4591c14b8a73db9813d6d26b6a51202d1268043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 238/256] fix: st7: indirect addressing of the bit instructions

---
 src/sims/st7.src/inst.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 769c68f..80ca0ad 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -250,6 +250,8 @@ int
 cl_st7::inst_bresbset(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // the byte is a pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   
   if (code & 0x01) { // bres  
@@ -270,6 +272,8 @@ int
 cl_st7::inst_btjfbtjt(t_mem code, unsigned char prefix)
 {
   int ea = fetch();
+  if (prefix == 0x92) // the byte is a pointer
+    ea = get1(ea);
   unsigned char dbyte = get1( ea);
   signed char reljump = fetch();
 
-- 
2.43.0


From 6acbea329d9de1e0340a615e0921e4634d0e766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 239/256] fix: st7: addresses of long indexed operands wrap at
 64K

---
 src/sims/st7.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 80ca0ad..366e7c5 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -73,15 +73,15 @@ cl_st7::fetchea(t_mem code, unsigned char prefix)
 
     case 0xd:
 	  if ( 0 == prefix) {              // long offset with X reg
-        resaddr = (fetch2()+regs.X);
+        resaddr = (fetch2()+regs.X) & 0xffff;
 	  } else if ( 0x90 == prefix) {    // long offset with Y reg
-        resaddr = (fetch2()+regs.Y);
+        resaddr = (fetch2()+regs.Y) & 0xffff;
 	  } else if ( 0x91 == prefix) {    // pointer to long offset with Y
       ftc = fetch();
-	    resaddr = (get2(ftc)+regs.Y);
+	    resaddr = (get2(ftc)+regs.Y) & 0xffff;
 	  } else if ( 0x92 == prefix) {    // pointer to long offset with X
        ftc = fetch();
-	    resaddr = (get2(ftc)+regs.X);
+	    resaddr = (get2(ftc)+regs.X) & 0xffff;
 	  } else {
 	    resaddr =( resHALT);
 	  }
-- 
2.43.0


From 43caf7f30efbd521de793f0334a287d32b5173c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 240/256] fix: st7: MUL clears H and C

---
 src/sims/st7.src/st7.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/st7.src/st7.cc b/src/sims/st7.src/st7.cc
index a88c55d..b91a0f0 100644
--- a/src/sims/st7.src/st7.cc
+++ b/src/sims/st7.src/st7.cc
@@ -592,6 +592,7 @@ cl_st7::exec_inst(void)
             } else {
                return (resHALT);
             }
+            FLAG_CLEAR (BIT_H | BIT_C);
             return (resGO);
             break;
          case 0xA0:
-- 
2.43.0


From 79e4f1e4d474dbb2f71b3f561331b459ed7b7835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:38 +0000
Subject: [PATCH 241/256] fix: st7: CALLR has a signed displacement on every
 host

---
 src/sims/st7.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/st7.src/inst.cc b/src/sims/st7.src/inst.cc
index 366e7c5..1b4973b 100644
--- a/src/sims/st7.src/inst.cc
+++ b/src/sims/st7.src/inst.cc
@@ -309,7 +309,7 @@ cl_st7::inst_call(t_mem code, unsigned char prefix)
 int
 cl_st7::inst_callr(t_mem code, unsigned char prefix)
 {
-   char newPC;
+   signed char newPC;
 
    if (prefix == 0x0) {
       newPC = fetch1();
-- 
2.43.0


From 273a0ad3a83f5ab16ceb7f8e8e2dd48ffa90089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:52 +0000
Subject: [PATCH 242/256] fix: pblaze: STAR writes the register named by its
 first operand

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index d1e7d85..342ca8f 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -785,7 +785,7 @@ cl_pblaze::inst_star(uint code, int operands)
 
   if (operands == REG_REG) {
     // getting register from inactive register bank
-    unsigned char reg_code = (code & 0x000f0) >> 4;
+    unsigned char reg_code = (code & 0x00f00) >> 8;
     if (active_regbank == REGISTER_BANK_A)
       reg_code += 0x10;
 
-- 
2.43.0


From 12096d1653398f37a1bf9d91a4ecce7e99dab671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:52 +0000
Subject: [PATCH 243/256] fix: pblaze: OUTPUTK outputs all bits of its constant

---
 src/sims/pblaze.src/inst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index 342ca8f..b5ec954 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -571,7 +571,7 @@ cl_pblaze::inst_outputk(uint code, int operands)
   u8_t port;
 
   if (operands == CONSTANT_PORT) {
-    constant = (code & 0x00ff0) >> 8;
+    constant = (code & 0x00ff0) >> 4;
     port = code & 0x0000f;
   }
   else {
-- 
2.43.0


From edc856f991e95f9751975a636d220214089f4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:52 +0000
Subject: [PATCH 244/256] fix: pblaze: return addresses wrap at the end of the
 program memory

---
 src/sims/pblaze.src/inst.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/pblaze.src/inst.cc b/src/sims/pblaze.src/inst.cc
index b5ec954..501a4a8 100644
--- a/src/sims/pblaze.src/inst.cc
+++ b/src/sims/pblaze.src/inst.cc
@@ -240,7 +240,7 @@ cl_pblaze::inst_call(uint code, int inst, int operands)
   }
 
   if (jump) {
-    if (stack_push(PC-1)) {
+    if (stack_push(rom->inc_address(PC, -1))) {
       fprintf(stderr, "Call stack overflow.\n");
 
       if (type->type == CPU_PBLAZE_6)
@@ -494,7 +494,7 @@ cl_pblaze::inst_load_return(uint code, int operands)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = rom->inc_address(addr);
   }
   else {
     fprintf(stderr, "LOAD&RETURN: Unsupported operand type\n");
@@ -642,7 +642,7 @@ cl_pblaze::inst_return(uint code, int inst)
 
       //return (resERROR);
     }
-    PC = addr+1;
+    PC = rom->inc_address(addr);
   }
 
   return(resGO);
@@ -660,7 +660,7 @@ cl_pblaze::inst_returni(bool interrupt_enable)
 
     //return (resERROR);
   }
-  PC = addr+1;
+  PC = rom->inc_address(addr);
 
   FLAGS_SET_C(interrupt->preserved_flag_c);
   FLAGS_SET_Z(interrupt->preserved_flag_z);
-- 
2.43.0


From d8545f1de90b8fce260d0d7d6930177b49405c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:52 +0000
Subject: [PATCH 245/256] fix: pblaze: built-in hardware constant has a default
 value

---
 src/sims/pblaze.src/pblaze.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sims/pblaze.src/pblaze.cc b/src/sims/pblaze.src/pblaze.cc
index bd29771..4661fd9 100644
--- a/src/sims/pblaze.src/pblaze.cc
+++ b/src/sims/pblaze.src/pblaze.cc
@@ -1414,6 +1414,7 @@ cl_pblaze::init_uc_parameters(void)
   }
 
   // built-in hardware constant
+  hw_constant = 0;
   opt = sim->app->options->get_option("pblaze_hw_const");
   if (opt != NULL) {
     if (type->type == CPU_PBLAZE_6) {
-- 
2.43.0


From 0c5d1a8c139359addb1455927acd6164b1b31007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:28 +0000
Subject: [PATCH 246/256] fix: gb80: H and C of ADD SP,d and LD HL,SP+d come
 from the low byte

---
 src/sims/z80.src/inst_gb80.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 928b81e..c93be74 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -324,9 +324,9 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   d |= (d>>7)*0xFF00;
   
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.SP = (regs.SP + d) & 0xffff;
@@ -358,9 +358,9 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
   d |= (d>>7)*0xFF00;
 
   regs.raf.F &= ~(BIT_ALL);  /* clear these */
-  if ((regs.SP & 0x0FFF) + (d & 0x0FFF) > 0x0FFF)
+  if ((regs.SP & 0x0F) + (d & 0x0F) > 0x0F)
     regs.raf.F |= BIT_A;
-  if (regs.SP + (int)(d) > 0xffff)
+  if ((regs.SP & 0xFF) + (d & 0xFF) > 0xFF)
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-- 
2.43.0


From 51860d1c5329e87286d5391b7fa5666cec018f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:28 +0000
Subject: [PATCH 247/256] fix: gb80: CCF clears H

---
 src/sims/z80.src/gb80cl.h     | 2 ++
 src/sims/z80.src/inst_gb80.cc | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e859f24..e91807e 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -101,6 +101,8 @@ public:
   virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
 
+  virtual int inst_ccf  (t_mem code);
+
   virtual int inst_st_sp_abs(t_mem code);
   virtual int inst_stop0    (t_mem code);
   
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index c93be74..865e76b 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -226,6 +226,13 @@ int cl_gb80::inst_add(t_mem code)
   return(resGO);
 }
 
+int cl_gb80::inst_ccf(t_mem code)
+{
+  regs.raf.F &= ~(BIT_A | BIT_N);
+  regs.raf.F ^= BIT_C;
+  return(resGO);
+}
+
 int cl_gb80::inst_st_sp_abs(t_mem code) {
   if (code == 0x08) {
     u16_t addr = fetch2( );
-- 
2.43.0


From e3dea9e66862a01357fe9951d6bdda4b23b0b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:28 +0000
Subject: [PATCH 248/256] fix: gb80: DAA adjusts and sets the flags as this
 processor does

---
 src/sims/z80.src/gb80cl.h     |  1 +
 src/sims/z80.src/inst_gb80.cc | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index e91807e..d4784d8 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -101,6 +101,7 @@ public:
   virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
 
+  virtual int inst_daa  (t_mem code);
   virtual int inst_ccf  (t_mem code);
 
   virtual int inst_st_sp_abs(t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 865e76b..12052b4 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -226,6 +226,40 @@ int cl_gb80::inst_add(t_mem code)
   return(resGO);
 }
 
+int cl_gb80::inst_daa(t_mem code)
+{
+  u8_t a= regs.raf.A, incr= 0;
+  bool c= regs.raf.F & BIT_C;
+
+  if (regs.raf.F & BIT_N)
+    {
+      // after a subtraction only H and C decide
+      if (regs.raf.F & BIT_A)
+	incr|= 0x06;
+      if (c)
+	incr|= 0x60;
+      a-= incr;
+    }
+  else
+    {
+      if ((regs.raf.F & BIT_A) || ((a & 0x0f) > 9))
+	incr|= 0x06;
+      if (c || (a > 0x99))
+	{
+	  incr|= 0x60;
+	  c= true;
+	}
+      a+= incr;
+    }
+  regs.raf.A= a;
+  regs.raf.F&= BIT_N;
+  if (a == 0)
+    regs.raf.F|= BIT_Z;
+  if (c)
+    regs.raf.F|= BIT_C;
+  return(resGO);
+}
+
 int cl_gb80::inst_ccf(t_mem code)
 {
   regs.raf.F &= ~(BIT_A | BIT_N);
-- 
2.43.0


From 6c6f12751158525d28e62e25c6982edf2148abbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:28 +0000
Subject: [PATCH 249/256] fix: gb80: words wrap at the end of the memory

---
 src/sims/z80.src/gb80.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sims/z80.src/gb80.cc b/src/sims/z80.src/gb80.cc
index 677ba3f..7cfe526 100644
--- a/src/sims/z80.src/gb80.cc
+++ b/src/sims/z80.src/gb80.cc
@@ -239,7 +239,7 @@ void
 cl_gb80::store2(u16_t addr, u16_t val)
 {
   rom->write(addr, val);
-  rom->write(addr+1, val>>8);
+  rom->write((u16_t)(addr+1), val>>8);
 }
 
 u8_t
@@ -252,7 +252,7 @@ u16_t
 cl_gb80::get2(u16_t addr)
 {
   u8_t l= rom->read(addr);
-  u8_t h= rom->read(addr+1);
+  u8_t h= rom->read((u16_t)(addr+1));
   return (h<<8)|l;
 }
 
-- 
2.43.0


From 7c32946a8ec73a8ab536c6ae8353c7691c357802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:21 +0000
Subject: [PATCH 250/256] fix: gb80: clock cycles of an instruction are counted
 once

---
 src/sims/z80.src/gb80cl.h     |   4 -
 src/sims/z80.src/inst_gb80.cc | 147 ----------------------------------
 2 files changed, 151 deletions(-)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index d4784d8..4b6d9de 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -95,10 +95,6 @@ public:
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
 
-  virtual int inst_jr   (t_mem code);
-  virtual int inst_call (t_mem code);
-  virtual int inst_ret  (t_mem code);
-  virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
 
   virtual int inst_daa  (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index 12052b4..aa5eb46 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -39,15 +39,10 @@ int cl_gb80::inst_cb(void) {
   t_mem       code;
   
   if ( (peek1( ) & 0xf8) != 0x30 ) {
-    // (hl) has to be rounded, but not for bit
-    if ((peek1( ) & 0x7) == 0x6)
-      if (peek1( ) < 0x50 || peek1( ) >= 0x80)
-        tick(1);
     return cl_z80::inst_cb( );
   }
   
   code = fetch1();
-  tick(7);
   
   /* perform SWAP instead of slia */
   switch(code) {
@@ -59,7 +54,6 @@ int cl_gb80::inst_cb(void) {
   case 0x35: result = regs.hl.l = swap_nibbles(regs.hl.l); break; /* l */
   case 0x36: /* SWAP (HL) */
     {
-      tick(8);
       result = swap_nibbles(get1(regs.HL));
       store1(regs.HL, result);
       vc.rd++;
@@ -74,148 +68,21 @@ int cl_gb80::inst_cb(void) {
   return(resGO);
 }
 
-int cl_gb80::inst_jr(t_mem code)
-{
-  /* fix timing for untaken jr */
-  switch(code) {
-    case 0x20: // JR NZ,dd
-      if ((regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x28: // JR Z,dd
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(1);
-      }
-    break;
-    case 0x30: // JR NC,dd
-      if ((regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-    case 0x38: // JR C,dd
-      if (!(regs.raf.F & BIT_C)) {
-        tick(1);
-      }
-    break;
-  }
-  
-  return cl_z80::inst_jr(code);
-}
-
-int cl_gb80::inst_call(t_mem code)
-{
-  /* fix timing for taken call */
-  switch(code)
-    {
-    case 0xC4: // CALL NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(5);
-      }
-      break;
-    case 0xCC: // CALL Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(5);
-      }
-      break;
-    case 0xD4: // CALL NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(5);
-      }
-      break;
-    case 0xDC: // CALL C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(5);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_call(code);
-}
-
-int cl_gb80::inst_ret(t_mem code)
-{
-  /* fix timing for taken ret */
-  switch(code)
-    {
-    case 0xC0: // RET NZ
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xC8: // RET Z
-      if ((regs.raf.F & BIT_Z)) {
-        tick(6);
-      }
-      break;
-    case 0xD0: // RET NC
-      if (!(regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    case 0xD8: // RET C
-      if ((regs.raf.F & BIT_C)) {
-        tick(6);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_ret(code);
-}
-
-int cl_gb80::inst_jp(t_mem code)
-{
-  /* fix timing for taken ret */
-  switch (code)
-    {
-    case 0xC2: // JP NZ,nnnn
-      if (!(regs.raf.F & BIT_Z)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xCA: // JP Z,nnnn
-      if (regs.raf.F & BIT_Z) {
-        tick(4);
-      }
-      break;
-      
-    case 0xD2: // JP NC,nnnn
-      if (!(regs.raf.F & BIT_C)) {
-        tick(4);
-      }
-      break;
-      
-    case 0xDA: // JP C,nnnn
-      if (regs.raf.F & BIT_C) {
-        tick(4);
-      }
-      break;
-    }
-  
-  return cl_z80::inst_jp(code);
-}
-
 int cl_gb80::inst_add(t_mem code)
 {
-  /* 16bit addition is faster */
   switch(code)
     {
     case 0x09: // ADD HL,BC
       add_HL_Word(regs.BC);
-      tick(7);
       break;
     case 0x19: // ADD HL,DE
       add_HL_Word(regs.DE);
-      tick(7);
       break;
     case 0x29: // ADD HL,HL
       add_HL_Word(regs.HL);
-      tick(7);
       break;
     case 0x39: // ADD HL,SP
       add_HL_Word(regs.SP);
-      tick(7);
       break;
       
     default:
@@ -272,7 +139,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
     u16_t addr = fetch2( );
     store2( addr, regs.SP );
     vc.wr+= 2;
-    tick(19);
     return(resGO);
   }
   
@@ -281,7 +147,6 @@ int cl_gb80::inst_st_sp_abs(t_mem code) {
 
 int cl_gb80::inst_stop0    (t_mem code) {
   // TODO: change to wait for a signal for simulated hardware
-  tick(3);//can be 7 sometimes
   return resHALT;
 }
 
@@ -290,13 +155,11 @@ int cl_gb80::inst_ldi   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL ++;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x2A) {
     regs.raf.A = get1( regs.HL );
     regs.HL ++;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -308,13 +171,11 @@ int cl_gb80::inst_ldd   (t_mem code) {
     store1( regs.HL, regs.raf.A );
     regs.HL --;
     vc.wr++;
-    tick(7);
     return resGO;
   } else if (code == 0x3A) {
     regs.raf.A = get1( regs.HL );
     regs.HL --;
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -328,18 +189,15 @@ int cl_gb80::inst_ldh   (t_mem code) {
     addr += regs.bc.l;
   } else {
     addr += fetch1( );
-    tick(4);
   }
   
   if ((code & 0xFD) == 0xE0) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(7);
     return resGO;
   } else if ((code & 0xFD) == 0xF0) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(7);
     return resGO;
   }
   
@@ -349,7 +207,6 @@ int cl_gb80::inst_ldh   (t_mem code) {
 int cl_gb80::inst_reti  (t_mem code) {
   /* enable interrupts */
   cl_z80::inst_ei(0xFB);
-  tick(12);
   
   /* pop2(PC); */
   PC=get2(regs.SP);
@@ -372,7 +229,6 @@ int cl_gb80::inst_add_sp_d(t_mem code) {
   
   regs.SP = (regs.SP + d) & 0xffff;
 
-  tick(15);
   return(resGO);
 }
 
@@ -381,12 +237,10 @@ int cl_gb80::inst_ld16  (t_mem code) {
   if (code == 0xEA) {
     store1( addr, regs.raf.A );
     vc.wr++;
-    tick(15);
     return resGO;
   } else if (code == 0xFA) {
     regs.raf.A = get1( addr );
     vc.rd++;
-    tick(15);
     return resGO;
   }
   
@@ -405,7 +259,6 @@ int cl_gb80::inst_ldhl_sp (t_mem code) {
     regs.raf.F |= BIT_C;
   
   regs.HL = (regs.SP + d) & 0xffff;
-  tick(11);
   return resGO;
 }
 
-- 
2.43.0


From cb0026e13f6dd8e5e286f257c34e7dd5acdb0365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:22 +0000
Subject: [PATCH 251/256] fix: gb80: clock cycles of LD SP,nn and BIT b,(HL)

---
 src/sims/z80.src/glob_gb80.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sims/z80.src/glob_gb80.cc b/src/sims/z80.src/glob_gb80.cc
index c161921..5196bea 100644
--- a/src/sims/z80.src/glob_gb80.cc
+++ b/src/sims/z80.src/glob_gb80.cc
@@ -618,7 +618,7 @@ u16_t gb_ttab_00[256]= {
     /*0*/      4, 12,       8,  8,       4,   4,  8,  4,     20,  8,       8,  8,       4,  4,  8,  4,
     /*1*/      4, 12,       8,  8,       4,   4,  8,  4,     12,  8,       8,  8,       4,  4,  8,  4,
     /*2*/T(12,8), 12,       8,  8,       4,   4,  8,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
-    /*3*/T(12,8), 18,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
+    /*3*/T(12,8), 12,       8,  8,      12,  12, 12,  4,T(12,8),  8,       8,  8,       4,  4,  8,  4,
     /*4*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*5*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
     /*6*/      4,  4,       4,  4,       4,   4,  8,  4,      4,  4,       4,  4,       4,  4,  8,  4,
@@ -641,10 +641,10 @@ u16_t gb_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 16, 8, 8, 8, 8, 8, 8, 8, 16, 8,
-- 
2.43.0


From ce5f57869daa87c7c89c40372d811c1f3c7141ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:49 +0000
Subject: [PATCH 252/256] fix: gb80: taken conditional jumps take 4 clock
 cycles more

---
 src/sims/z80.src/gb80cl.h     |  1 +
 src/sims/z80.src/inst_gb80.cc | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/sims/z80.src/gb80cl.h b/src/sims/z80.src/gb80cl.h
index 4b6d9de..4b14296 100644
--- a/src/sims/z80.src/gb80cl.h
+++ b/src/sims/z80.src/gb80cl.h
@@ -95,6 +95,7 @@ public:
   /* instruction function that are add / modified from the Z80 versions */
   virtual int inst_cb(void);
 
+  virtual int inst_jp   (t_mem code);
   virtual int inst_add  (t_mem code);
 
   virtual int inst_daa  (t_mem code);
diff --git a/src/sims/z80.src/inst_gb80.cc b/src/sims/z80.src/inst_gb80.cc
index aa5eb46..37e63c9 100644
--- a/src/sims/z80.src/inst_gb80.cc
+++ b/src/sims/z80.src/inst_gb80.cc
@@ -68,6 +68,18 @@ int cl_gb80::inst_cb(void) {
   return(resGO);
 }
 
+int cl_gb80::inst_jp(t_mem code)
+{
+  switch (code)
+    {
+    case 0xC2: cond_true= !(regs.raf.F & BIT_Z); break;
+    case 0xCA: cond_true=   regs.raf.F & BIT_Z ; break;
+    case 0xD2: cond_true= !(regs.raf.F & BIT_C); break;
+    case 0xDA: cond_true=   regs.raf.F & BIT_C ; break;
+    }
+  return cl_z80::inst_jp(code);
+}
+
 int cl_gb80::inst_add(t_mem code)
 {
   switch(code)
-- 
2.43.0


From c6ccb3bf38725f0fcdd193fbad3327786ad1efad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:31 +0000
Subject: [PATCH 253/256] fix: f8: the swap prefix of JRNO makes a JRO of it

---
 src/sims/f8.src/glob.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sims/f8.src/glob.cc b/src/sims/f8.src/glob.cc
index d8fe1b5..a0588c0 100644
--- a/src/sims/f8.src/glob.cc
+++ b/src/sims/f8.src/glob.cc
@@ -387,7 +387,7 @@ u8_t allowed_prefs[256]= {
   /* a_ */    PN,PN,PN,PW,  PN,PN,PN,PW,  PN,PN,PN,PW,  PN,PN,PN,PW,
   /* b_ */    PN,PN,PN,PW,  P6,P6,P6,P6,  P6,P6,PN,PN,  PN,PN,PN,PN,
   /* c_ */    P6,P6,P6,P6,  P6,P6,P6,P6,  P6,P6,P6,P6,  P6,PD,PW,PN, // Not correct - this line is too permissive for the ldw (y), x and ldw (n, y), x instructions.
-  /* d_ */    PA,PN,PN,PN,  PN,PN,PW,PN,  PS,PN,PN,PW,  PN,PS,PD,PS, // Not correct - this line is too permissive for the ldw x, y instruction.
+  /* d_ */    PA,PN,PN,PN,  PN,PN,PW,PN,  PN,PS,PN,PW,  PN,PS,PD,PS, // Not correct - this line is too permissive for the ldw x, y instruction.
   /* e_ */    P6,P6,P6,P6,  P6,P6,PN,PN,  PN,P6,PN,P6,  PN,PN,PD,PD,
   /* f_ */    PD,PA,PA,PA,  PW,PW,P6,PN,  P6,PN,P6,P6,  PD,PA,PA,PA  // Not correct - this line is too permissive for the 16-bit two-operand instructions.
 };
-- 
2.43.0


From 21cade82e5acb012804d2636568719f86b415b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:11 +0000
Subject: [PATCH 254/256] fix: z80: clock cycles of INC (HL), DEC (HL), BIT
 b,(HL) and OUT (C),E

---
 src/sims/z80.src/glob.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/glob.cc b/src/sims/z80.src/glob.cc
index 9b91a7f..6a260ca 100644
--- a/src/sims/z80.src/glob.cc
+++ b/src/sims/z80.src/glob.cc
@@ -1317,7 +1317,7 @@ u16_t z80_ttab_00[256]= {
   /*0*/        4, 10,  7,  6,       4,   4,  7,  4,      4, 11,  7,  6,       4,  4,  7,  4,
     /*1*/T(13,8), 10,  7,  6,       4,   4,  7,  4,     12, 11,  7,  6,       4,  4,  7,  4,
     /*2*/T(12,7), 10, 16,  6,       4,   4,  7,  4,T(12,7), 11, 16,  6,       4,  4,  7,  4,
-    /*3*/T(12,7), 10, 13,  6,       7,   7, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
+    /*3*/T(12,7), 10, 13,  6,      11,  11, 10,  4,T(12,7), 11, 13,  6,       4,  4,  7,  4,
     /*4*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*5*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
     /*6*/      4,  4,  4,  4,       4,   4,  7,  4,      4,  4,  4,  4,       4,  4,  7,  4,
@@ -1341,7 +1341,7 @@ u16_t z80_ttab_ed[256]= {
   /*2*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*3*/  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
   /*4*/ 12, 12, 15, 20,  8, 14,  8,  9, 12, 12, 15, 20,  0, 14,  0,  9,
-  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12,  1, 15, 20,  0,  0,  8,  9,
+  /*5*/ 12, 12, 15, 20,  0,  0,  8,  9, 12, 12, 15, 20,  0,  0,  8,  9,
   /*6*/ 12, 12, 15, 20,  0,  0,  0, 18, 12, 12, 15, 20,  0,  0,  0, 18,
   /*7*/ 12, 12, 15, 20,  0,  0,  0,  0, 12, 12, 15, 20,  0,  0,  0,  0,
   /*     0   1   2   3   4   5   6   7   8   9   a   b   c   d   e   f */
@@ -1367,10 +1367,10 @@ u16_t z80_ttab_cb[256]= {
   /*1*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*2*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*3*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*4*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*5*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*6*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-  /*7*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
+  /*4*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*5*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*6*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
+  /*7*/ 8, 8, 8, 8, 8, 8, 12, 8, 8, 8, 8, 8, 8, 8, 12, 8,
   /*    0  1  2  3  4  5   6  7  8  9  a  b  c  d   e  f */
   /*8*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
   /*9*/ 8, 8, 8, 8, 8, 8, 15, 8, 8, 8, 8, 8, 8, 8, 15, 8,
-- 
2.43.0


From 4440ebc2b933694a0589e53acd20bc08666acd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:11 +0000
Subject: [PATCH 255/256] fix: z80: clock cycles of an instruction that wraps
 around the address space

---
 src/sims/z80.src/z80.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sims/z80.src/z80.cc b/src/sims/z80.src/z80.cc
index 643106c..213d77d 100644
--- a/src/sims/z80.src/z80.cc
+++ b/src/sims/z80.src/z80.cc
@@ -849,31 +849,31 @@ cl_z80::tickt(t_mem code)
   switch (code)
     {
     case 0xdd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2 == 0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_ddcb[c4];
 	  break;
 	}
       t= ttab_dd[c2];
       break;
     case 0xfd:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       if (c2==0xcb)
 	{
-	  c4= rom->read(instPC+3);
+	  c4= rom->read((instPC+3) & 0xffff);
 	  t= ttab_fdcb[c4];
 	  break;
 	}
       t= ttab_fd[c2];
       break;
     case 0xcb:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_cb[c2];
       break;
     case 0xed:
-      c2= rom->read(instPC+1);
+      c2= rom->read((instPC+1) & 0xffff);
       t= ttab_ed[c2];
       break;
     default:
-- 
2.43.0


From 5b493d04683b2c4f849b7eda4a46949d9c1faefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:04:36 +0000
Subject: [PATCH 256/256] fix: pdk: idxm takes two clock cycles on PDK13, too

---
 src/sims/pdk.src/pdk13.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sims/pdk.src/pdk13.cc b/src/sims/pdk.src/pdk13.cc
index 6d91b61..14c24e8 100644
--- a/src/sims/pdk.src/pdk13.cc
+++ b/src/sims/pdk.src/pdk13.cc
@@ -94,9 +94,11 @@ cl_fpp13::execute(unsigned int code)
   } else if ((CODE_MASK(0x0E1, 0x1E))) {
     // idxm a, m
     cA.W(get_mem(get_mem(code & 0x1E)));
+    tick(1);
   } else if ((CODE_MASK(0x0E0, 0x1E))) {
     // idxm m, a
     wr8(get_mem(code & 0x1E), rA);
+    tick(1);
   } else if (CODE_MASK(0x09C0, 0x3F)) {
     // xch m
     int mem = get_mem(code & 0x3F);
-- 
2.43.0

