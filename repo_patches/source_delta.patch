From af6afcf7a749d058f05c3851e017d0d16f0bf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 01/42] fix: Ui8tof32 must not run past its slices after
 aligning the output

The bound of the SIMD loop ignored the elements already consumed while
aligning the output, so for some lengths up to 3 elements beyond the end of
the slices were read and written.
---
 dsp/conversion_avo_amd64.go | 2 ++
 dsp/conversion_avo_amd64.s  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dsp/conversion_avo_amd64.go b/dsp/conversion_avo_amd64.go
index 3e589d5..ace8e74 100644
--- a/dsp/conversion_avo_amd64.go
+++ b/dsp/conversion_avo_amd64.go
@@ -47,7 +47,9 @@ func main() {
 	Label("ui8tof32_aligned")
 	n := GP64()
 	MOVQ(inputLen, n)
+	SUBQ(index, n)
 	ANDQ(U32(^uint32(15)), n)
+	ADDQ(index, n)
 	CMPQ(index, n)
 	JGE(LabelRef("ui8tof32_stepper"))
 
diff --git a/dsp/conversion_avo_amd64.s b/dsp/conversion_avo_amd64.s
index 4735153..c0bcd3b 100644
--- a/dsp/conversion_avo_amd64.s
+++ b/dsp/conversion_avo_amd64.s
@@ -44,7 +44,9 @@ ui8tof32_align:
 
 ui8tof32_aligned:
 	MOVQ   CX, SI
+	SUBQ   BX, SI
 	ANDQ   $0xfffffff0, SI
+	ADDQ   BX, SI
 	CMPQ   BX, SI
 	JGE    ui8tof32_stepper
 	CMPB   ·useSSE4+0(SB), $0x01
-- 
2.43.0


From 476c223441b85efa84eb12614d2b25748f69e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 02/42] fix: I8tof32 must not run past its slices after
 aligning the output

Same as Ui8tof32: the SIMD loop bound ignored the up to 15 elements already
consumed while aligning the output.
---
 dsp/conversion_amd64.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index db943df..5eb6cdf 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -354,7 +354,9 @@ i8tof32_align:
 i8tof32_aligned:
 
 	MOVQ CX, DX
+	SUBQ AX, DX
 	ANDQ $(~15), DX
+	ADDQ AX, DX
 	CMPQ AX, DX
 	JGE  i8tof32_stepper
 
-- 
2.43.0


From 7400e0d0d40b34ea103eb5649a317df88d6ac996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 03/42] fix: F32toi16 tail must saturate like the vectorised
 body

The last len%32 samples wrapped around when out of range while all others
saturated, so the result depended on the position in the slice.
---
 dsp/conversion_amd64.s | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index 5eb6cdf..f78a81d 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -523,7 +523,9 @@ f32toi16_step:
 	MOVSS     (SI), X0
 	LEAQ      (DI)(AX*2), BX
 	MULSS     X8, X0
-	CVTTSS2SL X0, BP
+	CVTTPS2PL X0, X0
+	PACKSSLW  X0, X0
+	MOVL      X0, BP
 	MOVW      BP, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
-- 
2.43.0


From 9c47f7ce8d21c82d4483f0d7c625b2205217a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 04/42] fix: VScaleF32 must scale the whole tail after the SIMD
 loops

The scalar loop compared with the rounded down length and stopped after one
element whenever one of the SIMD loops was selected.
---
 dsp/math32_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6d5aff0..6ec4c2c 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -314,7 +314,7 @@ vscalef32_scalar_loop:
 	INCQ  AX
 	ADDQ  $4, SI
 	ADDQ  $4, DI
-	CMPQ  AX, CX
+	CMPQ  AX, DX
 	JLT   vscalef32_scalar_loop
 
 vscalef32_done:
-- 
2.43.0


From 95a81fecf558e2f5e30eb9e277a704c6ef15eded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 05/42] fix: VScaleC64 must accept empty and very long slices

It indexed element 0 of empty slices, and converted the slices through a
fixed size array type, which limits the length and is rejected by checkptr
(go test -race).
---
 dsp/math32.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index 8e69271..478bccf 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -61,8 +61,11 @@ func VAddC64(input, output []complex64) {
 }
 
 func VScaleC64(input, output []complex64, scale float32) {
-	in := (*[2 << 25]float32)(unsafe.Pointer(&input[0]))[:len(input)*2]
-	out := (*[2 << 25]float32)(unsafe.Pointer(&output[0]))[:len(output)*2]
+	if len(input) == 0 || len(output) == 0 {
+		return
+	}
+	in := unsafe.Slice((*float32)(unsafe.Pointer(&input[0])), len(input)*2)
+	out := unsafe.Slice((*float32)(unsafe.Pointer(&output[0])), len(output)*2)
 	VScaleF32(in, out, scale)
 }
 
-- 
2.43.0


From 9bcafab63b4a60579fd77ccef15f184309e8de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 06/42] fix: VAbsC64 and portable Ui8tof32 must accept empty
 slices

---
 dsp/conversion.go | 3 +++
 dsp/math32.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/dsp/conversion.go b/dsp/conversion.go
index 1943d4a..0d90b87 100644
--- a/dsp/conversion.go
+++ b/dsp/conversion.go
@@ -43,6 +43,9 @@ func ui8tof32(input []byte, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
+	if n == 0 {
+		return
+	}
 	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(int(v) - 128)
diff --git a/dsp/math32.go b/dsp/math32.go
index 478bccf..a29300a 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -86,6 +86,9 @@ func vAbsC64(input []complex64, output []float32) {
 	if len(output) < n {
 		n = len(output)
 	}
+	if n == 0 {
+		return
+	}
 	_ = output[n-1] // eliminate bounds check
 	for i, v := range input[:n] {
 		output[i] = float32(math.Sqrt(float64(real(v)*real(v) + imag(v)*imag(v))))
-- 
2.43.0


From 0febf0bf8fa5ed650818b05fc7c0209f129ba71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 07/42] fix: provide I16ToBLE and VMinF32 on 386, arm and arm64

Programs using them did not link on these architectures.
---
 dsp/conversion_386.s   | 3 +++
 dsp/conversion_arm.s   | 3 +++
 dsp/conversion_arm64.s | 3 +++
 dsp/math32_386.s       | 3 +++
 dsp/math32_arm.s       | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/dsp/conversion_386.s b/dsp/conversion_386.s
index c3a9eb1..6bf50fc 100644
--- a/dsp/conversion_386.s
+++ b/dsp/conversion_386.s
@@ -24,3 +24,6 @@ TEXT ·I16bleToF64(SB), 7, $0
 
 TEXT ·I16bleToF32(SB), 7, $0
 	JMP ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), 7, $0
+	JMP ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index 51e627c..cc89602 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -306,3 +306,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/conversion_arm64.s b/dsp/conversion_arm64.s
index eba09db..4f21b00 100644
--- a/dsp/conversion_arm64.s
+++ b/dsp/conversion_arm64.s
@@ -97,3 +97,6 @@ TEXT ·I16bleToF64(SB), NOSPLIT, $0
 
 TEXT ·I16bleToF32(SB), NOSPLIT, $0
 	B ·i16bleToF32(SB)
+
+TEXT ·I16ToBLE(SB), NOSPLIT, $0
+	B ·i16ToBLE(SB)
diff --git a/dsp/math32_386.s b/dsp/math32_386.s
index 1d0358b..3e5e326 100644
--- a/dsp/math32_386.s
+++ b/dsp/math32_386.s
@@ -15,3 +15,6 @@ TEXT ·VMaxF32(SB), 7, $0
 
 TEXT ·VMulC64xF32(SB), 7, $0
 	JMP ·vMulC64xF32(SB)
+
+TEXT ·VMinF32(SB), 7, $0
+	JMP ·vMinF32(SB)
diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index 0fdbb5d..b773f55 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -350,3 +350,6 @@ vmaxf32_scalar_loop:
 vmaxf32_done:
 	MOVF F4, ret+12(FP)
 	RET
+
+TEXT ·VMinF32(SB), NOSPLIT, $0
+	B ·vMinF32(SB)
-- 
2.43.0


From 27402a2fafaf8e226ffce4b1e63c6444227aafe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 08/42] fix: FastAtan2_2 must not return NaN when y/x overflows

---
 dsp/math32.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/math32.go b/dsp/math32.go
index a29300a..c5ca130 100644
--- a/dsp/math32.go
+++ b/dsp/math32.go
@@ -181,7 +181,10 @@ func fastAtan2_2(y, x float32) float32 {
 		}
 		return atan
 	}
-	atan := pi2 - z/(zz+0.28)
+	var atan float32 = pi2
+	if zz <= math.MaxFloat32 { // otherwise z/zz vanishes (and is NaN if z is infinite)
+		atan -= z / (zz + 0.28)
+	}
 	if y < 0.0 {
 		return atan - math.Pi
 	}
-- 
2.43.0


From d86e4a9cb2bbc9941cea0b36f27127ae6322d348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 09/42] fix: IIR filter constructors must not change or keep
 the caller's coefficients

---
 dsp/filter.go | 49 +++++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 68f0bac..29bf7ad 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -19,12 +19,7 @@ func NewIIRFilter(bCoef, aCoef []float64) *IIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &IIRFilter{
 		bCoef: bCoef,
 		aCoef: aCoef,
@@ -37,12 +32,7 @@ func NewComplexIIRFilter32(bCoef, aCoef []float32) *ComplexIIRFilter32 {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef32(bCoef, aCoef)
 	return &ComplexIIRFilter32{
 		bCoef: rtoc32(bCoef),
 		aCoef: rtoc32(aCoef),
@@ -55,12 +45,7 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	if len(bCoef) != len(aCoef) || len(bCoef) == 0 {
 		panic("IIR filter must have len(b)==len(a) and len(b) > 0")
 	}
-	for i, c := range bCoef {
-		bCoef[i] = c / aCoef[0]
-	}
-	for i, c := range aCoef[1:] {
-		aCoef[i+1] = c / aCoef[0]
-	}
+	bCoef, aCoef = normalizeCoef(bCoef, aCoef)
 	return &ComplexIIRFilter{
 		bCoef: rtoc(bCoef),
 		aCoef: rtoc(aCoef),
@@ -69,6 +54,34 @@ func NewComplexIIRFilter(bCoef, aCoef []float64) *ComplexIIRFilter {
 	}
 }
 
+// normalizeCoef returns copies of the coefficients divided by aCoef[0].
+func normalizeCoef(bCoef, aCoef []float64) (b, a []float64) {
+	b = make([]float64, len(bCoef))
+	a = make([]float64, len(aCoef))
+	for i, c := range bCoef {
+		b[i] = c / aCoef[0]
+	}
+	a[0] = aCoef[0]
+	for i, c := range aCoef[1:] {
+		a[i+1] = c / aCoef[0]
+	}
+	return b, a
+}
+
+// normalizeCoef32 returns copies of the coefficients divided by aCoef[0].
+func normalizeCoef32(bCoef, aCoef []float32) (b, a []float32) {
+	b = make([]float32, len(bCoef))
+	a = make([]float32, len(aCoef))
+	for i, c := range bCoef {
+		b[i] = c / aCoef[0]
+	}
+	a[0] = aCoef[0]
+	for i, c := range aCoef[1:] {
+		a[i+1] = c / aCoef[0]
+	}
+	return b, a
+}
+
 func (f *IIRFilter) Filter(input, output []float64) {
 	for i, s := range input {
 		sum := f.bCoef[0] * s
-- 
2.43.0


From 372d464d3da978e0f18361ca14d11d711757ffd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 10/42] fix: IIR filters of order zero must not panic

---
 dsp/filter.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dsp/filter.go b/dsp/filter.go
index 29bf7ad..0aa6c13 100644
--- a/dsp/filter.go
+++ b/dsp/filter.go
@@ -92,8 +92,10 @@ func (f *IIRFilter) Filter(input, output []float64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -108,8 +110,10 @@ func (f *ComplexIIRFilter32) Filter(input, output []complex64) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
@@ -124,8 +128,10 @@ func (f *ComplexIIRFilter) Filter(input, output []complex128) {
 			f.pIn[i] = f.pIn[i-1]
 			f.pOut[i] = f.pOut[i-1]
 		}
-		f.pIn[0] = s
-		f.pOut[0] = sum
+		if len(f.pIn) > 0 {
+			f.pIn[0] = s
+			f.pOut[0] = sum
+		}
 		output[i] = sum
 	}
 }
-- 
2.43.0


From 38e3783454b79cf394cf4da78d13dd012aeece7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 11/42] fix: window functions of length one must give the peak
 value, not NaN

---
 dsp/window.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/dsp/window.go b/dsp/window.go
index ead99f4..fa5291c 100644
--- a/dsp/window.go
+++ b/dsp/window.go
@@ -36,12 +36,20 @@ func HammingWindowF32(output []float32) {
 }
 
 func HanningWindow(output []float64) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = 0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1)))
 	}
 }
 
 func HanningWindowF32(output []float32) {
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	for n := range output {
 		output[n] = float32(0.5 * (1 - math.Cos(2*math.Pi*float64(n)/float64(len(output)-1))))
 	}
@@ -69,6 +77,10 @@ func window(output []float64, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
@@ -90,6 +102,10 @@ func windowF32(output []float32, a []float64) {
 	if len(a) < 1 || len(a) > 4 {
 		panic("invalid window length " + strconv.Itoa(len(a)))
 	}
+	if len(output) == 1 {
+		output[0] = 1
+		return
+	}
 	nn := float64(len(output) - 1)
 	for n := range output {
 		fn := float64(n)
-- 
2.43.0


From 05041842fd72dbe213cbd065cf2edf33a453ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:30 +0000
Subject: [PATCH 12/42] fix: linear interpolation must not panic at positions
 outside the samples

---
 dsp/interpolate.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index 86da1a7..eedc568 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -4,6 +4,9 @@ import "math"
 
 // Linear interpolates using linear interpolation.
 func Linear(samples []float64, x float64) float64 {
+	if !(x >= 0 && x < float64(len(samples))) {
+		return 0
+	}
 	var samp float64
 	low := math.Floor(x)
 	lowInt := int(low)
@@ -22,7 +25,7 @@ func Linear(samples []float64, x float64) float64 {
 
 // LinearF32 interpolates using linear interpolation.
 func LinearF32(samples []float32, x float32) float32 {
-	if x < 0 || x > math.MaxFloat32 {
+	if !(x >= 0 && x <= float32(len(samples))) {
 		return 0
 	}
 	var samp float32
-- 
2.43.0


From 4fd8b8b68714f3989f6b0d1f11de9c7cae2a8251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:31 +0000
Subject: [PATCH 13/42] fix: Hermite and optimal interpolators must floor
 negative positions

---
 dsp/interpolate.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsp/interpolate.go b/dsp/interpolate.go
index eedc568..b88f8ee 100644
--- a/dsp/interpolate.go
+++ b/dsp/interpolate.go
@@ -46,7 +46,7 @@ func LinearF32(samples []float32, x float32) float32 {
 
 // Hermite4p3o interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3o(samples []float64, x float64) float64 {
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [4]float64
 	for i := -1; i <= 2; i++ {
@@ -65,7 +65,7 @@ func Hermite4p3o(samples []float64, x float64) float64 {
 
 // Hermite4p3oF32 interpolates using 4-point, 3rd-order Hermite (x-form)
 func Hermite4p3oF32(samples []float32, x float32) float32 {
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [4]float32
 	for i := -1; i <= 2; i++ {
@@ -86,7 +86,7 @@ func Hermite4p3oF32(samples []float32, x float32) float32 {
 func Optimal2x4p4o(samples []float64, x float64) float64 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -1; i <= 2; i++ {
@@ -113,7 +113,7 @@ func Optimal2x4p4o(samples []float64, x float64) float64 {
 func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 	const middle = 1
 
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -1; i <= 2; i++ {
@@ -139,7 +139,7 @@ func Optimal2x4p4oF32(samples []float32, x float32) float32 {
 // Optimal2x6p5o interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5o(samples []float64, x float64) float64 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(x))
 
 	var s [6]float64
 	for i := -2; i <= 3; i++ {
@@ -168,7 +168,7 @@ func Optimal2x6p5o(samples []float64, x float64) float64 {
 // Optimal2x6p5oF32 interpolates using optimal 2x (6-point, 5th-order) (z-form)
 func Optimal2x6p5oF32(samples []float32, x float32) float32 {
 	const middle = 2
-	xi := int(x)
+	xi := int(math.Floor(float64(x)))
 
 	var s [6]float32
 	for i := -2; i <= 3; i++ {
-- 
2.43.0


From c1d4b726ef838bba9abd7da8959798489c0a9849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 14/42] fix: DTMF.Feed must not modify the caller's samples

---
 dsp/dtmf/dtmf.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsp/dtmf/dtmf.go b/dsp/dtmf/dtmf.go
index 017f2ea..2ea9fe4 100644
--- a/dsp/dtmf/dtmf.go
+++ b/dsp/dtmf/dtmf.go
@@ -21,6 +21,7 @@ type DTMF struct {
 	nHigh     int
 	blockSize int
 	w         []float32
+	buf       []float32
 }
 
 func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func([]float32)) *DTMF {
@@ -36,6 +37,7 @@ func New(lowFreq, highFreq []uint64, sampleRate, blockSize int, windowFunc func(
 		nHigh:     len(highFreq),
 		blockSize: blockSize,
 		w:         w,
+		buf:       make([]float32, blockSize),
 	}
 }
 
@@ -48,13 +50,14 @@ func (d *DTMF) Feed(samples []float32) (int, float32) {
 	if len(samples) > d.blockSize {
 		samples = samples[:d.blockSize]
 	}
+	buf := d.buf[:len(samples)]
 	for i, s := range samples {
-		samples[i] = s * d.w[i]
+		buf[i] = s * d.w[i]
 	}
 	d.lowFreq.Reset()
 	d.highFreq.Reset()
-	d.lowFreq.Feed(samples)
-	d.highFreq.Feed(samples)
+	d.lowFreq.Feed(buf)
+	d.highFreq.Feed(buf)
 	row, thresh1 := max(d.lowFreq.Magnitude())
 	col, thresh2 := max(d.highFreq.Magnitude())
 	if thresh2 < thresh1 {
-- 
2.43.0


From fc4f723183cddfa43e62e0277a40db617728981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 15/42] fix: decode every FlexNet destination character from
 its own six bits

---
 dsp/ax25/hdlc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index ffbed6d..8055211 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -80,13 +80,13 @@ func (ax *AX25) processFrame() *Frame {
 		frame.V1 = false
 		frame.Command = (buf[1] & 2) != 0
 		var dest []byte
-		if i := (buf[2] >> 2) & 0x2f; i != 0 {
+		if i := (buf[2] >> 2) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[2] << 4) | ((buf[3]>>4)&0xf)&0x3f; i != 0 {
+		if i := ((buf[2] << 4) | ((buf[3] >> 4) & 0xf)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
-		if i := (buf[3] << 2) | ((buf[4]>>6)&3)&0x3f; i != 0 {
+		if i := ((buf[3] << 2) | ((buf[4] >> 6) & 3)) & 0x3f; i != 0 {
 			dest = append(dest, i+0x20)
 		}
 		if i := buf[4] & 0x3f; i != 0 {
-- 
2.43.0


From 4a1c4116851e3414532bf8a6e16468253c0eb43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 16/42] fix: an AX.25 frame's information field must not alias
 the receive buffer

---
 dsp/ax25/hdlc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/ax25/hdlc.go b/dsp/ax25/hdlc.go
index 8055211..4a27dc4 100644
--- a/dsp/ax25/hdlc.go
+++ b/dsp/ax25/hdlc.go
@@ -169,7 +169,7 @@ func (ax *AX25) processFrame() *Frame {
 
 	if frame.Type == IFrame || (frame.Type == UFrame && frame.UnnumberedType == UI) {
 		frame.PID = PID(buf[0])
-		frame.Info = buf[1:]
+		frame.Info = append([]byte{}, buf[1:]...) // rxBuf is reused for the next frame
 	}
 	return &frame
 }
-- 
2.43.0


From f249340aeadb5d8c38cd5e870835ea4d4562fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 17/42] fix: Dial must close the connection when the server
 sends no hello

---
 borip/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/client.go b/borip/client.go
index 3966159..58020ad 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -89,6 +89,7 @@ func Dial(addr string) (*BorIP, error) {
 	}
 	line, err := bor.rd.ReadString('\n')
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
 	line = strings.TrimSpace(line)
-- 
2.43.0


From 853ad8634bf4972b09b191e315906e78c1587c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 18/42] fix: SetRate must not panic when the reply has no rate

---
 borip/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index 58020ad..8a6b82e 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -191,7 +191,7 @@ func (bor *BorIP) SetRate(rate float64) (float64, error) {
 	if err != nil {
 		return 0.0, err
 	}
-	parts, err := parseAndCheck(res, 1)
+	parts, err := parseAndCheck(res, 2)
 	if err != nil {
 		return 0.0, err
 	}
-- 
2.43.0


From 26a4d69a8732490ce44112ff58b618db4b0780f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:46 +0000
Subject: [PATCH 19/42] fix: accept device descriptions without the optional
 serial number

---
 borip/client.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index 8a6b82e..b3b5302 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -39,12 +39,14 @@ type Device struct {
 func parseDeviceString(st string) (*Device, error) {
 	// Terratec NOXON (rev 3)|-5.000000|30.000000|1.000000|3200000.000000|16256|(Default)|Terratec NOXON (rev 3)
 	deviceParts := strings.Split(st, "|")
-	if len(deviceParts) < 8 {
+	if len(deviceParts) < 7 {
 		return nil, ErrUnexpectedResponse
 	}
 	d := &Device{
-		Name:   deviceParts[0],
-		Serial: deviceParts[7],
+		Name: deviceParts[0],
+	}
+	if len(deviceParts) > 7 { // the serial number is optional
+		d.Serial = deviceParts[7]
 	}
 	var err error
 	if d.MinGain, err = strconv.ParseFloat(deviceParts[1], 64); err != nil {
-- 
2.43.0


From 97dc7892b0364c8ff1d434394b6430a3ca12712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 20/42] fix: a reply to another command must not count as an
 answer

---
 borip/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/borip/client.go b/borip/client.go
index b3b5302..ac9434a 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -335,7 +335,14 @@ func (bor *BorIP) command(cmd string, args ...string) (string, error) {
 		return "", err
 	}
 	line, err := bor.rd.ReadString('\n')
-	return strings.TrimSpace(line), err
+	if err != nil {
+		return "", err
+	}
+	line = strings.TrimSpace(line)
+	if strings.SplitN(line, " ", 2)[0] != cmd {
+		return "", ErrUnexpectedResponse
+	}
+	return line, nil
 }
 
 func (bor *BorIP) Close() {
-- 
2.43.0


From 7e0193c8afa6dbf1d8a7db0d99417ec2463cf70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 21/42] fix: queries for text must not return the server's
 error as the value

---
 borip/client.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/borip/client.go b/borip/client.go
index ac9434a..fd2ea83 100644
--- a/borip/client.go
+++ b/borip/client.go
@@ -181,10 +181,7 @@ func (bor *BorIP) Antenna() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(res) < 8 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[8:], nil
+	return parseValue(res)
 }
 
 // Return the actual sampling rate (closest)
@@ -249,10 +246,7 @@ func (bor *BorIP) Destination() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	if len(res) < 5 {
-		return "", ErrUnexpectedResponse
-	}
-	return res[5:], nil
+	return parseValue(res)
 }
 
 func (bor *BorIP) SetHeaderEnabled(enabled bool) error {
@@ -273,10 +267,11 @@ func (bor *BorIP) HeaderEnabled() (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	if len(res) < 8 {
-		return false, ErrUnexpectedResponse
+	val, err := parseValue(res)
+	if err != nil {
+		return false, err
 	}
-	switch res[7:] {
+	switch val {
 	case "ON":
 		return true, nil
 	case "OFF":
@@ -323,6 +318,20 @@ func parseAndCheck(res string, minArgs int) ([]string, error) {
 	return resParts, nil
 }
 
+// parseValue returns the value in the reply to a query, or the error it reports.
+func parseValue(res string) (string, error) {
+	resParts := strings.SplitN(res, " ", 2)
+	if len(resParts) < 2 {
+		return "", ErrUnexpectedResponse
+	}
+	valParts := strings.Split(resParts[1], " ")
+	switch valParts[0] {
+	case "-", "FAIL", "DEVICE", "UNKNOWN":
+		return "", makeErrorResponse(valParts)
+	}
+	return resParts[1], nil
+}
+
 func (bor *BorIP) command(cmd string, args ...string) (string, error) {
 	argString := ""
 	if len(args) > 0 {
-- 
2.43.0


From e30679e1283406e9f1f146df0dc1df929500002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 22/42] fix: ReadSamples must keep samples that do not fit the
 slice for the next read

---
 borip/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index aed4de9..687e9e7 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -71,7 +71,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		// rd.bufN = n - (n & 7)
 	}
 	idx := 0
-	for rd.bufI < rd.bufN {
+	for rd.bufI < rd.bufN && idx < len(samples) {
 		iReal := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI : rd.bufI+2]))
 		qQmag := int16(binary.LittleEndian.Uint16(rd.buf[rd.bufI+2 : rd.bufI+4]))
 		samples[idx] = complex(float64(iReal), float64(qQmag))
-- 
2.43.0


From db94d883fc8b6a18bf27456859ddf5a5631232a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 23/42] fix: ReadSamples must ignore trailing bytes that are no
 whole sample

---
 borip/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/borip/packet.go b/borip/packet.go
index 687e9e7..e9697e3 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -68,7 +68,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 			rd.header.Idx = binary.LittleEndian.Uint16(rd.buf[2:4])
 			rd.bufI += 4
 		}
-		// rd.bufN = n - (n & 7)
+		rd.bufN = n - (n & 3) // whole samples only, the header is four bytes as well
 	}
 	idx := 0
 	for rd.bufI < rd.bufN && idx < len(samples) {
-- 
2.43.0


From 9abc1b6aafe60ccb0dc5dc761a26a044758aaab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 24/42] fix: ReadSamples must not return samples of a packet
 too short for its header

---
 borip/packet.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/borip/packet.go b/borip/packet.go
index e9697e3..f621318 100644
--- a/borip/packet.go
+++ b/borip/packet.go
@@ -61,6 +61,7 @@ func (rd *PacketReader) ReadSamples(samples []complex128) (int, error) {
 		rd.bufN = n
 		if rd.withHeaders {
 			if n < packetHeaderSize {
+				rd.bufN = 0
 				return 0, ErrShortPacket
 			}
 			rd.header.Flags = rd.buf[rd.bufI]
-- 
2.43.0


From b41959da65d5b1979a03d85e4ab7619e0280ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 25/42] fix: boripserver must compile: the FREQ query used a
 variable out of scope

---
 boripserver/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index c945a91..48ec637 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -105,7 +105,8 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resDevice, "no active device")
 		}
 		if len(args) == 0 {
-			if curFreq, err := cli.dev.rtlDev.GetCenterFreq(); err != nil {
+			curFreq, err := cli.dev.rtlDev.GetCenterFreq()
+			if err != nil {
 				return cli.sendResponse(cmd, "-", "failed to get frequency")
 			}
 			return cli.sendResponse(cmd, strconv.FormatUint(uint64(curFreq), 10))
-- 
2.43.0


From 72b3e9a4e755ea04678c812e956c5047b5952208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 26/42] fix: boripserver must not crash on a second STOP nor
 race with the stream's callback

---
 boripserver/main.go | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 48ec637..99aac90 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -19,6 +19,7 @@ import (
 	"runtime/pprof"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -71,12 +72,14 @@ var (
 )
 
 type client struct {
-	conn      net.Conn
-	rd        *bufio.Reader
-	wr        *bufio.Writer
-	dest      *net.UDPAddr
-	dev       *device
-	closeChan chan bool
+	conn net.Conn
+	rd   *bufio.Reader
+	wr   *bufio.Writer
+	dest *net.UDPAddr
+	dev  *device
+
+	streamMutex sync.Mutex
+	closeChan   chan bool // of the running stream, nil when there is none
 }
 
 func (cli *client) sendResponse(cmd string, args ...string) error {
@@ -298,14 +301,28 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 }
 
 func (cli *client) isStreaming() bool {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
 	return cli.closeChan != nil
 }
 
 func (cli *client) stopStreaming() {
-	if !cli.isStreaming() {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	if cli.closeChan == nil {
 		return
 	}
 	close(cli.closeChan)
+	cli.closeChan = nil
+}
+
+// streamEnded notes that the device ended the stream stopped by closeChan.
+func (cli *client) streamEnded(closeChan chan bool) {
+	cli.streamMutex.Lock()
+	defer cli.streamMutex.Unlock()
+	if cli.closeChan == closeChan {
+		cli.closeChan = nil
+	}
 }
 
 func (cli *client) startStreaming() error {
@@ -324,7 +341,10 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 
-	cli.closeChan = make(chan bool, 1)
+	closeChan := make(chan bool)
+	cli.streamMutex.Lock()
+	cli.closeChan = closeChan
+	cli.streamMutex.Unlock()
 	bufOut := make([]byte, headerSize+samplesPerPacket*2*2)
 	bufOut[0] = flagStreamStart
 	bufOut[1] = 0 // notification: reserved (currently 0)
@@ -334,13 +354,12 @@ func (cli *client) startStreaming() error {
 	// cli.dev.rtlDev.ReadAsyncUsingSync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
-			cli.closeChan = nil
+			cli.streamEnded(closeChan)
 			return true
 		}
 
 		select {
-		case _ = <-cli.closeChan:
-			cli.closeChan = nil
+		case <-closeChan:
 			return true
 		default:
 		}
-- 
2.43.0


From 17ba57ffafe62ef78d90e8ae21f1f5a5f98e8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 27/42] fix: boripserver must close a stream's socket when the
 stream ends

---
 boripserver/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boripserver/main.go b/boripserver/main.go
index 99aac90..9a7e81b 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -338,6 +338,7 @@ func (cli *client) startStreaming() error {
 		return err
 	}
 	if err := cli.dev.rtlDev.ResetBuffer(); err != nil {
+		conn.Close()
 		return err
 	}
 
@@ -355,11 +356,13 @@ func (cli *client) startStreaming() error {
 	cli.dev.rtlDev.ReadAsync(nBuffers, sampleBufferSize*2, func(buf []byte) bool {
 		if buf == nil {
 			cli.streamEnded(closeChan)
+			conn.Close()
 			return true
 		}
 
 		select {
 		case <-closeChan:
+			conn.Close()
 			return true
 		default:
 		}
-- 
2.43.0


From 4749e771a6c1001d5c7368c543cfc9dac59eb876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 28/42] fix: boripserver must return the destination it was set
 to, as its client requires

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 9a7e81b..6862c38 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -193,7 +193,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			return cli.sendResponse(cmd, resFail, "failed to resolve address")
 		}
 		cli.dest = addr
-		return cli.sendResponse(cmd, resOK)
+		return cli.sendResponse(cmd, resOK, addr.String())
 	case cmdGo:
 		if cli.dest == nil {
 			return cli.sendResponse(cmd, resFail, "no DEST set")
-- 
2.43.0


From 77a57e601a9d2e8a0f6e2fc9a006595f2ad28361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 29/42] fix: boripserver must answer the ANTENNA query with the
 antenna's name alone

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 6862c38..4da2e89 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -133,7 +133,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if len(args) > 0 {
 			return cli.sendResponse(cmd, resOK)
 		}
-		return cli.sendResponse(cmd, resOK, "default")
+		return cli.sendResponse(cmd, "default")
 	case cmdRate:
 		if cli.dev == nil {
 			return cli.sendResponse(cmd, resDevice, "no active device")
-- 
2.43.0


From 0cb58c82852bdf76db78a77f181d92e415647ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 30/42] fix: boripserver must report negative gains as such

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 4da2e89..2062320 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -179,7 +179,7 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 		if err != nil {
 			return cli.sendResponse(cmd, resFail, "failed to get gain")
 		}
-		return cli.sendResponse(cmd, resOK, strconv.FormatUint(uint64(curGain), 10))
+		return cli.sendResponse(cmd, resOK, strconv.Itoa(curGain))
 	case cmdDest:
 		if len(args) == 0 {
 			if cli.dest == nil {
-- 
2.43.0


From 67bc6111eec596b15dc3b205d66a6ea9320d859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:05 +0000
Subject: [PATCH 31/42] fix: boripserver must not crash on a tuner with fewer
 than two gains

---
 boripserver/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index 2062320..acbdb8c 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -262,10 +262,13 @@ func (cli *client) handleCommand(cmd string, args []string) error {
 			gains, err := dev.rtlDev.GetTunerGains()
 			if err != nil {
 				log.Printf("Failed to get tuner gains: %s", err.Error())
-			} else {
+			} else if len(gains) > 0 {
 				minGain = float64(gains[0])
 				maxGain = float64(gains[len(gains)-1])
-				gainStep = float64(gains[1] - gains[0])
+				gainStep = 0.0
+				if len(gains) > 1 {
+					gainStep = float64(gains[1] - gains[0])
+				}
 			}
 			// if debug {
 			// 	log.Printf("Gains: %+v", gains)
-- 
2.43.0


From 6554ea850a9f002b7de75f00f97c069e03cea74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 32/42] fix: boripserver must send the whole buffer, not its
 first packet repeatedly

---
 boripserver/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boripserver/main.go b/boripserver/main.go
index acbdb8c..8714b53 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -380,7 +380,7 @@ func (cli *client) startStreaming() error {
 			bufOut[3] = uint8(seq >> 8)
 			seq++
 
-			dsp.Ui8toi16b(buf[:nValues], bufOut[headerSize:])
+			dsp.Ui8toi16b(buf[bufferOffset:bufferOffset+nValues], bufOut[headerSize:])
 
 			if _, err := conn.Write(bufOut[:headerSize+nValues*2]); err != nil {
 				// TODO: what to do if not "connection refused"?
-- 
2.43.0


From 7f6fba381b69afe72ec7d441f239fcce06b0d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 33/42] fix: I32Rotate90Filter must negate samples on arm, not
 complement them

---
 dsp/util_arm.s | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index f24b795..9f4552d 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -61,15 +61,15 @@ i32r90_loop:
 
 	// samples[i+1] = complex(-imag(samples[i+1]), real(samples[i+1]))
 	MOVW R0, R6
-	MVN  R1, R0
+	RSB  $0, R1, R0
 	MOVW R6, R1
 
 	// samples[i+2] = -samples[i+2]
-	MVN R2, R2
-	MVN R3, R3
+	RSB $0, R2
+	RSB $0, R3
 
 	// samples[i+3] = complex(imag(samples[i+3]), -real(samples[i+3]))
-	MVN       R4, R6
+	RSB       $0, R4, R6
 	MOVW      R5, R4
 	MOVW      R6, R5
 	MOVM.IA.W [R0-R5], (R8)
-- 
2.43.0


From d1f74b4c06cee58d8c9540530d0847e9a2d6225a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 34/42] fix: I32Rotate90Filter must not run past its slice on
 arm

---
 dsp/util_arm.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index 9f4552d..1316f07 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -46,7 +46,7 @@ r90_end:
 TEXT ·i32Rotate90FilterAsm(SB), NOSPLIT, $0
 	MOVW samples_len+8(FP), R7
 	MOVW samples_ptr+4(FP), R8
-	AND  $(~3), R7             // round down to nearest multiple of 4
+	AND  $(~7), R7             // round down to nearest multiple of 8
 
 	TEQ $0, R7
 	BEQ i32r90_end
-- 
2.43.0


From 83fccff6ef73fc0477d3917636fd281e9b5d7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 35/42] fix: VAbsC64's vector mode must use the defined
 encoding of stride 2 on arm

---
 dsp/math32_arm.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index b773f55..a552cae 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -223,7 +223,7 @@ TEXT ·VAbsC64(SB), NOSPLIT, $0
 	// Set vector length to 4 and stride to 2
 	WORD $0xeef13a10            // vmrs r3, fpscr
 	BIC  $((7<<16)|(3<<20)), R3
-	ORR  $((3<<16)|(1<<20)), R3
+	ORR  $((3<<16)|(3<<20)), R3
 	WORD $0xeee13a10            // fmxr fpscr, r3
 
 vabsc64_vector_loop:
-- 
2.43.0


From 4e8bc9c98a712a825d4b1dbe039d1e85c3758dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:51 +0000
Subject: [PATCH 36/42] fix: FastAtan2_2 must not return NaN on arm when y/x
 overflows

---
 dsp/math32_arm.s | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsp/math32_arm.s b/dsp/math32_arm.s
index a552cae..1996cb4 100644
--- a/dsp/math32_arm.s
+++ b/dsp/math32_arm.s
@@ -103,10 +103,20 @@ fatan22_6:
 	RET
 
 fatan22_5:
-	// pi2 - z/(z*z+0.28)
+	// pi2 - z/(z*z+0.28), which vanishes (or is NaN if z is infinite) when z*z overflows
+	MOVF    $3.4028234663852886e+38, F4
+	WORD    $0xeeb42ac4 // vcmpe.f32 s4, s8
+	vmrs_APSR_nzcv_fpscr
+	BLE     fatan22_7
+	MOVF    $0.0, F2
+	B       fatan22_8
+
+fatan22_7:
 	MOVF    $0.28, F4
 	ADDF    F4, F2
 	DIVF    F2, F1, F2
+
+fatan22_8:
 	MOVF    halfPi, F1
 	SUBF    F2, F1, F2
 	MOVF    pi, F1
-- 
2.43.0


From d2c50d14bd8d448024493b0d4f82ab0f8fab14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 37/42] fix: arm loops must compare addresses as unsigned
 numbers

---
 dsp/conversion_arm.s | 14 +++++++-------
 dsp/downsample_arm.s |  2 +-
 dsp/util_arm.s       |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsp/conversion_arm.s b/dsp/conversion_arm.s
index cc89602..66a6d16 100644
--- a/dsp/conversion_arm.s
+++ b/dsp/conversion_arm.s
@@ -23,7 +23,7 @@ ui8toi16_loop:
 	MOVBU R0, 1(R3)
 	ADD   $2, R3
 	CMP   R2, R1
-	BLT   ui8toi16_loop
+	BLO   ui8toi16_loop
 
 ui8toi16_done:
 	RET
@@ -90,7 +90,7 @@ ui8tof32_loop:
 
 	WORD $0xeca30a04 // vstmia r3!, {s0, s1, s2, s3}
 	CMP  R0, R1
-	BLT  ui8tof32_loop
+	BLO  ui8tof32_loop
 
 	B ui8tof32_tail
 
@@ -136,7 +136,7 @@ ui8tof32_neon_loop:
 	WORD $0xf403e28d // vst1.32 {d14, d15, d16, d17}, [r3]!
 
 	CMP R4, R1
-	BLT ui8tof32_neon_loop
+	BLO ui8tof32_neon_loop
 
 ui8tof32_tail:
 	CMP R1, R2
@@ -149,7 +149,7 @@ ui8tof32_tail_loop:
 	ADD   $1, R1
 	WORD  $0xeca30a01        // vstmia     r3!, {s0}
 	CMP   R2, R1
-	BLT   ui8tof32_tail_loop
+	BLO   ui8tof32_tail_loop
 
 ui8tof32_done:
 	RET
@@ -220,7 +220,7 @@ f32toi16_scalar_loop:
 	ADD  $8, R3
 
 	CMP R7, R1
-	BLT f32toi16_scalar_loop
+	BLO f32toi16_scalar_loop
 
 	B f32toi16_tail
 
@@ -270,7 +270,7 @@ f32toi16_vector_loop:
 	ADD  $16, R3
 
 	CMP R7, R1
-	BLT f32toi16_vector_loop
+	BLO f32toi16_vector_loop
 
 	// Clear vector mode
 	WORD $0xeef10a10            // vmrs r0, fpscr
@@ -289,7 +289,7 @@ f32toi16_tail_loop:
 	MOVHU R0, (R3)
 	ADD   $2, R3
 	CMP   R2, R1
-	BLT   f32toi16_tail_loop
+	BLO   f32toi16_tail_loop
 
 f32toi16_done:
 	RET
diff --git a/dsp/downsample_arm.s b/dsp/downsample_arm.s
index 35055ef..45516e4 100644
--- a/dsp/downsample_arm.s
+++ b/dsp/downsample_arm.s
@@ -86,7 +86,7 @@ TEXT ·lowPassDownsampleRationalFilterAsm(SB), NOSPLIT, $0
 
 rationalLoop:
 	CMP R5, R3
-	BLE rationalLoopEnd
+	BLS rationalLoopEnd
 
 	MOVF (R5), F0 // samples[i]
 	ADD  $4, R5
diff --git a/dsp/util_arm.s b/dsp/util_arm.s
index 1316f07..615e4e6 100644
--- a/dsp/util_arm.s
+++ b/dsp/util_arm.s
@@ -32,7 +32,7 @@ r90_loop:
 	MOVM.IA.W [R0-R5], (R8)
 
 	CMP R8, R7
-	BGT r90_loop
+	BHI r90_loop
 
 r90_end:
 	MOVW samples_ptr+4(FP), R0
@@ -75,7 +75,7 @@ i32r90_loop:
 	MOVM.IA.W [R0-R5], (R8)
 
 	CMP R8, R7
-	BGT i32r90_loop
+	BHI i32r90_loop
 
 i32r90_end:
 	MOVW samples_ptr+4(FP), R0
-- 
2.43.0


From b48adcd482d4be1583c864ded4bb1744f48b9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 38/42] fix: amd64 start-up must examine the processor before
 choosing code

Nobody called cpu.Initialize, so no feature was ever found and the SSE and
AVX code was never used.
---
 dsp/cpu_amd64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsp/cpu_amd64.go b/dsp/cpu_amd64.go
index 6b7deab..8a1bab2 100644
--- a/dsp/cpu_amd64.go
+++ b/dsp/cpu_amd64.go
@@ -11,6 +11,7 @@ var (
 )
 
 func init() {
+	cpu.Initialize("")
 	useSSE4 = cpu.X86.HasSSE41
 	useAVX2 = cpu.X86.HasAVX
 	useSSE2 = cpu.X86.HasSSE2
-- 
2.43.0


From a9f959a79a89e2e964739c6070e5375dc21e539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 39/42] fix: the AVX2 code must not be chosen for processors
 with AVX only

VBROADCASTSS between registers is an AVX2 instruction.
---
 dsp/cpu_amd64.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsp/cpu_amd64.go b/dsp/cpu_amd64.go
index 8a1bab2..f63a82e 100644
--- a/dsp/cpu_amd64.go
+++ b/dsp/cpu_amd64.go
@@ -13,6 +13,6 @@ var (
 func init() {
 	cpu.Initialize("")
 	useSSE4 = cpu.X86.HasSSE41
-	useAVX2 = cpu.X86.HasAVX
+	useAVX2 = cpu.X86.HasAVX2
 	useSSE2 = cpu.X86.HasSSE2
 }
-- 
2.43.0


From 878fc11fe6e00db131246e5db3ed0d9b173ecefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:05 +0000
Subject: [PATCH 40/42] fix: leave the frame pointer alone in I8tof32 and
 F32toi16

Both used BP as scratch register and returned with it changed; the frame pointer
belongs to the caller (go vet: frame pointer is clobbered before saving).
---
 dsp/conversion_amd64.s | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsp/conversion_amd64.s b/dsp/conversion_amd64.s
index f78a81d..8826e64 100644
--- a/dsp/conversion_amd64.s
+++ b/dsp/conversion_amd64.s
@@ -334,12 +334,12 @@ i8tof32_min_len:
 	JGE  i8tof32_stepper
 
 	// Align output to 16-byte boundary
-	MOVQ DI, BP
-	ANDQ $15, BP
-	SHRQ $2, BP
+	MOVQ DI, R8
+	ANDQ $15, R8
+	SHRQ $2, R8
 	JZ   i8tof32_aligned
 	MOVQ $16, DX
-	SUBQ BP, DX
+	SUBQ R8, DX
 
 i8tof32_align:
 	MOVBQSX  (SI), BX
@@ -364,8 +364,8 @@ i8tof32_aligned:
 	CMPB ·useSSE4(SB), $1
 	JNE  i8tof32_nosse4
 
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse4_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -401,8 +401,8 @@ i8tof32_sse4_loop:
 	JMP  i8tof32_stepper
 
 i8tof32_nosse4:
-	MOVQ $0, BP
-	MOVQ BP, X9
+	MOVQ $0, R8
+	MOVQ R8, X9
 
 i8tof32_sse2_loop:
 	MOVOU (SI), X0 // Load 16 unsigned 8-bit values
@@ -525,8 +525,8 @@ f32toi16_step:
 	MULSS     X8, X0
 	CVTTPS2PL X0, X0
 	PACKSSLW  X0, X0
-	MOVL      X0, BP
-	MOVW      BP, (BX)
+	MOVL      X0, R8
+	MOVW      R8, (BX)
 	ADDQ      $4, SI
 	INCQ      AX
 	CMPQ      AX, DX
-- 
2.43.0


From aa574590e13cd94be73f80d377e896209735060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:07 +0000
Subject: [PATCH 41/42] fix: clear the upper halves of the vector registers
 after AVX2 code

VMaxF32, VMinF32 and VScaleF32 went on with SSE code, and returned to it, with the
upper halves of the YMM registers in use, which slows that code down on processors
with AVX2.
---
 dsp/math32_amd64.s | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsp/math32_amd64.s b/dsp/math32_amd64.s
index 6ec4c2c..7e869f3 100644
--- a/dsp/math32_amd64.s
+++ b/dsp/math32_amd64.s
@@ -56,6 +56,7 @@ vmaxf32_avx2_loop:
 	VMAXPS	Y2, Y0, Y0
 	VMAXPS	Y3, Y0, Y0
 	VEXTRACTF128 $1, Y0, X1
+	VZEROUPPER
 	MAXPS   X1, X0
 	MOVHLPS X0, X1
 	MAXPS	X1, X0
@@ -162,6 +163,7 @@ vminf32_avx2_loop:
 	VMINPS	Y2, Y0, Y0
 	VMINPS	Y3, Y0, Y0
 	VEXTRACTF128 $1, Y0, X1
+	VZEROUPPER
 	MINPS   X1, X0
 	MOVHLPS X0, X1
 	MINPS	X1, X0
@@ -276,6 +278,7 @@ vscalef32_avx2_loop:
 	CMPQ   AX, CX
 	JLT    vscalef32_avx2_loop
 
+	VZEROUPPER
 	JMP    vscalef32_scalar
 
 vscalef32_sse2:
-- 
2.43.0


From 4bccd7b0dd6e05e7426290bae2ca803236553352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:42 +0000
Subject: [PATCH 42/42] fix: boripserver: pause after a failed accept instead
 of spinning and flooding the log

---
 boripserver/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/boripserver/main.go b/boripserver/main.go
index 8714b53..46ce0a5 100644
--- a/boripserver/main.go
+++ b/boripserver/main.go
@@ -20,6 +20,7 @@ import (
 	"strconv"
 	"strings"
 	"sync"
+	"time"
 
 	"github.com/samuel/go-dsp/dsp"
 )
@@ -474,6 +475,8 @@ func main() {
 			conn, err := ln.Accept()
 			if err != nil {
 				log.Println(err.Error())
+				// e.g. out of file descriptors, which lasts until a client leaves
+				time.Sleep(100 * time.Millisecond)
 				continue
 			}
 			go handleConnection(conn)
-- 
2.43.0

