#include "textflag.h"

// func cpuState(p *byte, avx, avx512 bool) (flags uintptr)
// Stores FXSAVE's image at p, the upper halves of Y0-Y15 at p+512 and of Z0-Z15 at p+768, then puts the processor right.
TEXT ·cpuState(SB), NOSPLIT, $0-24
	PUSHFQ
	POPQ BX
	CLD
	MOVQ BX, flags+16(FP)
	MOVQ p+0(FP), AX
	FXSAVE64 (AX)
	CMPB avx+8(FP), $1
	JNE  done
	VEXTRACTF128 $1, Y0, 512(AX)
	VEXTRACTF128 $1, Y1, 528(AX)
	VEXTRACTF128 $1, Y2, 544(AX)
	VEXTRACTF128 $1, Y3, 560(AX)
	VEXTRACTF128 $1, Y4, 576(AX)
	VEXTRACTF128 $1, Y5, 592(AX)
	VEXTRACTF128 $1, Y6, 608(AX)
	VEXTRACTF128 $1, Y7, 624(AX)
	VEXTRACTF128 $1, Y8, 640(AX)
	VEXTRACTF128 $1, Y9, 656(AX)
	VEXTRACTF128 $1, Y10, 672(AX)
	VEXTRACTF128 $1, Y11, 688(AX)
	VEXTRACTF128 $1, Y12, 704(AX)
	VEXTRACTF128 $1, Y13, 720(AX)
	VEXTRACTF128 $1, Y14, 736(AX)
	VEXTRACTF128 $1, Y15, 752(AX)
	CMPB avx512+9(FP), $1
	JNE  clear
	VEXTRACTF64X4 $1, Z0, 768(AX)
	VEXTRACTF64X4 $1, Z1, 800(AX)
	VEXTRACTF64X4 $1, Z2, 832(AX)
	VEXTRACTF64X4 $1, Z3, 864(AX)
	VEXTRACTF64X4 $1, Z4, 896(AX)
	VEXTRACTF64X4 $1, Z5, 928(AX)
	VEXTRACTF64X4 $1, Z6, 960(AX)
	VEXTRACTF64X4 $1, Z7, 992(AX)
	VEXTRACTF64X4 $1, Z8, 1024(AX)
	VEXTRACTF64X4 $1, Z9, 1056(AX)
	VEXTRACTF64X4 $1, Z10, 1088(AX)
	VEXTRACTF64X4 $1, Z11, 1120(AX)
	VEXTRACTF64X4 $1, Z12, 1152(AX)
	VEXTRACTF64X4 $1, Z13, 1184(AX)
	VEXTRACTF64X4 $1, Z14, 1216(AX)
	VEXTRACTF64X4 $1, Z15, 1248(AX)

clear:
	VZEROUPPER

done:
	EMMS
	RET

// func cpuControl(mxcsr uint32, fcw uint16)
TEXT ·cpuControl(SB), NOSPLIT, $0-8
	LDMXCSR mxcsr+0(FP)
	FLDCW   fcw+4(FP)
	RET
