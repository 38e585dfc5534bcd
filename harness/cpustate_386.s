#include "textflag.h"

// func cpuState(p *byte, avx, avx512 bool) (flags uintptr)
TEXT ·cpuState(SB), NOSPLIT, $0-12
	PUSHFL
	POPL BX
	CLD
	MOVL BX, flags+8(FP)
	MOVL p+0(FP), AX
	FXSAVE (AX)
	CMPB avx+4(FP), $1
	JNE  done
	VEXTRACTF128 $1, Y0, 512(AX)
	VEXTRACTF128 $1, Y1, 528(AX)
	VEXTRACTF128 $1, Y2, 544(AX)
	VEXTRACTF128 $1, Y3, 560(AX)
	VEXTRACTF128 $1, Y4, 576(AX)
	VEXTRACTF128 $1, Y5, 592(AX)
	VEXTRACTF128 $1, Y6, 608(AX)
	VEXTRACTF128 $1, Y7, 624(AX)
	VZEROUPPER

done:
	EMMS
	RET

// func cpuControl(mxcsr uint32, fcw uint16)
TEXT ·cpuControl(SB), NOSPLIT, $0-8
	LDMXCSR mxcsr+0(FP)
	FLDCW   fcw+4(FP)
	RET
