#include "textflag.h"

// func Xadd(p *uint64, d uint64) uint64
TEXT ·Xadd(SB), NOSPLIT, $0-24
	MOVQ	p+0(FP), BX
	MOVQ	d+8(FP), AX
	MOVQ	AX, CX
	LOCK
	XADDQ	AX, 0(BX)
	ADDQ	CX, AX
	MOVQ	AX, ret+16(FP)
	RET

// func Xmax(p *uint64, v uint64)
TEXT ·Xmax(SB), NOSPLIT, $0-16
	MOVQ	p+0(FP), BX
	MOVQ	v+8(FP), CX
	MOVQ	0(BX), AX
again:
	CMPQ	CX, AX
	JLE	done
	LOCK
	CMPXCHGQ	CX, 0(BX)
	JNE	again
done:
	RET
