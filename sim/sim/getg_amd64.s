#include "textflag.h"

// func realG() uintptr
TEXT ·realG(SB),NOSPLIT,$0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET
