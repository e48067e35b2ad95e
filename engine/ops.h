#pragma once
enum Op {
    O_NOP, O_CONST, O_VAR,
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_SMAX, O_SMIN, O_UMAX, O_UMIN, O_USUBSAT, O_UADDSAT, O_ABS,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_TRN, O_ZEXT, O_SEXT,
    O_DY,                                                   // exact dyadic: kid * 2^-c as a float/double
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FFLOOR, O_FCEIL, O_FRTZ, O_FROUND, O_FRNE,
    O_FEQ, O_FLT, O_FLE, O_FUNO,
    O_F2SI, O_F2UI, O_SI2F, O_UI2F, O_FEXT, O_FTRUNC
};
