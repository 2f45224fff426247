// Shared between the LLVM instrumentation pass and the runtime.
#pragma once
enum SymOp : unsigned {
  OP_VAR = 1, OP_CONST,
  // integer
  OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
  OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR,
  OP_ZEXT, OP_SEXT, OP_EXTRACT /* aux = low bit */, OP_CONCAT /* a = high */,
  OP_ITE,
  OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE,
  // floating point (IEEE binary64 carried as BV64)
  OP_FADD, OP_FMUL, OP_FDIV, OP_FREM, OP_FPOW,
  OP_FLOOR, OP_FCEIL, OP_FTRUNC, OP_FROUND, OP_FRINT, OP_FSQRT, OP_FEXP, OP_FLOG,
  OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI,
  OP_FEQ, OP_FLT, OP_FLE, OP_FNAN,
  // pass-only (rewritten by the runtime)
  OP_FSUB, OP_FNEG, OP_FABS, OP_TRUNC,
  OP_MAX_
};
// comparison predicates passed to __sym_cmp: LLVM CmpInst::Predicate numbers
// (0..15 fcmp, 32..41 icmp)
