// Operation codes shared by the instrumentation pass, the runtime and (by name) the decider.
#ifndef SYMOPS_H
#define SYMOPS_H
enum SymOp {
    OP_CONST = 0, OP_INPUT = 1,
    OP_ADD = 2, OP_SUB, OP_MUL, OP_DIV, OP_REM, OP_POW, OP_FMIN, OP_FMAX, OP_ATAN2,
    OP_COPYSIGN, OP_HYPOT, OP_FMOD,
    OP_NEG = 20, OP_ABS, OP_SQRT, OP_EXP, OP_LOG, OP_LOG10, OP_SIN, OP_COS, OP_TAN,
    OP_ASIN, OP_ACOS, OP_ATAN, OP_SINH, OP_COSH, OP_TANH, OP_CBRT, OP_EXPM1, OP_LOG1P,
    OP_FLOOR, OP_CEIL, OP_TRUNC, OP_ROUND, OP_RINT, OP_EXP2, OP_LOG2, OP_F32, OP_ERF, OP_TGAMMA,
    // booleans
    OP_LT = 60, OP_LE, OP_GT, OP_GE, OP_EQ, OP_NE, OP_AND, OP_OR, OP_XOR,
};
#endif
