// Binary scalar operations. Compiled once per operation: -DOPN=...
#include "scalar.hpp"
#define BIN(NAME, B, RR, MODES) \
  op_case(NAME ":x,y", B_(B(s.vx, s.vy)), F_(RR(s.x, s.y)), MODES); \
  op_case(NAME ":x,x", B_(B(s.vx, s.vx)), F_(RR(s.x, s.x)), MODES); \
  op_case(NAME ":U,V", B_(B(s.U, s.V)), F_(RR(s.u, s.v)), MODES); \
  op_case(NAME ":U,U", B_(B(s.U, s.U)), F_(RR(s.u, s.u)), MODES); \
  op_case(NAME ":U,y", B_(B(s.U, s.vy)), F_(RR(s.u, s.y)), MODES); \
  op_case(NAME ":x,V", B_(B(s.vx, s.V)), F_(RR(s.x, s.v)), MODES); \
  op_case(NAME ":inline,V", B_(B((s.U * s.vy), s.V)), F_(RR((s.u * s.y), s.v)), MODES); \
  op_case(NAME ":U,inline", B_(B(s.U, (s.vx * s.V))), F_(RR(s.u, (s.x * s.v))), MODES); \
  op_case(NAME ":inline,inline", B_(B((s.tc * s.vx), (s.vx + s.V))), F_(RR((s.c * s.x), (s.x + s.v))), MODES); \
  op_case(NAME ":U,parameter", B_(B(s.U, s.P)), F_(RR(s.u, s.q)), MODES); \
  op_case(NAME ":parameter,U", B_(B(s.P, s.U)), F_(RR(s.q, s.u)), MODES);
#define BINC(NAME, B, RR, MODES) \
  op_case(NAME ":U,const", B_(B(s.U, s.tc)), F_(RR(s.u, s.c)), MODES); \
  op_case(NAME ":const,U", B_(B(s.tc, s.U)), F_(RR(s.c, s.u)), MODES); \
  op_case(NAME ":x,const", B_(B(s.vx, s.tc)), F_(RR(s.x, s.c)), MODES); \
  op_case(NAME ":const,y", B_(B(s.tc, s.vy)), F_(RR(s.c, s.y)), MODES); \
  op_case(NAME ":inline,const", B_(B((s.vx * s.V), s.tc)), F_(RR((s.x * s.v), s.c)), MODES); \
  op_case(NAME ":const,inline", B_(B(s.tc, (s.U * s.vy))), F_(RR(s.c, (s.u * s.y))), MODES);
#define ADD_(a, b) ((a) + (b))
#define SUB_(a, b) ((a) - (b))
#define MUL_(a, b) ((a) * (b))
#define DIV_(a, b) ((a) / (b))
#define POW_(a, b) pow(a, b)
#define PRO_(a, b) ProductS(a, b)
static const bool ALLM = true, NOSYM = false;
CASES() {
#if OPN == 1
  BIN("sum", ADD_, ADD_, ALLM) BINC("sum", ADD_, ADD_, ALLM)
#elif OPN == 2
  BIN("sub", SUB_, SUB_, ALLM) BINC("sub", SUB_, SUB_, ALLM)
#elif OPN == 3
  BIN("mul", MUL_, MUL_, ALLM) BINC("mul", MUL_, MUL_, ALLM)
#elif OPN == 4
  BIN("div", DIV_, DIV_, ALLM) BINC("div", DIV_, DIV_, ALLM)
#elif OPN == 5
#if !defined(USE_COMPLEX_MATH)
  BIN("pow", POW_, POW_, ALLM)
#endif
#elif OPN == 6
#if !defined(USE_COMPLEX_MATH)
  BINC("pow", POW_, POW_, ALLM)
#endif
  op_case("pow:U,2", B_(pow(s.U, (Type)2)), F_(s.u * s.u), ALLM);
  op_case("pow:U,3", B_(pow(s.U, (Type)3)), F_(s.u * s.u * s.u), ALLM);
  op_case("pow:U,-1", B_(pow(s.U, (Type)(-1))), F_(R(1) / s.u), ALLM);
  op_case("pow:U,1", B_(pow(s.U, (Type)1)), F_(s.u), ALLM);
  op_case("pow:U,0", B_(pow(s.U, (Type)0)), F_(R(1)), ALLM);
#if !defined(USE_COMPLEX_MATH)
  op_case("pow:U,0.5", B_(pow(s.U, (Type)0.5)), F_(sqrt(s.u)), ALLM);
  op_case("pow:2,U", B_(pow((Type)2, s.U)), F_(pow(R(2), s.u)), ALLM);
#endif
#elif OPN == 7
  BIN("ProductS", PRO_, MUL_, NOSYM) BINC("ProductS", PRO_, MUL_, NOSYM)
#endif
}
