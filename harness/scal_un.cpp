// Unary scalar operations. -DOPN selects a group.
#include "scalar.hpp"
static const bool ALLM = true, NOSYM = false;
#define UN(NAME, FN, RF, MODES) \
  op_case(NAME ":x", B_(FN(s.vx)), F_(RF(s.x)), MODES); \
  op_case(NAME ":U", B_(FN(s.U)), F_(RF(s.u)), MODES); \
  op_case(NAME ":inline", B_(FN(s.U * s.vy)), F_(RF(s.u * s.y)), MODES); \
  op_case(NAME ":parameter", B_(FN(s.P)), F_(RF(s.q)), MODES); \
  op_case(NAME ":const*x", B_(FN(s.tc * s.vx)), F_(RF(s.c * s.x)), MODES);
CASES() {
#if defined(USE_COMPLEX_MATH)  // functions whose complex reference is written out in vh.hpp
#if OPN == 1
  UN("sin", sin, sin, ALLM) UN("cos", cos, cos, ALLM) UN("tan", tan, tan, ALLM) UN("exp", exp, exp, ALLM)
#elif OPN == 2
  UN("sinh", sinh, sinh, ALLM) UN("cosh", cosh, cosh, ALLM) UN("tanh", tanh, tanh, ALLM) UN("neg", -, -, ALLM)
#endif
#else
#if OPN == 1
  UN("sin", sin, sin, ALLM) UN("cos", cos, cos, ALLM) UN("tan", tan, tan, ALLM) UN("exp", exp, exp, ALLM) UN("log", log, log, ALLM)
#elif OPN == 2
  UN("sinh", sinh, sinh, ALLM) UN("cosh", cosh, cosh, ALLM) UN("tanh", tanh, tanh, ALLM) UN("sqrt", sqrt, sqrt, ALLM) UN("neg", -, -, ALLM)
#elif OPN == 3
  UN("asin", asin, asin, ALLM) UN("acos", acos, acos, ALLM) UN("atan", atan, atan, ALLM)
#elif OPN == 4
  UN("asinh", asinh, asinh, ALLM) UN("acosh", acosh, acosh, ALLM) UN("atanh", atanh, atanh, ALLM)
#elif OPN == 5
  UN("SinS", SinS, sin, NOSYM) UN("CosS", CosS, cos, NOSYM)
#endif
#endif
}
