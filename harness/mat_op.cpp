// The linear algebra operators. OPN selects the operation.
#include "mat_op.hpp"
static const Shape S22{2, 2, 2, 2}, S23{2, 3, 2, 3}, S32{2, 3, 3, 2}, S13{1, 3, 3, 1}, S31{3, 1, 1, 3};
CASES() {
#if OPN == 1
  BIN_ALL("A+B", S23, A + B, a + b) SAME_ALL("A+A", S22, A + B, a + b)
#elif OPN == 2
  BIN_ALL("A-B", S23, A - B, a - b) SAME_ALL("A-A", S22, A - B, a - b)
#elif OPN == 3
  BIN_ALL("A*B", S32, A * B, a * b) SAME_ALL("A*A", S22, A * B, a * b)
#elif OPN == 4
  BIN_ALL("A*B row col", S13, A * B, a * b) BIN_ALL("A*B col row", S31, A * B, a * b)
#elif OPN == 5
  BIN_ALL("A^B", S23, A ^ B, had(a, b)) SAME_ALL("A^A", S22, A ^ B, had(a, b))
#elif OPN == 6
  UN_ALL("transpose", S23, transpose(A), tr(a)) 
#elif OPN == 7
  UN_ALL("p*A", S23, (Type)(2.5) * A, R(2.5) * a)  UN_ALL("A*p", S23, A * (Type)(-1.5), R(-1.5) * a) UN_ALL("A/p", S23, A / (Type)(4), R(0.25) * a)
  UN_ALL("A+p", S23, A + (Type)(3), adds(a, R(3))) UN_ALL("p+A", S23, (Type)(0.5) + A, adds(a, R(0.5))) UN_ALL("A-p", S23, A - (Type)(3), adds(a, R(-3))) UN_ALL("p-A", S23, (Type)(3) - A, adds(R(-1) * a, R(3)))
#endif
}
