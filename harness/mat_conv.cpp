// Convolution: operands of every kind, strides and paddings; histories of convolutions of different shapes.
#include "mat_op.hpp"
static RM convR(const RM& a, const RM& k, size_t sx = 1, size_t sy = 1, size_t px = 0, size_t py = 0) {
  size_t r = (a.r + 2 * px - k.r) / sx + 1, c = (a.c + 2 * py - k.c) / sy + 1;
  return mk(r, c, [&](size_t i, size_t j) { R s(0); for (size_t p = 0; p < k.r; ++p) for (size_t q = 0; q < k.c; ++q) {
    size_t x = i * sx + p, y = j * sy + q; if (x < px || y < py || x - px >= a.r || y - py >= a.c) continue; s += a(x - px, y - py) * k(p, q); } return s; });
}
static const Shape C33{3, 3, 2, 2}, C23{2, 3, 2, 2}, C32{3, 2, 1, 2}, C22{2, 2, 2, 2}, C31{3, 1, 2, 1};
#define CONV(NAME, SH, ...) BIN_ALL(NAME, SH, conv(A, B, __VA_ARGS__), convR(a, b, __VA_ARGS__))
// several convolutions after one another share the handler's buffers: each still gives its own value
template <int m> void history() {
  std::string pre = std::string(mode_name(m)) + ":";
  add_case(pre + "padding after no padding", [=] { MS s(4, 4, 2, 2); Matrix<Expression> e1 = conv(s.X, s.Y), e2 = conv(s.Y, s.Dm, 1, 1, 1, 1), e3 = conv(s.Y, s.Y, 1, 1, 1, 1);
    RM f1 = convR(s.x.ref(), s.y.ref()), f2 = convR(s.y.ref(), s.d.ref(), 1, 1, 1, 1), f3 = convR(s.y.ref(), s.y.ref(), 1, 1, 1, 1);
    if constexpr (m == EVAL) { eqm("e1", T2::Eval(e1), f1); eqm("e2", T2::Eval(e2), f2); eqm("e1 again", T2::Eval(e1), f1); eqm("e3", T2::Eval(e3), f3); eqm("e2 again", T2::Eval(e2), f2); }
    else { eqF("e1", T2::DevalF(e1, s.Y), f1, s.y); eqF("e2", T2::DevalF(e2, s.Y), f2, s.y); eqF("e3", T2::DevalF(e3, s.Y), f3, s.y); eqF("e1 again", T2::DevalF(e1, s.Y), f1, s.y); eqF("e2 again", T2::DevalF(e2, s.Y), f2, s.y); eqF("e2 by z", T2::DevalF(e2, s.Z), f2, s.z); }
    no_errors("no error reported"); });
  add_case(pre + "paddings of different shapes", [=] { MS s(2, 4, 1, 2); Matrix<Expression> e1 = conv(s.X, s.Dm, 1, 1, 1, 0), e2 = conv(s.Y, s.Dm, 1, 1, 0, 1), e3 = conv(transpose(s.X), s.Y, 1, 1, 0, 1); Matrix<Expression> e4 = conv(s.C + s.X, s.Y, 1, 2, 1, 0);
    RM f1 = convR(s.x.ref(), s.d.ref(), 1, 1, 1, 0), f2 = convR(s.y.ref(), s.d.ref(), 1, 1, 0, 1), f3 = convR(tr(s.x.ref()), s.y.ref(), 1, 1, 0, 1), f4 = convR(s.c.ref() + s.x.ref(), s.y.ref(), 1, 2, 1, 0);
    for (int k = 0; k < 2; ++k) { if constexpr (m == EVAL) { eqm("e1", T2::Eval(e1), f1); eqm("e2", T2::Eval(e2), f2); eqm("e3", T2::Eval(e3), f3); eqm("e4", T2::Eval(e4), f4); }
      else { eqF("e1", T2::DevalF(e1, s.Y), f1, s.y); eqF("e2", T2::DevalF(e2, s.Y), f2, s.y); eqF("e3", T2::DevalF(e3, s.Y), f3, s.y); eqF("e4", T2::DevalF(e4, s.Y), f4, s.y); } }
    no_errors("no error reported"); });
  add_case(pre + "convolution of a convolution", [=] { MS s(3, 3, 2, 2); Matrix<Expression> n = conv(s.X, s.Y, 1, 1, 1, 1); Matrix<Expression> e = conv(n, s.Dm, 2, 1, 0, 0); Matrix<Expression> e2 = conv(conv(s.X, s.Dm), s.Y, 1, 1, 1, 1);
    RM g = convR(s.x.ref(), s.y.ref(), 1, 1, 1, 1), f = convR(g, s.d.ref(), 2, 1, 0, 0), f2 = convR(convR(s.x.ref(), s.d.ref()), s.y.ref(), 1, 1, 1, 1);
    if constexpr (m == EVAL) { eqm("e", T2::Eval(e), f); eqm("e2", T2::Eval(e2), f2); eqm("n", T2::Eval(n), g); eqm("e again", T2::Eval(e), f); }
    else { eqF("e", T2::DevalF(e, s.Y), f, s.y); eqF("e2", T2::DevalF(e2, s.Y), f2, s.y); eqF("e by x", T2::DevalF(e, s.X), f, s.x); }
    no_errors("no error reported"); });
}
CASES() {
#if OPN == 1
  CONV("conv 3x3*2x2", C33, 1, 1, 0, 0)
#elif OPN == 2
  CONV("conv 2x3*2x2 pad 1,0", C23, 1, 1, 1, 0)
#elif OPN == 3
  CONV("conv 2x2*2x2 pad 1,1", C22, 1, 1, 1, 1)
#elif OPN == 4
  CONV("conv 3x3*2x2 stride 2,1 pad 1,0", C33, 2, 1, 1, 0)
#elif OPN == 5
  CONV("conv 3x2*1x2 stride 2,2 pad 0,1", C32, 2, 2, 0, 1) CONV("conv 3x1*2x1", C31, 1, 1, 0, 0)
#elif OPN == 6
  SAME_ALL("conv 2x2 with itself", C22, conv(A, B, 1, 1, 0, 0), convR(a, b)) SAME_ALL("conv 2x2 with itself, padded", C22, conv(A, B, 1, 2, 1, 1), convR(a, b, 1, 2, 1, 1))
  if (MMODE & 1) history<0>(); if (MMODE & 2) history<1>();
#endif
}
