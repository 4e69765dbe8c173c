#include "vh.hpp"
using namespace vh;
CASE("smoke") {
  In a=in("a"), b=in("b");
  Variable x{a.t()}, y{b.t()};
  Expression e = sin(x*y)*x + pow(x,(Type)3)/y;
  R f = sin(a.r()*b.r())*a.r() + a.r()*a.r()*a.r()/b.r();
  eq("val", CoolDiff::TensorR1::Eval(e), f);
  eq("dx", CoolDiff::TensorR1::DevalF(e,x), D(f,a));
  CoolDiff::TensorR1::PreComp(e);
  eq("rx", CoolDiff::TensorR1::DevalR(e,x), D(f,a));
  eq("ry", CoolDiff::TensorR1::DevalR(e,y), D(f,b));
  auto& s = CoolDiff::TensorR1::SymDiff(e,x);
  eq("sx", CoolDiff::TensorR1::Eval(s), D(f,a));
}
