// Leaves, handles (copies, moves, assignments), user-defined operators, number types.
#include "scalar.hpp"
#include <deque>

// user-defined operators with asymmetric functions
UNARY_SCALAR_OPERATOR(CubeS, [](const Type u) { return u * u * u; }, [](const Type u) { return (Type)(3) * u * u; })
UNARY_SCALAR_OPERATOR(InvS, [](const Type u) { return (Type)(1) / u; }, [](const Type u) { return (Type)(-1) / (u * u); })
BINARY_SCALAR_OPERATOR(AsymS, [](const Type u, const Type v) { return u * u * v - (Type)(2) * v; },
                              [](const Type u, const Type v) { return (Type)(2) * u * v; },
                              [](const Type u, const Type v) { return u * u - (Type)(2); })
BINARY_SCALAR_OPERATOR(QuotS, [](const Type u, const Type v) { return u / v; },
                              [](const Type u, const Type v) { return (Type)(1) / v; },
                              [](const Type u, const Type v) { return (Type)(-1) * u / (v * v); })
static R asym(R u, R v) { return u * u * v - R(2) * v; }
static R cube(R u) { return u * u * u; }
static R inv(R u) { return R(1) / u; }
static R quot(R u, R v) { return u / v; }

#define CB(NAME, B, RR) \
  op_case(NAME ":x,y", B_(B(s.vx, s.vy)), F_(RR(s.x, s.y)), false); op_case(NAME ":x,x", B_(B(s.vx, s.vx)), F_(RR(s.x, s.x)), false); \
  op_case(NAME ":U,V", B_(B(s.U, s.V)), F_(RR(s.u, s.v)), false); op_case(NAME ":U,inline", B_(B(s.U, (s.vx * s.V))), F_(RR(s.u, (s.x * s.v))), false); \
  op_case(NAME ":inline,V", B_(B((s.vx * s.vy), s.V)), F_(RR((s.x * s.y), s.v)), false); \
  op_case(NAME ":U,const", B_(B(s.U, s.tc)), F_(RR(s.u, s.c)), false); op_case(NAME ":const,U", B_(B(s.tc, s.U)), F_(RR(s.c, s.u)), false); \
  op_case(NAME ":inline,const", B_(B((s.vx * s.V), s.tc)), F_(RR((s.x * s.v), s.c)), false); op_case(NAME ":const,inline", B_(B(s.tc, (s.U * s.vy))), F_(RR(s.c, (s.u * s.y))), false); \
  op_case(NAME ":U,parameter", B_(B(s.U, s.P)), F_(RR(s.u, s.q)), false); op_case(NAME ":parameter,U", B_(B(s.P, s.U)), F_(RR(s.q, s.u)), false); \
  op_case(NAME ":under sin", B_(sin(B(s.U, s.vy))), F_(sin(RR(s.u, s.y))), false);
#define CU(NAME, FN, RF) \
  op_case(NAME ":x", B_(FN(s.vx)), F_(RF(s.x)), false); op_case(NAME ":U", B_(FN(s.U)), F_(RF(s.u)), false); op_case(NAME ":inline", B_(FN(s.U * s.vy)), F_(RF(s.u * s.y)), false); \
  op_case(NAME ":parameter", B_(FN(s.P)), F_(RF(s.q)), false); op_case(NAME ":twice", B_(FN(FN(s.vx))), F_(RF(RF(s.x))), false);

CASES() {
#if OPN == 1 || OPN == 2
  // ---- user-defined operators asked again after updates, with shared and named operands
#define CH(NAME, BUILD, REF) add_case("hist:" NAME, [] { S s; Expression W = s.vx * s.vy + s.tc; BUILD; \
  auto go = [&](const char* order) { R w = s.x * s.y + s.c; R f = REF; for (const char* o = order; *o; ++o) { Mode m = *o == 'e' ? EVAL : *o == 'f' ? FWD : REV; check(m, e, f, s); if (o == order) check(m, W, w, s); } }; \
  go("efr"); s.ix = in("x@1"); s.x = s.ix.r(); s.vx = s.ix.t(); go("rfe"); s.iq = in("q@1"); s.q = s.iq.r(); s.P = s.iq.t(); go("fer"); s.iy = in("y@1"); s.y = s.iy.r(); s.vy = s.iy.t(); go("rre"); \
  e = e * s.vx; { R w = s.x * s.y + s.c; R f = (REF) * s.x; check(REV, e, f, s); check(EVAL, e, f, s); check(FWD, e, f, s); } no_errors("no error reported"); });
#endif
#if OPN == 1
  CB("AsymS", AsymS, asym) CB("QuotS", QuotS, quot)
#define CHB(NAME, B, RR) CH(NAME ":W,x", Expression e = B(W, s.vx), RR(w, s.x)) CH(NAME ":x,W", Expression e = B(s.vx, W), RR(s.x, w)) CH(NAME ":W,W", Expression e = B(W, W), RR(w, w)) CH(NAME ":P,W", Expression e = B(s.P, W) + W, RR(s.q, w) + w) CH(NAME ":W,P", Expression e = W * B(W, s.P), w * RR(w, s.q)) \
  CH(NAME ":W,c", Expression e = B(W, s.tc) * s.P, RR(w, s.c) * s.q) CH(NAME ":c,W", Expression e = B(s.tc, W) - s.P, RR(s.c, w) - s.q) CH(NAME ":inline", Expression e = B((W * s.vy), (s.vx + W)) , RR((w * s.y), (s.x + w))) CH(NAME ":nested", Expression V = B(W, s.vy); Expression e = B(V, (V * s.vx)), RR(RR(w, s.y), RR(w, s.y) * s.x))
  CHB("AsymS", AsymS, asym) CHB("QuotS", QuotS, quot)
#elif OPN == 2
  CU("CubeS", CubeS, cube) CU("InvS", InvS, inv)
#define CHU(NAME, FN, RF) CH(NAME ":W", Expression e = FN(W), RF(w)) CH(NAME ":x", Expression e = FN(s.vx) * W, RF(s.x) * w) CH(NAME ":P", Expression e = FN(s.P) + W, RF(s.q) + w) CH(NAME ":inline", Expression e = FN(W * s.vy) - W, RF(w * s.y) - w) CH(NAME ":nested", Expression V = FN(W); Expression e = FN(V + s.vx) * V, RF(RF(w) + s.x) * RF(w))
  CHU("CubeS", CubeS, cube) CHU("InvS", InvS, inv)
#elif OPN == 3
  // ---- plain numbers as operands
#define NUMS(NAME, EXPR, REF) op_case("num:" NAME, B_(EXPR), F_(REF));
  NUMS("x+2", s.U + 2, s.u + R(2)) NUMS("2+x", 2 + s.U, R(2) + s.u) NUMS("x-2", s.U - 2, s.u - R(2)) NUMS("2-x", 2 - s.U, R(2) - s.u)
  NUMS("x*3", s.U * 3, s.u * R(3)) NUMS("3*x", 3 * s.U, R(3) * s.u) NUMS("x/4", s.U / 4, s.u / R(4)) NUMS("4/x", 4 / s.U, R(4) / s.u)
  NUMS("x+0.5", s.vx + 0.5, s.x + R(0.5)) NUMS("0.5-x", 0.5 - s.vx, R(0.5) - s.x) NUMS("x*0.5", s.vx * 0.5, s.x * R(0.5)) NUMS("0.5/x", 0.5 / s.vx, R(0.5) / s.x)
  NUMS("x*1", s.U * 1, s.u) NUMS("1*x", 1 * s.U, s.u) NUMS("x+0", s.U + 0, s.u) NUMS("0+x", 0 + s.U, s.u) NUMS("x*0", s.U * 0, R(0) * s.u) NUMS("0-x", 0 - s.U, -s.u) NUMS("x-0", s.U - 0, s.u) NUMS("x/1", s.U / 1, s.u) NUMS("1/x", 1 / s.U, R(1) / s.u)
  NUMS("pow(x,2)", pow(s.U, 2), s.u * s.u) NUMS("-1*x", -1 * s.U, -s.u) NUMS("inline+2", s.U * s.vy + 2, s.u * s.y + R(2)) NUMS("3-inline", 3 - s.U * s.vy, R(3) - s.u * s.y)
#elif OPN == 4
  // ---- leaves at the entry points
  add_case("leaf:variable", [] { S s; eq("value", T1::Eval(s.vx), s.x); eq("fwd x", T1::DevalF(s.vx, s.vx), R(1)); eq("fwd y", T1::DevalF(s.vx, s.vy), R(0));
    eq("rev x", T1::DevalR(s.vx, s.vx), R(1)); eq("rev y", T1::DevalR(s.vx, s.vy), R(0)); eq("sym x", T1::Eval(T1::SymDiff(s.vx, s.vx)), R(1)); eq("sym y", T1::Eval(T1::SymDiff(s.vx, s.vy)), R(0)); no_errors("no error reported"); });
  add_case("leaf:parameter", [] { S s; eq("value", T1::Eval(s.P), s.q); eq("fwd", T1::DevalF(s.P, s.vx), R(0)); eq("rev", T1::DevalR(s.P, s.vx), R(0)); eq("sym", T1::Eval(T1::SymDiff(s.P, s.vx)), R(0)); no_errors("no error reported"); });
  add_case("leaf:number", [] { S s; Type n = s.tc; eq("value", T1::Eval(n), s.c); eq("fwd", T1::DevalF(n, s.vx), R(0)); eq("rev", T1::DevalR(n, s.vx), R(0)); eq("sym", T1::Eval(T1::SymDiff(n, s.vx)), R(0)); no_errors("no error reported"); });
  add_case("leaf:expression of variable", [] { S s; Expression e = s.vx; check(EVAL, e, s.x, s); check(FWD, e, s.x, s); check(REV, e, s.x, s); check(SYM, e, s.x, s); no_errors("no error reported"); });
  add_case("leaf:expression of parameter", [] { S s; Expression e = s.P; check(EVAL, e, s.q, s); check(FWD, e, s.q, s); check(REV, e, s.q, s); check(SYM, e, s.q, s); no_errors("no error reported"); });
  add_case("leaf:expression of expression", [] { S s; Expression W = s.U * s.V; Expression e = W; R f = s.u * s.v; check(EVAL, e, f, s); check(FWD, e, f, s); check(REV, e, f, s); check(SYM, e, f, s); no_errors("no error reported"); });
  add_case("leaf:empty expression", [] { S s; Expression e; check(EVAL, e, R(0), s); check(FWD, e, R(0), s); check(REV, e, R(0), s); check(SYM, e, R(0), s); no_errors("no error reported"); });
  add_case("leaf:factories", [] { S s; Variable& v = Variable::VariableFactory::CreateVariable(s.ia()); Parameter& p = Parameter::ParameterFactory::CreateParameter(s.tc);
    Expression& e = Expression::ExpressionFactory::CreateExpression(v * p + v * v); Expression& n = Expression::ExpressionFactory::CreateExpression(s.tc);
    R a = s.x, f = a * s.c + a * a; eq("value", T1::Eval(e), f); eq("fwd", T1::DevalF(e, v), s.c + R(2) * a); T1::PreComp(e); eq("rev", T1::DevalR(e, v), s.c + R(2) * a);
    eq("sym", T1::Eval(T1::SymDiff(e, v)), s.c + R(2) * a); eq("number", T1::Eval(n), s.c); eq("number fwd", T1::DevalF(n, v), R(0)); no_errors("no error reported"); });
  // ---- independence, also after cancellation and through parameters and zero factors
#define INDEP(NAME, EXPR, REF) add_case("indep:" NAME, [] { S s; Expression e = EXPR; R f = REF; check(EVAL, e, f, s); check(FWD, e, f, s); check(REV, e, f, s); check(SYM, e, f, s); \
    Variable w{s.tc}; eq("foreign fwd", T1::DevalF(e, w), R(0)); T1::PreComp(e); eq("foreign rev", T1::DevalR(e, w), R(0)); eq("foreign sym", T1::Eval(T1::SymDiff(e, w)), R(0)); no_errors("no error reported"); });
  INDEP("x-x", s.vx - s.vx, R(0)) INDEP("x*0", s.vx * (Type)(0) + s.vy, s.y) INDEP("P only", s.P * s.P + s.tc, s.q * s.q + s.c) INDEP("U-U", s.U - s.U + s.vz, s.z_()) INDEP("x*y", s.vx * s.vy, s.x * s.y)
  INDEP("0*U+V", (Type)(0) * s.U + s.V, s.v) INDEP("sin(P)", sin(s.P) * s.vy, sin(s.q) * s.y) INDEP("exp(x)*0", exp(s.vx) * 0, R(0)) INDEP("P*0+x", s.P * 0 + s.vx, s.x)
  // ---- variables: copies, moves, assignments are handles of the same variable
  add_case("handle:variable copy", [] { S s; Variable w{s.vx}; Expression e = w * s.vy + s.vx; R f = s.x * s.y + s.x; eq("value", T1::Eval(e), f);
    eq("fwd original", T1::DevalF(e, s.vx), D(f, s.ix)); eq("fwd copy", T1::DevalF(e, w), D(f, s.ix)); T1::PreComp(e); eq("rev original", T1::DevalR(e, s.vx), D(f, s.ix)); eq("rev copy", T1::DevalR(e, w), D(f, s.ix));
    eq("sym copy", T1::Eval(T1::SymDiff(e, w)), D(f, s.ix)); eq("sym original", T1::Eval(T1::SymDiff(e, s.vx)), D(f, s.ix)); no_errors("no error reported"); });
  add_case("handle:bare variable and its copies", [] { S s; Variable w{s.vx}; Variable v{s.tc}; v = s.vx; Variable m{Variable{s.vx}};
    for (auto* a : {&s.vx, &w, &v, &m}) for (auto* b : {&s.vx, &w, &v, &m}) { eq("value", T1::Eval(*a), s.x); eq("fwd", T1::DevalF(*a, *b), R(1)); eq("rev", T1::DevalR(*a, *b), R(1)); eq("sym", T1::Eval(T1::SymDiff(*a, *b)), R(1)); }
    for (auto* a : {&s.vx, &w, &v, &m}) { eq("fwd other", T1::DevalF(*a, s.vy), R(0)); eq("rev other", T1::DevalR(*a, s.vy), R(0)); eq("sym other", T1::Eval(T1::SymDiff(*a, s.vy)), R(0)); Expression e = *a; eq("fwd handle", T1::DevalF(e, s.vx), R(1)); T1::PreComp(e); eq("rev handle", T1::DevalR(e, w), R(1)); }
    no_errors("no error reported"); });
  add_case("handle:variable copy shares value", [] { S s; Variable w{s.vx}; Expression e = w * s.vx; w = s.tc; eq("value", T1::Eval(e), s.c * s.c); eq("original", T1::Eval(s.vx), s.c); s.vx = s.tp; eq("value again", T1::Eval(e), s.p * s.p); eq("fwd", T1::DevalF(e, w), R(2) * s.p); no_errors("no error reported"); });
  add_case("handle:variable move", [] { S s; Variable o{s.tc}; Variable w{std::move(o)}; Expression e = w * w + s.vy; eq("value", T1::Eval(e), s.c * s.c + s.y); eq("fwd", T1::DevalF(e, w), R(2) * s.c); T1::PreComp(e); eq("rev", T1::DevalR(e, w), R(2) * s.c); no_errors("no error reported"); });
  add_case("handle:variable copy assignment", [] { S s; Variable w{s.tc}; w = s.vx; Expression e = w * s.vy; R f = s.x * s.y; eq("value", T1::Eval(e), f); eq("fwd source", T1::DevalF(e, s.vx), s.y); eq("fwd target", T1::DevalF(e, w), s.y); T1::PreComp(e); eq("rev", T1::DevalR(e, s.vx), s.y); eq("sym", T1::Eval(T1::SymDiff(e, s.vx)), s.y); no_errors("no error reported"); });
  add_case("handle:variable move assignment", [] { S s; Variable w{s.tc}, o{s.tp}; w = std::move(o); Expression e = w * w * s.vy; eq("value", T1::Eval(e), s.p * s.p * s.y); eq("fwd", T1::DevalF(e, w), R(2) * s.p * s.y); T1::PreComp(e); eq("rev", T1::DevalR(e, w), R(2) * s.p * s.y); no_errors("no error reported"); });
  add_case("handle:two variables with the same value", [] { S s; Variable a{s.tc}, b{s.tc}; Expression e = a * a * b; eq("fwd a", T1::DevalF(e, a), R(2) * s.c * s.c); eq("fwd b", T1::DevalF(e, b), s.c * s.c); T1::PreComp(e); eq("rev a", T1::DevalR(e, a), R(2) * s.c * s.c); eq("rev b", T1::DevalR(e, b), s.c * s.c);
    a = s.tp; eq("value", T1::Eval(e), s.p * s.p * s.c); eq("b", T1::Eval(b), s.c); no_errors("no error reported"); });
  add_case("handle:self assignment", [] { S s; s.vx = (const Variable&)s.vx; Expression e = s.vx * s.vy; eq("value", T1::Eval(e), s.x * s.y); eq("fwd", T1::DevalF(e, s.vx), s.y); no_errors("no error reported"); });
  add_case("handle:parameter copy", [] { S s; Parameter q{s.P}; Expression e = q * s.vx; eq("value", T1::Eval(e), s.q * s.x); s.P = s.tc; eq("value after update of the original", T1::Eval(e), s.c * s.x); eq("fwd", T1::DevalF(e, s.vx), s.c); no_errors("no error reported"); });
  add_case("handle:moved-from re-used", [] { S s; Variable a{s.tc}, b{s.tp}; Variable w{std::move(a)}, u; u = std::move(b); a = s.ia(); b = s.iy.t(); Expression e = a * a * b + w * u * u * b; R n = s.x, f = n * n * s.y + s.c * s.p * s.p * s.y; eq("value", T1::Eval(e), f); T1::PreComp(e);
    struct { Variable* v; R d; const char* n; } t[] = {{&a, R(2) * n * s.y, "a"}, {&b, n * n + s.c * s.p * s.p, "b"}, {&w, s.p * s.p * s.y, "w"}, {&u, R(2) * s.c * s.p * s.y, "u"}}; for (auto& k : t) eq(std::string("rev by ") + k.n, T1::DevalR(e, *k.v), k.d); for (auto& k : t) eq(std::string("fwd by ") + k.n, T1::DevalF(e, *k.v), k.d); for (auto& k : t) eq(std::string("sym by ") + k.n, T1::Eval(T1::SymDiff(e, *k.v)), k.d);
    Parameter p{s.tc}, q{s.tp}; Parameter r{std::move(p)}, z; z = std::move(q); p = s.ia(); q = s.iy.t(); Expression g = p * w + q * u + r * z; eq("parameters", T1::Eval(g), n * s.c + s.y * s.p + s.c * s.p); eq("by w", T1::DevalF(g, w), n); no_errors("no error reported"); });
  add_case("handle:parameter move", [] { S s; Parameter o{s.tc}; Parameter q{std::move(o)}; Expression e = q * s.vx; eq("value", T1::Eval(e), s.c * s.x); q = s.tp; eq("updated", T1::Eval(e), s.p * s.x); no_errors("no error reported"); });
  add_case("handle:parameter copy assignment", [] { S s; Parameter q{s.tc}; q = s.P; Expression e = q * s.vx; eq("parameter", T1::Eval(q), s.q); eq("value", T1::Eval(e), s.q * s.x); T1::PreComp(e); eq("rev", T1::DevalR(e, s.vx), s.q); eq("sym", T1::Eval(T1::SymDiff(e, s.vx)), s.q); no_errors("no error reported"); });
  add_case("handle:parameter assignment inside an expression", [] { S s; Parameter q{s.tc}; Expression e = q * s.vx; q = s.P; eq("value", T1::Eval(e), s.q * s.x); eq("fwd", T1::DevalF(e, s.vx), s.q); no_errors("no error reported"); });
  add_case("handle:parameter move assignment", [] { S s; Parameter q{s.tc}, o{s.tp}; q = std::move(o); Expression e = q * s.vx; eq("value", T1::Eval(e), s.p * s.x); no_errors("no error reported"); });
  add_case("handle:expression of copies", [] { S s; Expression W = s.U * s.vy; Expression a = W, b = W; Expression e = a * b + s.P; R w = s.u * s.y, f = w * w + s.q; check(EVAL, e, f, s); check(FWD, e, f, s); check(REV, e, f, s); check(SYM, e, f, s); no_errors("no error reported"); });
  add_case("handle:expression follows the source of a copy", [] { S s; Expression W = s.U * s.vy; Expression a = W; eq("before", T1::Eval(a), s.u * s.y); W = s.V + s.vz; R f = s.v + s.z_(); check(EVAL, a, f, s); check(FWD, a, f, s); check(REV, a, f, s); check(SYM, a, f, s); no_errors("no error reported"); });
  add_case("handle:vector of expressions", [] { S s; Vector<Expression> v(3); v[0] = s.vx * s.vy; v[1] = v[0] + s.P; v[2] = v[1] * v[0]; R a = s.x * s.y, b = a + s.q, f = b * a; check(EVAL, v[2], f, s); check(FWD, v[2], f, s); check(REV, v[2], f, s); check(SYM, v[2], f, s); check(EVAL, v[1], b, s); no_errors("no error reported"); });
  add_case("handle:loop accumulation", [] { S s; Expression e; R f(0); for (int k = 1; k <= 4; ++k) { e = e + s.vx * s.vy * (Type)(k) - s.P; f = f + s.x * s.y * R(k) - s.q; } check(EVAL, e, f, s); check(FWD, e, f, s); check(REV, e, f, s); check(SYM, e, f, s); check(EVAL, e, f, s); no_errors("no error reported"); });
  add_case("handle:loop product", [] { S s; Expression e = (Type)(1) * s.vx; R f = s.x; for (int k = 1; k <= 3; ++k) { e = e * (s.vy + (Type)(k)); f = f * (s.y + R(k)); } check(EVAL, e, f, s); check(FWD, e, f, s); check(REV, e, f, s); check(SYM, e, f, s); no_errors("no error reported"); });
  add_case("handle:deep chain", [] { S s; std::deque<Expression> c; c.emplace_back(s.vx * s.vy); R f = s.x * s.y; for (int k = 0; k < 12; ++k) { c.emplace_back(); c.back() = c[c.size() - 2] + c[c.size() - 2] - s.vx * s.P; f = f + f - s.x * s.q; } check(EVAL, c.back(), f, s); check(FWD, c.back(), f, s); check(REV, c.back(), f, s); check(SYM, c.back(), f, s); no_errors("no error reported"); });
#elif OPN == 6 || OPN == 7
  // ---- an expression updated by itself below every operation, at every operand
#define RECU(NAME, EXPR, REF, SYMM) \
  add_case("recu:op:" NAME, [] { S s; Expression e = s.vx * s.vy; R u = s.x * s.y; e = EXPR; u = REF; check(EVAL, e, u, s); check(FWD, e, u, s); check(REV, e, u, s); if (SYMM) check(SYM, e, u, s); check(EVAL, e, u, s); no_errors("no error reported"); }); \
  add_case("recu:op:" NAME ":used before", [] { S s; Expression e = s.vx * s.vy; R u = s.x * s.y; check(EVAL, e, u, s); check(FWD, e, u, s); check(REV, e, u, s); if (SYMM) check(SYM, e, u, s); e = EXPR; u = REF; check(REV, e, u, s); check(FWD, e, u, s); check(EVAL, e, u, s); if (SYMM) check(SYM, e, u, s); \
    e = e - s.vx; u = u - s.x; check(EVAL, e, u, s); check(REV, e, u, s); check(FWD, e, u, s); no_errors("no error reported"); });
#define RB(NAME, B, RR, SYMM) \
  RECU(NAME ":e,y", B(e, s.vy), RR(u, s.y), SYMM) RECU(NAME ":y,e", B(s.vy, e), RR(s.y, u), SYMM) RECU(NAME ":e,e", B(e, e), RR(u, u), SYMM) \
  RECU(NAME ":e+x,y", B((e + s.vx), s.vy), RR((u + s.x), s.y), SYMM) RECU(NAME ":y,x+e", B(s.vy, (s.vx + e)), RR(s.y, (s.x + u)), SYMM) \
  RECU(NAME ":e,c", B(e, s.tc), RR(u, s.c), SYMM) RECU(NAME ":c,e", B(s.tc, e), RR(s.c, u), SYMM) RECU(NAME ":c,e+x", B(s.tc, (e + s.vx)), RR(s.c, (u + s.x)), SYMM) RECU(NAME ":e+x,c", B((e + s.vx), s.tc), RR((u + s.x), s.c), SYMM)
#define RU(NAME, FN, RF, SYMM) RECU(NAME ":e", FN(e), RF(u), SYMM) RECU(NAME ":e*y", FN(e * s.vy), RF(u * s.y), SYMM) RECU(NAME ":x+f(e)", s.vx + FN(e), s.x + RF(u), SYMM)
#define ADD_(a, b) ((a) + (b))
#define SUB_(a, b) ((a) - (b))
#define MUL_(a, b) ((a) * (b))
#define DIV_(a, b) ((a) / (b))
#define POW_(a, b) pow(a, b)
#if OPN == 6
  RB("sum", ADD_, ADD_, true) RB("sub", SUB_, SUB_, true) RB("mul", MUL_, MUL_, true) RB("QuotS", QuotS, quot, false)
#if !defined(USE_COMPLEX_MATH)
  RB("div", DIV_, DIV_, true) RB("pow", POW_, POW_, true)
#endif
#else
  RU("sin", sin, sin, true) RU("exp", exp, exp, true) RU("neg", -, -, true) RU("cosh", cosh, cosh, true)
#if !defined(USE_COMPLEX_MATH)
  RU("cos", cos, cos, true) RU("tan", tan, tan, true) RU("log", log, log, true) RU("sqrt", sqrt, sqrt, true)
  RU("sinh", sinh, sinh, true) RU("tanh", tanh, tanh, true) RU("asin", asin, asin, true) RU("acos", acos, acos, true) RU("atan", atan, atan, true)
  RU("asinh", asinh, asinh, true) RU("acosh", acosh, acosh, true) RU("atanh", atanh, atanh, true) RU("CubeS", CubeS, cube, false)
#endif
#endif
#elif OPN == 5 && defined(USE_COMPLEX_MATH)
  // ---- real (op) complex
#define MIX(NAME, EXPR, REF) add_case("mix:" NAME, [] { In iz = in("z"); Type z = iz.t(); R w = iz.r(); Real r = iz2().a; R q = R(iz2().b); auto t = EXPR; eq("value", t, REF); });
  struct RP { Real a; Ref b; };
  static auto iz2 = [] { symx::id_t i = E().var("r"); return RP{to_real(i), Ref::of(i)}; };
  MIX("r+z", r + z, q + w) MIX("z+r", z + r, w + q) MIX("r-z", r - z, q - w) MIX("z-r", z - r, w - q) MIX("r*z", r * z, q * w) MIX("z*r", z * r, w * q) MIX("r/z", r / z, q / w) MIX("z/r", z / r, w / q)
#define CMP(NAME, EXPR, WANT) add_case("cmp:" NAME, [] { In iz = in("z"); Type z = iz.t(); auto p = iz2(); Real r = p.a; bool got = EXPR; bool same = (iz.r().re == p.b) && (iz.r().im == Ref(0)); truth(NAME, got == (WANT)); });
  CMP("z==r", z == r, same) CMP("r==z", r == z, same) CMP("z!=r", z != r, !same) CMP("r!=z", r != z, !same)
#endif
}
