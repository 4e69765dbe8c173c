// Included by the library's common header (guard COOLDIFF_SYMBOLIC) after Eigen.
#pragma once
#include "symx.hpp"
#define COOLDIFF_SYMBOLIC_REAL symx::Sym
namespace Eigen {
template <> struct NumTraits<symx::Sym> : GenericNumTraits<symx::Sym> {
  typedef symx::Sym Real; typedef symx::Sym NonInteger; typedef symx::Sym Nested; typedef symx::Sym Literal;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 0, ReadCost = 1, AddCost = 3, MulCost = 3 };
  static inline Real epsilon() { return Real(2.220446049250313e-16); }
  static inline Real dummy_precision() { return Real(1e-12); }
  static inline Real highest() { return std::numeric_limits<symx::Sym>::max(); }
  static inline Real lowest() { return std::numeric_limits<symx::Sym>::lowest(); }
  static inline int digits10() { return 15; }
};
}
