#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
typedef uint64_t u64;
typedef int64_t i64;
enum Sort : uint8_t { BV, REAL, FP };
enum Op : uint16_t {
  // 1..99 : llvm binary opcodes on BV
  O_CONST = 200, O_VAR, O_ITE, O_CMP, O_EXTRACT, O_CONCAT, O_ZEXT, O_SEXT,
  O_RLT, O_RLE, O_REQ,           // real a <,<=,== 0  (BV1)
  O_RAT, O_RSPEC,                // real: rational function / inf,nan
  O_FCMP, O_FBIN, O_FNEG, O_FABS, O_FSQRT, O_FITE, O_FFROMBV, O_FRTI, O_FTOBV, O_FCLASS, O_FBITS, O_FFROMBITS, O_FAPP, O_OVF
};
struct Poly;
struct Rat { Poly *num; std::vector<std::pair<Poly *, int>> den; };
struct Expr {
  uint32_t id; Sort sort; uint16_t op; uint16_t bits;
  Expr *a, *b, *c; u64 val; Rat *r; std::string *name; Z3_ast z; std::vector<int> *supp;
};
struct Poly { uint32_t id; std::vector<std::pair<int, mpq_class>> t; };
enum AKind { A_VAR, A_SQRT, A_APP, A_FLOOR };
struct Atom { AKind kind; std::string name; std::vector<Expr *> args; Poly *sq; Expr *ex; Expr *var; int known; /*1: >0, 2: >=0*/ };
struct Unsupported { std::string why; };
