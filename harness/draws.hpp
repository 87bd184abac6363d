// An arbitrary random number generator: includes <random>, then puts a
// generator whose every output is a free symbolic integer in the place of
// std::default_random_engine.  Paths which need more than `budget` draws are
// outside the bounds.
#pragma once
#include "symx.h"
#include <random>
#include <string>
namespace hx { inline int ndraws = 0, budget = 4; inline void reset_draws(int b) { ndraws = 0; budget = b; }
inline unsigned draw(unsigned hi) { symx::assume(ndraws < budget); return (unsigned)symx::integer(("draw" + std::to_string(ndraws++)).c_str(), 0, hi); } }
namespace std { struct symx_engine { typedef unsigned result_type; symx_engine() {} explicit symx_engine(unsigned) {} static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 11; } unsigned operator()() { return hx::draw(11); } void seed(unsigned = 0) {} }; }
#define default_random_engine symx_engine
