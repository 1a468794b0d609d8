// Reference model for matrix products and generated matrix contents.
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <string>
#include <vector>

namespace oracle {

// kinds of contents; every matrix is a pure function of (kind, seed, n)
enum Kind {
  INTS = 0,     // small integers: the product is exact, equality is required
  SPARSE = 1,   // few non-zero integers in A and B (shrinks to unit matrices)
  ENUM = 2,     // A enumerates, B is a scaled permutation: every wrong index shows
  REAL = 3,     // reals in [-1,1)
  WIDE = 4,     // reals over 40 binades
  CANCEL = 5,   // large terms that nearly cancel
  SCALED = 6,   // reals times a power of two between 2^-200 and 2^200, one for A, one for B
  STRUCT = 7,   // integers with structure: zero or equal rows and columns, triangles, constants, negative zeros
  SAME = 8,     // one matrix as both operands, integers (the callers pass the same storage twice)
  KINDS = 9
};
const char *kind_name(int kind);
bool exact(int kind);

// row-major n x n
std::vector<double> make_A(int kind, std::uint64_t seed, std::size_t n);
std::vector<double> make_B(int kind, std::uint64_t seed, std::size_t n);
std::vector<double> transpose(const std::vector<double> &m, std::size_t n);

struct Ref {
  std::size_t n;
  bool is_exact;
  std::vector<double> c;   // reference value
  std::vector<double> tol; // admissible deviation per component
};
Ref reference(int kind, std::size_t n, const std::vector<double> &A, const std::vector<double> &B);

// empty string if the n x n row-major result C is right, else a description
std::string compare(const Ref &r, const double *C, std::size_t size);
// only the block rows x0.., columns y0.. of side b, C being b x b
std::string compare_block(const Ref &r, const double *C, std::size_t x0, std::size_t y0, std::size_t b);

// integer model used for exact element types
std::vector<long long> product_ll(std::size_t n, const std::vector<long long> &A, const std::vector<long long> &B);

// generator helpers
int gen_kind(pbt::Src &s);
std::int64_t gen_pow2(pbt::Src &s, int lo_exp, int hi_exp);
// a value near one of the given boundaries, within [lo,hi]
std::int64_t gen_near(pbt::Src &s, const std::vector<std::int64_t> &b, std::int64_t spread, std::int64_t lo, std::int64_t hi);
}
