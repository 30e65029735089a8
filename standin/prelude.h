/* Included before everything else in the checking builds.
 *
 * The checks of the C++ library (_GLIBCXX_ASSERTIONS) are on, except those in <random>: SMASH
 * samples some descending intervals (std::uniform_real_distribution(a, b) with a > b), which the
 * library computes correctly and only its assertion objects to. */
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <iosfwd>
#include <limits>
#include <numeric>
#include <string>
#include <vector>
#pragma push_macro("__glibcxx_assert")
#undef __glibcxx_assert
#define __glibcxx_assert(cond)
#include <random>
#pragma pop_macro("__glibcxx_assert")
#endif
