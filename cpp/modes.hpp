#pragma once
#include <set>
#include <sstream>

#include "model.hpp"

namespace vf {
void iter_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen);
void wide_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen);
void qm_case(Rng& r, Stats& st, std::ostringstream& log, std::set<uint64_t>& seen);
}
