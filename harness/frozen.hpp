#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <vector>
struct FrozenObject { size_t species; uint64_t seed; size_t max; std::vector<uint64_t> changes; };
size_t frozen_count();
const char* frozen_name(size_t species);
void frozen_write(const FrozenObject&, std::ostream&);
std::vector<uint64_t> frozen_answers(const FrozenObject&, const std::vector<uint64_t>& later);   // built, changed, changed later, asked
std::vector<uint64_t> frozen_read(const FrozenObject& like, std::istream&, bool used, const std::vector<uint64_t>& later);
