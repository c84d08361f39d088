// What one translation unit of the monitored programs offers to the others.
#ifndef TU_HPP
#define TU_HPP
#include <stdint.h>
#include <string>
struct TuKind {
  const char* name;
  size_t size;                                  // of the object
  void* (*build)(uint64_t seed);
  uint64_t (*ask)(const void*, uint64_t seed);  // digest of the answers
  void (*change)(void*, uint64_t seed);         // null for static structures
  void* (*copy)(const void*);
  void (*assign)(void*, const void*);
  void (*drop)(void*);
  std::string (*bytes)(const void*);            // empty if it cannot be written
  void* (*read)(const std::string&);            // null if it cannot be read
};
struct TuUnit { const char* what; const TuKind* kinds; int n; };
#endif
