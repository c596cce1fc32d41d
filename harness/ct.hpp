#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>
// trace recorder (rt_ct.cpp)
extern "C" { void ct_prepare(bool useArena); void ct_release(); void ct_begin(); void ct_end(); uint64_t ct_hash(); uint64_t ct_count(); void ct_record(uint64_t* buf, uint64_t cap); }
// one secret-handling operation: run(secret) prepares its objects, then traces the operation between ct_begin and ct_end
struct CtOp { const char* name; size_t seclen; void (*run)(const uint8_t* secret); int cost; int family; };
const std::vector<CtOp>& ctOps();
