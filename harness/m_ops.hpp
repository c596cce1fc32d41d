#pragma once
#include <cstdint>
#include <string>
#include <vector>
struct Fixtures { std::vector<uint8_t> n, d, e, n2, d2, der[5], key[2]; std::string pem[2]; };
extern Fixtures fx;
extern void (*mStep)();   // called between the library calls of an operation
struct OpDef { const char* name; std::string (*fn)(int variant); int cost = 1; bool random = false; };
const std::vector<OpDef>& ops();
