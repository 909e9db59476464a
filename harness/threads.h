// shared by the two halves of the C35 harness
#pragma once
#include <string>
struct TOp { const char *name; std::string (*fn)(int v); }; // calls one part of the library on data of its own; v: which data
extern const TOp TOPS[];
extern const int NTOPS;
void tops_init(const char *dir);
