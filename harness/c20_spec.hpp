#pragma once
#include <vector>
#include <string>
#include <cstdint>
// What a routine produced, flattened: exact bit patterns; labels already renamed by first occurrence.
struct C20Out { std::vector<double> v; std::string err; };
struct C20In { int routine=0; int w=0,h=0; std::vector<double> z; double nd=-9999; int ty=0; };
