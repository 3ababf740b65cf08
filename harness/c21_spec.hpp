#pragma once
#include <string>
#include <cstdint>
