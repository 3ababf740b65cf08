#pragma once
#include <vector>
#include <string>
#include <map>
#include <cstdint>
// One communication program: ranks 1..n-1 send, rank 0 receives.
struct C23Spec { int n; std::vector<std::vector<int>> kinds; /* per sender: payload kinds */ int recvmode; bool isend, echo; int bcast; };
struct C23Out { std::vector<std::string> got; std::vector<uint64_t> sent, recv, expsent, exprecv; std::string bad; };
