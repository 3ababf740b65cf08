// One rank of a parallel program: the program's own main(), renamed.
#define main rd_rank_main
#include PROGRAM_MAIN
#undef main
extern "C" int prank_entry(int c,char**v){ return rd_rank_main(c,v); }
