// gather: completes when every branch has, reports each branch's outcome in its place.
#define ALL_JOIN false
#include "all_of.hpp"
#if PBT_IN(0)
int main(int argc, char ** argv) { return all_main(argc, argv, "C06"); }
#endif
