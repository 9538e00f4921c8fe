// join: all values, or the first failure once every branch has ended.
#define ALL_JOIN true
#include "all_of.hpp"
#if PBT_IN(0)
int main(int argc, char ** argv) { return all_main(argc, argv, "C07"); }
#endif
