// the program joedb_merge, as a function
#define main joedb_merge_main
#include "joedb/ui/joedb_merge.cpp"
