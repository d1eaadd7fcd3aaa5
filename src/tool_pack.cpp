// the program joedb_pack, as a function
#define main joedb_pack_main
#include "joedb/ui/joedb_pack.cpp"
