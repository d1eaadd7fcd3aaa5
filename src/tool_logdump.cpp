// the program joedb_logdump, as a function
#define main joedb_logdump_main
#include "joedb/ui/joedb_logdump.cpp"
