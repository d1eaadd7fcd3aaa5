// the program joedb_push, as a function
#define main joedb_push_main
#include "joedb/ui/joedb_push.cpp"
