// the program joedb_convert, as a function
#define main joedb_convert_main
#include "joedb/ui/joedb_convert.cpp"
