// the program joedb_to_json, as a function
#define main joedb_to_json_main
#include "joedb/ui/joedb_to_json.cpp"
