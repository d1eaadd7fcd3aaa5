// C06: clients meet files and servers with the same, a longer, a shorter or another history. R02: databases behind a server or a URL.
#include "history.h"
#include "raw.h"
#include "h_content.h"
#include "h_remote.h"

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"content", content::meetings}, {"remote", remote::files}, {"url", remote::urls}});
}
