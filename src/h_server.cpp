// C02, C03, C05, C06, R02: a server and its clients.
#include "history.h"
#include "h_server.h"
#include "h_history.h"
#include "h_hostile.h"

int main(int argc, char **argv)
{
 return main_loop(argc, argv, {{"protocol", raw::protocol}, {"history", hist::history}, {"broken", hist::broken}, {"hostile", hostile::clients}});
}
