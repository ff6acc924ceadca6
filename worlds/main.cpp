#include "../sim/sim.h"
#include "../ref/ref.h"
#include <string.h>
#include <stdlib.h>
// "warm <cache dir> <k> <id>": compute one reference plot ahead of the search
int main(int argc, char** argv) { if(argc == 5 && !strcmp(argv[1], "warm")) { ref::get(atoi(argv[3]), ref::pool_id(atoi(argv[4])), argv[2]); return 0; } return sim::main_loop(argc, argv); }
