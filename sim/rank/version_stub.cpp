#include <engpar_version.h>
const char* engpar_version() { return "simulated"; }
