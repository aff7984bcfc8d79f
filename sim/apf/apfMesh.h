#include "apfMesh2.h"
