#include "twagraph.hh"
