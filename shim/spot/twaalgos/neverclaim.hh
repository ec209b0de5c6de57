#include "../twa/twagraph.hh"
