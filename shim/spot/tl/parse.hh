#include "formula.hh"
