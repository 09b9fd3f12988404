// formula.tpl.hpp has no include guard; a unit that has included it already (through formula.cpp) says so
#ifndef VP_HAVE_FORMULA
#include_next "function/formula.tpl.hpp"
#endif
