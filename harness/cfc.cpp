// The real file converter.
#include "throwtrace.h"
#include "../../util/CFConverter/CFConverter.cpp"
