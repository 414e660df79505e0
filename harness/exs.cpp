// The real surface extraction tool.
#include "throwtrace.h"
#include "../../util/ExtractSurface/ExtractSurface.cpp"
