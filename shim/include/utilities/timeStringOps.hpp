#include "../gmlc/utilities/timeStringOps.hpp"
