#include "../gmlc/utilities/string_viewOps.h"
