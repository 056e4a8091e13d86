#pragma once
#include "stringConversion.h"
