#pragma once
#include "MappedVector.hpp"
