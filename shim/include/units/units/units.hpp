#include "../units.hpp"
