#include "emu.hpp"
