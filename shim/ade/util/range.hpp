#pragma once
#include "../ade_core.hpp"
