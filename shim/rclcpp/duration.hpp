#pragma once
#include "rosshim.hpp"
