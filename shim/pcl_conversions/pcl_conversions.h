#pragma once
#include "pclconvshim.hpp"
