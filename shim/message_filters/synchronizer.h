#pragma once
#include "mfshim.hpp"
