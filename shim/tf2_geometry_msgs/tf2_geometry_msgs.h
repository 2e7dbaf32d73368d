#pragma once
#include "tf2shim.hpp"
