// The map loader component, for harness/system.cpp.
#include <rclcpp/rclcpp.hpp>
#include "map_loader/src/map_loader.cpp"
