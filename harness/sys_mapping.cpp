// The mapping node with its main under another name, for harness/system.cpp.
#include <rclcpp/rclcpp.hpp>
#define main mapping_main
#include "mapping/src/mapping.cpp"
