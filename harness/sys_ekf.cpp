// The ekf node with its main under another name, for harness/system.cpp.
#include <rclcpp/rclcpp.hpp>
#define main ekf_main
#include "ekf_localizer/src/ekf_localizer_node.cpp"
