// The localization node with its main under another name, for harness/system.cpp.
#include <rclcpp/rclcpp.hpp>
#define main localization_main
#include "localization/app/localization.cpp"
