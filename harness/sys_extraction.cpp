// The extraction node with its main under another name, for harness/system.cpp.
#include <rclcpp/rclcpp.hpp>
#define main extraction_main
#include "extraction/app/feature_extraction.cpp"
