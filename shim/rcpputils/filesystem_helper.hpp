#pragma once
#include <filesystem>
#include <string>
namespace rcpputils {namespace fs {
inline bool exists(const std::string & p) {return std::filesystem::exists(p);}
inline bool is_regular_file(const std::string & p) {return std::filesystem::is_regular_file(p);}
}}
