#pragma once
#include <ros/ros.h>
namespace ros { namespace package { inline std::string getPath(const std::string&) { return "."; } } }
