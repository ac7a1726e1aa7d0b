#pragma once
// Lets a harness look inside the classes under test (the standard and stand-in headers are already included).
#include <yaml-cpp/yaml.h>
#define private public
#define protected public
