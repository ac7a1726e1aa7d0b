#pragma once
#include <nodelet/nodelet.h>
namespace nodelet {
class Loader { public: Loader(bool = true) {} bool load(const std::string&, const std::string&, const M_string&, const V_string&) { return true; } bool unload(const std::string&) { return true; } };
}
