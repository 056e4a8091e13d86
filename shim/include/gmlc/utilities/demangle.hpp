#pragma once
#include <cstdlib>
#include <cxxabi.h>
#include <string>
namespace gmlc {
inline std::string demangle(const char* name)
{
    int status = 0;
    char* p = abi::__cxa_demangle(name, nullptr, nullptr, &status);
    std::string r = (status == 0 && p != nullptr) ? p : name;
    std::free(p);
    return r;
}
inline std::string demangle(const std::string& name) { return demangle(name.c_str()); }
template<class T> std::string demangle(const T& t) { return demangle(typeid(t).name()); }
}  // namespace gmlc
