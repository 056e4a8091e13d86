// Stand-in for GMLC-TDC/utilities stringConversion.h
#pragma once
#include "stringOps.h"
#include "string_viewOps.h"
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace gmlc::utilities {
namespace shim_detail {
    template<class X>
    bool parseNumber(std::string_view v, X& out, std::size_t& used)
    {
        auto t = string_viewOps::trim(v);
        const auto lead = t.empty() ? v.size() : static_cast<std::size_t>(t.data() - v.data());
        std::string s(t);
        if (s.empty()) return false;
        char* end = nullptr;
        if constexpr (std::is_floating_point_v<X>) out = static_cast<X>(std::strtod(s.c_str(), &end));
        else if constexpr (std::is_unsigned_v<X>) out = static_cast<X>(std::strtoull(s.c_str(), &end, 10));
        else out = static_cast<X>(std::strtoll(s.c_str(), &end, 10));
        if (end == s.c_str()) return false;
        used = lead + static_cast<std::size_t>(end - s.c_str());
        return true;
    }
}  // namespace shim_detail
template<class X>
X numConv(std::string_view v)
{
    X out{}; std::size_t used{0};
    if (!shim_detail::parseNumber(v, out, used)) throw std::invalid_argument("unable to convert string");
    return out;
}
template<class X>
X numConv(const std::string& v)
{
    return numConv<X>(std::string_view(v));
}
template<class X>
X numConv(const char* v)
{
    return numConv<X>(std::string_view(v));
}
template<class X>
X numeric_conversion(std::string_view v, const X defValue)
{
    X out{}; std::size_t used{0};
    return shim_detail::parseNumber(v, out, used) ? out : defValue;
}
template<class X>
X numeric_conversionComplete(std::string_view v, const X defValue)
{
    X out{}; std::size_t used{0};
    if (!shim_detail::parseNumber(v, out, used)) return defValue;
    return string_viewOps::trim(v.substr(used)).empty() ? out : defValue;
}
template<class X>
std::vector<X> str2vector(std::string_view line, const X defValue, std::string_view delims = ",;")
{
    std::vector<X> out;
    for (auto& p : string_viewOps::splitline(line, delims)) out.push_back(numeric_conversion<X>(p, defValue));
    return out;
}
}  // namespace gmlc::utilities
