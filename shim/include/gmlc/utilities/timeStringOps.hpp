// Stand-in for GMLC-TDC/utilities timeStringOps.hpp
#pragma once
#include "../../utilities/timeRepresentation.hpp"
#include "stringConversion.h"
#include <stdexcept>
namespace gmlc::utilities {
inline time_units timeUnitsFromString(std::string_view u)
{
    std::string s = stringOps::trim(u);
    const std::string l = convertToLowerCase(s);
    if (l == "ps" || l == "picosecond" || l == "picoseconds") return time_units::ps;
    if (l == "ns" || l == "nanosecond" || l == "nanoseconds") return time_units::ns;
    if (l == "us" || l == "microsecond" || l == "microseconds") return time_units::us;
    if (l == "ms" || l == "millisecond" || l == "milliseconds") return time_units::ms;
    if (l == "s" || l == "sec" || l == "second" || l == "seconds" || l.empty()) return time_units::sec;
    if (l == "min" || l == "minute" || l == "minutes") return time_units::minutes;
    if (l == "hr" || l == "h" || l == "hour" || l == "hours") return time_units::hr;
    if (l == "day" || l == "d" || l == "days") return time_units::day;
    if (l == "week" || l == "w" || l == "weeks") return time_units::week;
    if (l == "year" || l == "y" || l == "years" || l == "yr") return time_units::year;
    throw std::invalid_argument("invalid time unit: " + s);
}
inline double getDoubleFromString(std::string_view v, std::string& rest)
{
    double out{0}; std::size_t used{0};
    if (!shim_detail::parseNumber(v, out, used)) throw std::invalid_argument("unable to parse a time value");
    rest = stringOps::trim(v.substr(used));
    return out;
}
inline double getTimeValue(std::string_view v, time_units defUnit)
{
    std::string rest;
    const double d = getDoubleFromString(v, rest);
    return d * shim_time::unitSeconds(rest.empty() ? defUnit : timeUnitsFromString(rest));
}
template<class timeX>
timeX loadTimeFromString(std::string_view s)
{
    return timeX(getTimeValue(s, time_units::sec));
}
template<class timeX>
timeX loadTimeFromString(std::string_view s, time_units defUnit)
{
    return timeX(getTimeValue(s, defUnit));
}
}  // namespace gmlc::utilities
