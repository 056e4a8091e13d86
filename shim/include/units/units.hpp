// Stand-in for the (absent) LLNL/units submodule: a small table of units, with prefix and product/quotient support.
#pragma once
#include <array>
#include <cmath>
#include <limits>
#include <map>
#include <string>
namespace units {
class precise_unit {
  public:
    double mult{1.0};
    double offset{0.0};
    std::array<int, 8> dim{};  // m kg s A K mol cd count
    bool valid{true};
    bool def{false};
    precise_unit() = default;
    bool operator==(const precise_unit& o) const
    {
        return valid && o.valid && dim == o.dim && offset == o.offset &&
            std::abs(mult - o.mult) <= 1e-12 * std::abs(mult);
    }
    bool operator!=(const precise_unit& o) const { return !(*this == o); }
};
namespace shim_detail {
inline precise_unit mk(double m, std::array<int, 8> d, double off = 0.0)
{
    precise_unit u;
    u.mult = m;
    u.dim = d;
    u.offset = off;
    return u;
}
inline const std::map<std::string, precise_unit>& table()
{
    static const std::map<std::string, precise_unit> t{
        {"", mk(1, {})}, {"1", mk(1, {})},
        {"m", mk(1, {1})}, {"meter", mk(1, {1})}, {"meters", mk(1, {1})}, {"ft", mk(0.3048, {1})}, {"in", mk(0.0254, {1})}, {"mile", mk(1609.344, {1})}, {"miles", mk(1609.344, {1})},
        {"g", mk(1e-3, {0, 1})}, {"kg", mk(1, {0, 1})}, {"lb", mk(0.45359237, {0, 1})},
        {"s", mk(1, {0, 0, 1})}, {"sec", mk(1, {0, 0, 1})}, {"second", mk(1, {0, 0, 1})}, {"min", mk(60, {0, 0, 1})}, {"minute", mk(60, {0, 0, 1})}, {"h", mk(3600, {0, 0, 1})}, {"hr", mk(3600, {0, 0, 1})}, {"hour", mk(3600, {0, 0, 1})}, {"day", mk(86400, {0, 0, 1})},
        {"A", mk(1, {0, 0, 0, 1})}, {"K", mk(1, {0, 0, 0, 0, 1})}, {"degC", mk(1, {0, 0, 0, 0, 1}, 273.15)}, {"C", mk(1, {0, 0, 1, 1})}, {"degF", mk(5.0 / 9.0, {0, 0, 0, 0, 1}, 459.67)},
        {"W", mk(1, {2, 1, -3})}, {"J", mk(1, {2, 1, -2})}, {"V", mk(1, {2, 1, -3, -1})}, {"VA", mk(1, {2, 1, -3})}, {"N", mk(1, {1, 1, -2})}, {"Pa", mk(1, {-1, 1, -2})}, {"Hz", mk(1, {0, 0, -1})}, {"ohm", mk(1, {2, 1, -3, -2})},
        {"rad", mk(1, {0, 0, 0, 0, 0, 0, 0, 1})}, {"deg", mk(3.14159265358979323846 / 180.0, {0, 0, 0, 0, 0, 0, 0, 1})}};
    return t;
}
inline precise_unit invalid()
{
    precise_unit u;
    u.valid = false;
    u.mult = std::numeric_limits<double>::quiet_NaN();
    return u;
}
inline precise_unit atom(const std::string& s)
{
    auto it = table().find(s);
    if (it != table().end()) return it->second;
    static const std::map<char, double> pre{{'k', 1e3}, {'M', 1e6}, {'G', 1e9}, {'T', 1e12}, {'m', 1e-3}, {'u', 1e-6}, {'n', 1e-9}, {'p', 1e-12}, {'c', 1e-2}, {'d', 1e-1}};
    if (s.size() > 1) {
        auto p = pre.find(s[0]);
        if (p != pre.end()) {
            auto b = table().find(s.substr(1));
            if (b != table().end() && !b->first.empty() && b->first != "1") {
                auto u = b->second;
                u.mult *= p->second;
                return u;
            }
        }
    }
    auto c = s.find('^');
    if (c != std::string::npos && c + 1 < s.size()) {
        auto u = atom(s.substr(0, c));
        int e = std::atoi(s.c_str() + c + 1);
        if (!u.valid) return u;
        precise_unit r;
        r.mult = std::pow(u.mult, e);
        for (size_t i = 0; i < 8; ++i) r.dim[i] = u.dim[i] * e;
        return r;
    }
    return invalid();
}
}  // namespace shim_detail
inline precise_unit unit_from_string(std::string s, std::uint64_t = 0)
{
    auto b = s.find_first_not_of(" \t");
    if (b == std::string::npos) s.clear();
    else s = s.substr(b, s.find_last_not_of(" \t") - b + 1);
    if (s == "defunit" || s == "def") {
        precise_unit u;
        u.def = true;
        return u;
    }
    precise_unit r;
    size_t st = 0;
    int sgn = 1;
    while (true) {
        auto p = s.find_first_of("*/", st);
        auto u = shim_detail::atom(s.substr(st, p == std::string::npos ? p : p - st));
        if (!u.valid) return u;
        if (st == 0 && p == std::string::npos) return u;
        r.mult = sgn > 0 ? r.mult * u.mult : r.mult / u.mult;
        for (size_t i = 0; i < 8; ++i) r.dim[i] += sgn * u.dim[i];
        if (p == std::string::npos) break;
        sgn = s[p] == '*' ? 1 : -1;
        st = p + 1;
    }
    return r;
}
inline bool is_valid(const precise_unit& u) { return u.valid; }
inline bool isnormal(const precise_unit& u) { return u.valid; }
inline double convert(double v, const precise_unit& a, const precise_unit& b)
{
    if (a.def || b.def || a == b) return v;
    if (!a.valid || !b.valid || a.dim != b.dim) return std::numeric_limits<double>::quiet_NaN();
    return ((v + a.offset) * a.mult) / b.mult - b.offset;
}
inline double convert(const precise_unit& a, const precise_unit& b) { return convert(1.0, a, b); }
inline double quick_convert(double v, const precise_unit& a, const precise_unit& b)
{
    if (a.offset != 0.0 || b.offset != 0.0) return std::numeric_limits<double>::quiet_NaN();
    return convert(v, a, b);
}
inline double quick_convert(const precise_unit& a, const precise_unit& b) { return quick_convert(1.0, a, b); }
inline std::string to_string(const precise_unit& u) { return u.valid ? std::to_string(u.mult) : std::string("invalid"); }
}  // namespace units
