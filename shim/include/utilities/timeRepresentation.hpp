// Stand-in for GMLC-TDC/utilities timeRepresentation.hpp (the submodule is absent in this sandbox).
// Written from the public interface HELICS uses; not copied.
#pragma once
#include <chrono>
#include <cstdint>
#include <limits>
#include <ostream>
#include <string>
#include <type_traits>

enum class time_units : int {
    ps = 0, ns = 1, us = 2, ms = 3, s = 4, sec = 5, minutes = 6, hr = 7, day = 8, week = 9, year = 10,
};

namespace shim_time {
constexpr double unitSeconds(time_units u)
{
    switch (u) {
        case time_units::ps: return 1e-12;
        case time_units::ns: return 1e-9;
        case time_units::us: return 1e-6;
        case time_units::ms: return 1e-3;
        case time_units::s: case time_units::sec: return 1.0;
        case time_units::minutes: return 60.0;
        case time_units::hr: return 3600.0;
        case time_units::day: return 86400.0;
        case time_units::week: return 7.0 * 86400.0;
        case time_units::year: return 365.0 * 86400.0;
    }
    return 1.0;
}
constexpr std::int64_t pow10i(int n)
{
    std::int64_t r = 1;
    for (int i = 0; i < n; ++i) r *= 10;
    return r;
}
constexpr std::int64_t roundD(double v)
{
    return (v >= 0.0) ? static_cast<std::int64_t>(v + 0.5) : static_cast<std::int64_t>(v - 0.5);
}
}  // namespace shim_time

constexpr double toSecondMultiplier(time_units u)
{
    return shim_time::unitSeconds(u);
}

template<int N, typename base = std::int64_t>
class count_time {
  public:
    using baseType = base;
    static constexpr base iFactor = shim_time::pow10i(N);
    static constexpr double dFactor = static_cast<double>(shim_time::pow10i(N));
    static constexpr base maxVal() noexcept { return (std::numeric_limits<base>::max)(); }
    static constexpr base minVal() noexcept { return (std::numeric_limits<base>::min)() + 1; }
    static constexpr base zeroVal() noexcept { return 0; }
    static constexpr base epsilon() noexcept { return 1; }
    static constexpr double limitHigh = 9.223372036854775e18 / dFactor;
    static constexpr base convert(double t) noexcept
    {
        if (!(t == t)) return minVal();
        if (t > -limitHigh && t < limitHigh) {
            // separate whole seconds from the fraction to limit floating point error
            const auto whole = static_cast<base>(t);
            const double frac = t - static_cast<double>(whole);
            return whole * iFactor + shim_time::roundD(frac * dFactor);
        }
        return (t > 0) ? maxVal() : minVal();
    }
    static constexpr double toDouble(base v) noexcept
    {
        return static_cast<double>(v / iFactor) + static_cast<double>(v % iFactor) / dFactor;
    }
    static constexpr base seconds(base v) noexcept { return v / iFactor; }
    static constexpr base toCount(base v, time_units u) noexcept
    {
        constexpr int unitPow[] = {12, 9, 6, 3, 0, 0};
        const int ui = static_cast<int>(u);
        if (ui <= 5) {
            const int p = unitPow[ui];
            return (p <= N) ? v / shim_time::pow10i(N - p) : v * shim_time::pow10i(p - N);
        }
        return (v / iFactor) / static_cast<base>(shim_time::unitSeconds(u));
    }
    static constexpr base fromCount(base c, time_units u) noexcept
    {
        constexpr int unitPow[] = {12, 9, 6, 3, 0, 0};
        const int ui = static_cast<int>(u);
        if (ui <= 5) {
            const int p = unitPow[ui];
            return (p <= N) ? c * shim_time::pow10i(N - p) : c / shim_time::pow10i(p - N);
        }
        return c * iFactor * static_cast<base>(shim_time::unitSeconds(u));
    }
};

template<class Tconv>
class TimeRepresentation {
  public:
    using baseType = typename Tconv::baseType;

  private:
    baseType timecode_{0};
    struct raw_t {};
    constexpr TimeRepresentation(raw_t, baseType v) noexcept: timecode_(v) {}
    static constexpr TimeRepresentation raw(baseType v) noexcept { return TimeRepresentation(raw_t{}, v); }

  public:
    constexpr TimeRepresentation() noexcept = default;
    constexpr TimeRepresentation(double t) noexcept: timecode_(Tconv::convert(t)) {}
    constexpr TimeRepresentation(std::int64_t count, time_units u) noexcept: timecode_(Tconv::fromCount(count, u)) {}
    constexpr TimeRepresentation(int count, time_units u) noexcept: timecode_(Tconv::fromCount(count, u)) {}
    constexpr TimeRepresentation(double t, time_units u) noexcept: timecode_(Tconv::convert(t * shim_time::unitSeconds(u))) {}
    template<class Rep, class Period>
    constexpr TimeRepresentation(std::chrono::duration<Rep, Period> d) noexcept:
        timecode_(Tconv::fromCount(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), time_units::ns))
    {
    }
    constexpr TimeRepresentation(const TimeRepresentation&) noexcept = default;
    constexpr TimeRepresentation& operator=(const TimeRepresentation&) noexcept = default;
    constexpr TimeRepresentation& operator=(double t) noexcept { timecode_ = Tconv::convert(t); return *this; }

    static constexpr TimeRepresentation maxVal() noexcept { return raw(Tconv::maxVal()); }
    static constexpr TimeRepresentation minVal() noexcept { return raw(Tconv::minVal()); }
    static constexpr TimeRepresentation zeroVal() noexcept { return raw(Tconv::zeroVal()); }
    static constexpr TimeRepresentation epsilon() noexcept { return raw(Tconv::epsilon()); }
    constexpr baseType getBaseTimeCode() const noexcept { return timecode_; }
    constexpr void setBaseTimeCode(baseType b) noexcept { timecode_ = b; }
    constexpr baseType toCount(time_units u) const noexcept { return Tconv::toCount(timecode_, u); }
    constexpr baseType seconds() const noexcept { return Tconv::seconds(timecode_); }
    std::chrono::milliseconds to_ms() const { return std::chrono::milliseconds(Tconv::toCount(timecode_, time_units::ms)); }
    std::chrono::nanoseconds to_ns() const { return std::chrono::nanoseconds(Tconv::toCount(timecode_, time_units::ns)); }
    constexpr operator double() const noexcept { return Tconv::toDouble(timecode_); }
    constexpr explicit operator bool() const noexcept { return timecode_ != 0; }

    constexpr TimeRepresentation operator-() const noexcept { return raw(-timecode_); }
    constexpr TimeRepresentation& operator+=(const TimeRepresentation& o) noexcept { timecode_ += o.timecode_; return *this; }
    constexpr TimeRepresentation& operator-=(const TimeRepresentation& o) noexcept { timecode_ -= o.timecode_; return *this; }
    constexpr TimeRepresentation& operator*=(int m) noexcept { timecode_ *= m; return *this; }
    constexpr TimeRepresentation& operator*=(double m) noexcept { timecode_ = Tconv::convert(Tconv::toDouble(timecode_) * m); return *this; }
    constexpr TimeRepresentation& operator/=(int m) noexcept { timecode_ /= m; return *this; }
    constexpr TimeRepresentation& operator/=(double m) noexcept { timecode_ = Tconv::convert(Tconv::toDouble(timecode_) / m); return *this; }

    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a, const TimeRepresentation& b) noexcept { return raw(a.timecode_ + b.timecode_); }
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a, const TimeRepresentation& b) noexcept { return raw(a.timecode_ - b.timecode_); }
    friend constexpr TimeRepresentation operator+(const TimeRepresentation& a, double b) noexcept { return raw(a.timecode_ + Tconv::convert(b)); }
    friend constexpr TimeRepresentation operator+(double a, const TimeRepresentation& b) noexcept { return raw(Tconv::convert(a) + b.timecode_); }
    friend constexpr TimeRepresentation operator-(const TimeRepresentation& a, double b) noexcept { return raw(a.timecode_ - Tconv::convert(b)); }
    friend constexpr TimeRepresentation operator-(double a, const TimeRepresentation& b) noexcept { return raw(Tconv::convert(a) - b.timecode_); }
    friend constexpr TimeRepresentation operator*(const TimeRepresentation& a, int m) noexcept { return raw(a.timecode_ * m); }
    friend constexpr TimeRepresentation operator*(const TimeRepresentation& a, double m) noexcept { return TimeRepresentation(static_cast<double>(a) * m); }
    friend constexpr TimeRepresentation operator*(int m, const TimeRepresentation& a) noexcept { return raw(a.timecode_ * m); }
    friend constexpr TimeRepresentation operator*(double m, const TimeRepresentation& a) noexcept { return TimeRepresentation(static_cast<double>(a) * m); }
    friend constexpr TimeRepresentation operator/(const TimeRepresentation& a, int m) noexcept { return raw(a.timecode_ / m); }
    friend constexpr TimeRepresentation operator/(const TimeRepresentation& a, double m) noexcept { return TimeRepresentation(static_cast<double>(a) / m); }
    friend constexpr double operator/(const TimeRepresentation& a, const TimeRepresentation& b) noexcept { return static_cast<double>(a) / static_cast<double>(b); }
    friend constexpr TimeRepresentation operator%(const TimeRepresentation& a, const TimeRepresentation& b) noexcept { return raw(a.timecode_ % b.timecode_); }
#define SHIM_TCMP(op)                                                                                                                        \
    friend constexpr bool operator op(const TimeRepresentation& a, const TimeRepresentation& b) noexcept { return a.timecode_ op b.timecode_; } \
    friend constexpr bool operator op(const TimeRepresentation& a, double b) noexcept { return a.timecode_ op Tconv::convert(b); }             \
    friend constexpr bool operator op(double a, const TimeRepresentation& b) noexcept { return Tconv::convert(a) op b.timecode_; }
    SHIM_TCMP(==)
    SHIM_TCMP(!=)
    SHIM_TCMP(<)
    SHIM_TCMP(>)
    SHIM_TCMP(<=)
    SHIM_TCMP(>=)
#undef SHIM_TCMP
    friend std::ostream& operator<<(std::ostream& os, const TimeRepresentation& t) { return os << static_cast<double>(t); }
};

namespace std {
template<class Tconv>
struct hash<TimeRepresentation<Tconv>> {
    size_t operator()(const TimeRepresentation<Tconv>& t) const noexcept { return std::hash<typename Tconv::baseType>{}(t.getBaseTimeCode()); }
};
}  // namespace std
