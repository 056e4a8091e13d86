// Stand-in for the (absent) toml11 submodule: a small TOML value with the toml11 v2/v3 API subset HELICS uses.
#pragma once
#include <chrono>
#include <cstdint>
#include <istream>
#include <iterator>
#include <map>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace toml {
struct exception : public std::exception {
    std::string msg;
    explicit exception(std::string m): msg(std::move(m)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct syntax_error : public exception { using exception::exception; };
struct type_error : public exception { using exception::exception; };
enum class value_t : std::uint8_t { empty = 0, boolean = 1, integer = 2, floating = 3, string = 4, offset_datetime = 5, local_datetime = 6, local_date = 7, local_time = 8, array = 9, table = 10 };
class value;
using array = std::vector<value>;
using table = std::map<std::string, value>;
class value {
  public:
    value() = default;
    value(bool b): t_(value_t::boolean), b_(b) {}
    template<class I, std::enable_if_t<std::is_integral_v<I> && !std::is_same_v<I, bool>, int> = 0>
    value(I i): t_(value_t::integer), i_(static_cast<std::int64_t>(i)) {}
    value(double d): t_(value_t::floating), d_(d) {}
    value(std::string s): t_(value_t::string), s_(std::move(s)) {}
    value(std::string_view s): t_(value_t::string), s_(s) {}
    value(const char* s): t_(value_t::string), s_(s) {}
    value(array a): t_(value_t::array), a_(std::move(a)) {}
    value(table t): t_(value_t::table), m_(std::move(t)) {}
    value_t type() const { return t_; }
    bool is_empty() const { return t_ == value_t::empty; }
    bool is_uninitialized() const { return t_ == value_t::empty; }
    bool is_table() const { return t_ == value_t::table; }
    bool is_array() const { return t_ == value_t::array; }
    bool is_string() const { return t_ == value_t::string; }
    bool is_integer() const { return t_ == value_t::integer; }
    bool is_floating() const { return t_ == value_t::floating; }
    bool is_boolean() const { return t_ == value_t::boolean; }
    bool is_local_time() const { return t_ == value_t::local_time; }
    std::int64_t as_integer() const { need(value_t::integer); return i_; }
    std::int64_t as_integer(std::nothrow_t) const { return i_; }
    double as_floating() const { need(value_t::floating); return d_; }
    double as_floating(std::nothrow_t) const { return d_; }
    bool as_boolean() const { need(value_t::boolean); return b_; }
    const std::string& as_string() const { need(value_t::string); return s_; }
    const std::string& as_string(std::nothrow_t) const { return s_; }
    const array& as_array() const { need(value_t::array); return a_; }
    array& as_array() { need(value_t::array); return a_; }
    const table& as_table() const { need(value_t::table); return m_; }
    table& as_table() { need(value_t::table); return m_; }
    bool contains(const std::string& k) const { return t_ == value_t::table && m_.find(k) != m_.end(); }
    const value& at(const std::string& k) const
    {
        need(value_t::table);
        auto it = m_.find(k);
        if (it == m_.end()) throw std::out_of_range("toml key not found: " + k);
        return it->second;
    }
    value& at(const std::string& k) { return const_cast<value&>(static_cast<const value&>(*this).at(k)); }
    const value& at(std::size_t i) const { return as_array().at(i); }
    std::size_t size() const { return t_ == value_t::array ? a_.size() : (t_ == value_t::table ? m_.size() : s_.size()); }
    const value& operator[](std::size_t i) const { return as_array()[i]; }
    value& operator[](const std::string& k)
    {
        if (t_ == value_t::empty) t_ = value_t::table;
        need(value_t::table);
        return m_[k];
    }
  private:
    void need(value_t t) const { if (t != t_) throw type_error("toml: bad type access"); }
    value_t t_{value_t::empty};
    bool b_{false};
    std::int64_t i_{0};
    double d_{0};
    std::string s_;
    array a_;
    table m_;
};
inline std::ostream& operator<<(std::ostream& os, const value& v)
{
    switch (v.type()) {
        case value_t::boolean: return os << (v.as_boolean() ? "true" : "false");
        case value_t::integer: return os << v.as_integer();
        case value_t::floating: return os << v.as_floating();
        case value_t::string: return os << '"' << v.as_string() << '"';
        case value_t::array: {
            os << '[';
            bool f = true;
            for (auto& e : v.as_array()) { if (!f) os << ','; f = false; os << e; }
            return os << ']';
        }
        case value_t::table: {
            os << '{';
            bool f = true;
            for (auto& e : v.as_table()) { if (!f) os << ','; f = false; os << e.first << '=' << e.second; }
            return os << '}';
        }
        default: return os;
    }
}
namespace detail {
template<class T> bool is_a(const value& v)
{
    if constexpr (std::is_same_v<T, bool>) return v.is_boolean();
    else if constexpr (std::is_integral_v<T>) return v.is_integer();
    else if constexpr (std::is_floating_point_v<T>) return v.is_floating();
    else return v.is_string();
}
}  // namespace detail
template<class T> decltype(auto) get(const value& v)
{
    if constexpr (std::is_same_v<T, bool>) return v.as_boolean();
    else if constexpr (std::is_integral_v<T>) return static_cast<T>(v.as_integer());
    else if constexpr (std::is_floating_point_v<T>) return static_cast<T>(v.as_floating());
    else if constexpr (std::is_same_v<T, std::string>) return static_cast<const std::string&>(v.as_string());
    else return T{v.as_integer()};
}
template<> inline decltype(auto) get<std::chrono::nanoseconds>(const value& v) { return std::chrono::nanoseconds(v.as_integer()); }
inline const value& find(const value& v, const std::string& k) { return v.at(k); }
inline value& find(value& v, const std::string& k) { return v.at(k); }
// value default
inline const value& find_or(const value& v, const std::string& k, const value& def)
{
    return v.contains(k) ? v.at(k) : def;
}
template<class T> using find_or_ret = std::conditional_t<std::is_same_v<T, std::string>, const std::string&, T>;
template<class T, std::enable_if_t<!std::is_same_v<T, value>, int> = 0>
find_or_ret<T> find_or(const value& v, const std::string& k, const T& def)
{
    if (v.contains(k) && detail::is_a<T>(v.at(k))) return get<T>(v.at(k));
    return def;
}
namespace detail {
class parser {
    std::string s;
    std::size_t p{0};
    int depth{0};
  public:
    explicit parser(std::string in): s(std::move(in)) {}
    [[noreturn]] void err(const std::string& m) { throw syntax_error("toml syntax error: " + m + " at " + std::to_string(p)); }
    bool eof() const { return p >= s.size(); }
    char c() const { return p < s.size() ? s[p] : '\0'; }
    void ws() { while (c() == ' ' || c() == '\t') ++p; }
    void comment() { if (c() == '#') while (!eof() && c() != '\n') ++p; }
    void wsnl() { while (true) { ws(); comment(); if (c() == '\n' || c() == '\r') ++p; else break; if (eof()) break; } }
    std::string key1()
    {
        ws();
        if (c() == '"' || c() == '\'') return str();
        std::string k;
        while (isalnum(static_cast<unsigned char>(c())) || c() == '_' || c() == '-') k.push_back(s[p++]);
        if (k.empty()) err("empty key");
        ws();
        return k;
    }
    std::vector<std::string> key()
    {
        std::vector<std::string> r{key1()};
        ws();
        while (c() == '.') { ++p; r.push_back(key1()); ws(); }
        return r;
    }
    std::string str()
    {
        char q = c();
        std::string r;
        if (s.compare(p, 3, std::string(3, q)) == 0) {
            p += 3;
            if (c() == '\r') ++p;
            if (c() == '\n') ++p;
            while (s.compare(p, 3, std::string(3, q)) != 0) {
                if (eof()) err("unterminated string");
                if (q == '"' && c() == '\\') { ++p; esc(r); } else r.push_back(s[p++]);
            }
            p += 3;
            return r;
        }
        ++p;
        while (c() != q) {
            if (eof() || c() == '\n') err("unterminated string");
            if (q == '"' && c() == '\\') { ++p; esc(r); } else r.push_back(s[p++]);
        }
        ++p;
        return r;
    }
    void esc(std::string& r)
    {
        char e = c();
        ++p;
        switch (e) {
            case 'n': r.push_back('\n'); break;
            case 't': r.push_back('\t'); break;
            case 'r': r.push_back('\r'); break;
            case '"': r.push_back('"'); break;
            case '\\': r.push_back('\\'); break;
            case '\n': while (!eof() && isspace(static_cast<unsigned char>(c()))) ++p; break;
            default: err("bad escape");
        }
    }
    value val()
    {
        if (++depth > 100) err("too deep");
        value r = val0();
        --depth;
        return r;
    }
    value val0()
    {
        ws();
        if (c() == '"' || c() == '\'') return value(str());
        if (c() == '[') {
            ++p;
            array a;
            wsnl();
            while (c() != ']') {
                a.push_back(val());
                wsnl();
                if (c() == ',') { ++p; wsnl(); } else if (c() != ']') err("array");
            }
            ++p;
            return value(std::move(a));
        }
        if (c() == '{') {
            ++p;
            value t{table{}};
            wsnl();
            while (c() != '}') {
                auto k = key();
                if (c() != '=') err("expected =");
                ++p;
                put(t, k, val());
                wsnl();
                if (c() == ',') { ++p; wsnl(); } else if (c() != '}') err("inline table");
            }
            ++p;
            return t;
        }
        std::string tok;
        while (!eof() && std::string(",]} \t\r\n#").find(c()) == std::string::npos) tok.push_back(s[p++]);
        if (tok == "true") return value(true);
        if (tok == "false") return value(false);
        std::string n;
        for (char ch : tok) if (ch != '_') n.push_back(ch);
        if (n.empty()) err("value");
        if (n == "inf" || n == "+inf") return value(std::numeric_limits<double>::infinity());
        if (n == "-inf") return value(-std::numeric_limits<double>::infinity());
        try {
            std::size_t used = 0;
            if (n.find_first_of(".eE") == std::string::npos || n.compare(0, 2, "0x") == 0) {
                auto i = std::stoll(n, &used, 0);
                if (used == n.size()) return value(static_cast<std::int64_t>(i));
            } else {
                auto d = std::stod(n, &used);
                if (used == n.size()) return value(d);
            }
        }
        catch (const std::exception&) {
        }
        err("bad value '" + tok + "'");
    }
    static value* lastArr(value* v) { return v->is_array() ? &v->as_array().back() : v; }
    void put(value& t, const std::vector<std::string>& k, value v)
    {
        value* cur = &t;
        for (std::size_t i = 0; i + 1 < k.size(); ++i) {
            value& n = (*cur)[k[i]];
            if (n.is_empty()) n = value(table{});
            cur = lastArr(&n);
        }
        if (!cur->is_table()) err("not a table");
        if (cur->contains(k.back())) err("duplicate key " + k.back());
        (*cur)[k.back()] = std::move(v);
    }
    value parse()
    {
        value root{table{}};
        value* cur = &root;
        while (true) {
            wsnl();
            if (eof()) break;
            if (c() == '[') {
                ++p;
                bool arr = c() == '[';
                if (arr) ++p;
                auto k = key();
                if (c() != ']') err("expected ]");
                ++p;
                if (arr) { if (c() != ']') err("expected ]]"); ++p; }
                cur = &root;
                for (std::size_t i = 0; i < k.size(); ++i) {
                    if (!cur->is_table()) err("not a table");
                    value& n = (*cur)[k[i]];
                    if (i + 1 == k.size() && arr) {
                        if (n.is_empty()) n = value(array{});
                        if (!n.is_array()) err("not an array");
                        n.as_array().push_back(value(table{}));
                        cur = &n.as_array().back();
                    } else {
                        if (n.is_empty()) n = value(table{});
                        if (n.is_array() && n.as_array().empty()) err("empty array");
                        cur = lastArr(&n);
                    }
                }
            } else {
                auto k = key();
                if (c() != '=') err("expected =");
                ++p;
                put(*cur, k, val());
            }
            ws();
            comment();
            if (!eof() && c() != '\n' && c() != '\r') err("trailing characters");
        }
        return root;
    }
};
}  // namespace detail
inline value parse(std::istream& is, const std::string& = "")
{
    std::string s((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
    return detail::parser(std::move(s)).parse();
}
}  // namespace toml
