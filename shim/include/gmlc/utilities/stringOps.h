// Stand-in for GMLC-TDC/utilities stringOps.h
#pragma once
#include <algorithm>
#include <cctype>
#include <string>
#include <string_view>
#include <vector>
#include <random>
#include <mutex>
namespace gmlc::utilities {
using stringVector = std::vector<std::string>;
inline void makeLowerCase(std::string& s) { for (auto& c : s) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c))); }
inline void makeUpperCase(std::string& s) { for (auto& c : s) c = static_cast<char>(std::toupper(static_cast<unsigned char>(c))); }
inline std::string convertToLowerCase(std::string_view v) { std::string s(v); makeLowerCase(s); return s; }
inline std::string convertToUpperCase(std::string_view v) { std::string s(v); makeUpperCase(s); return s; }
inline std::string randomString(std::string::size_type length)
{
    // deterministic generator: names only need to be distinct inside one process
    static std::mutex m;
    static std::mt19937_64 gen(0x9E3779B97F4A7C15ULL);
    static constexpr char chars[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
    std::lock_guard<std::mutex> l(m);
    std::string s(length, 'a');
    for (auto& c : s) c = chars[gen() % 62];
    return s;
}
namespace stringOps {
enum class delimiter_compression : bool { on = true, off = false };
inline constexpr std::string_view whiteSpaceCharacters{" \t\n\r\0\v\f", 7};
inline const std::string default_delim_chars(",;");
inline const std::string default_quote_chars("\'\"`");
inline const std::string default_bracket_chars("[{(<\'\"`");
inline void trimString(std::string& s, std::string_view ws = whiteSpaceCharacters)
{
    const auto b = s.find_first_not_of(ws);
    if (b == std::string::npos) { s.clear(); return; }
    const auto e = s.find_last_not_of(ws);
    s = s.substr(b, e - b + 1);
}
inline std::string trim(std::string_view v, std::string_view ws = whiteSpaceCharacters) { std::string s(v); trimString(s, ws); return s; }
inline stringVector splitline(std::string_view line, std::string_view delims = ",;", delimiter_compression compression = delimiter_compression::off)
{
    stringVector out;
    std::size_t start = 0;
    while (true) {
        auto p = line.find_first_of(delims, start);
        auto piece = line.substr(start, (p == std::string_view::npos) ? p : p - start);
        if (!(compression == delimiter_compression::on && piece.empty())) out.emplace_back(piece);
        if (p == std::string_view::npos) break;
        start = p + 1;
    }
    return out;
}
inline stringVector splitline(std::string_view line, char d) { return splitline(line, std::string_view(&d, 1)); }
inline char closingChar(char c)
{
    switch (c) { case '[': return ']'; case '{': return '}'; case '(': return ')'; case '<': return '>'; default: return c; }
}
inline stringVector splitlineBracket(std::string_view line, std::string_view delims, std::string_view brackets, delimiter_compression compression = delimiter_compression::off)
{
    stringVector out;
    std::string cur;
    std::string stack;
    auto flush = [&]() {
        if (!(compression == delimiter_compression::on && cur.empty())) { trimString(cur); out.push_back(cur); }
        cur.clear();
    };
    for (char c : line) {
        if (!stack.empty()) {
            cur.push_back(c);
            if (c == stack.back()) { stack.pop_back(); }
            else if (brackets.find(c) != std::string_view::npos && closingChar(stack.back()) != closingChar(c) && closingChar(c) != c) { stack.push_back(closingChar(c)); }
            continue;
        }
        if (delims.find(c) != std::string_view::npos) { flush(); continue; }
        if (brackets.find(c) != std::string_view::npos) stack.push_back(closingChar(c));
        cur.push_back(c);
    }
    flush();
    return out;
}
inline stringVector splitlineQuotes(std::string_view line, std::string_view delims = ",;", std::string_view quotes = "\'\"`", delimiter_compression compression = delimiter_compression::off)
{
    return splitlineBracket(line, delims, quotes, compression);
}
inline std::string removeQuotes(std::string_view v)
{
    std::string s = trim(v);
    if (s.size() >= 2 && (s.front() == '"' || s.front() == '\'' || s.front() == '`') && s.back() == s.front()) s = s.substr(1, s.size() - 2);
    return s;
}
inline std::string removeBrackets(std::string_view v)
{
    std::string s = trim(v);
    if (s.size() >= 2 && closingChar(s.front()) != s.front() && s.back() == closingChar(s.front())) s = s.substr(1, s.size() - 2);
    return s;
}
}  // namespace stringOps
}  // namespace gmlc::utilities
