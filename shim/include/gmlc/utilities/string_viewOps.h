// Stand-in for GMLC-TDC/utilities string_viewOps.h
#pragma once
#include "stringOps.h"
namespace gmlc::utilities::string_viewOps {
using string_viewVector = std::vector<std::string_view>;
enum class delimiter_compression : bool { on = true, off = false };
inline constexpr std::string_view whiteSpaceCharacters{" \t\n\r\0\v\f", 7};
inline constexpr std::string_view default_delim_chars{",;"};
inline constexpr std::string_view default_quote_chars{"\'\"`"};
inline constexpr std::string_view default_bracket_chars{"[{(<\'\"`"};
inline std::string_view trim(std::string_view s, std::string_view ws = whiteSpaceCharacters)
{
    const auto b = s.find_first_not_of(ws);
    if (b == std::string_view::npos) return {};
    return s.substr(b, s.find_last_not_of(ws) - b + 1);
}
inline void trimString(std::string_view& s, std::string_view ws = whiteSpaceCharacters) { s = trim(s, ws); }
inline std::string_view merge(std::string_view a, std::string_view b)
{
    // both views are expected to come from the same string
    if (b.empty()) return a;
    if (a.empty()) return b;
    if (b.data() < a.data()) return {};
    return {a.data(), static_cast<std::size_t>(b.data() + b.size() - a.data())};
}
inline string_viewVector splitline(std::string_view line, std::string_view delims = ",;", delimiter_compression c = delimiter_compression::off)
{
    string_viewVector out;
    std::size_t start = 0;
    while (true) {
        auto p = line.find_first_of(delims, start);
        auto piece = line.substr(start, (p == std::string_view::npos) ? p : p - start);
        if (!(c == delimiter_compression::on && piece.empty())) out.push_back(piece);
        if (p == std::string_view::npos) break;
        start = p + 1;
    }
    return out;
}
inline string_viewVector splitline(std::string_view line, char d) { return splitline(line, std::string_view(&d, 1)); }
inline string_viewVector splitlineQuotes(std::string_view line, std::string_view delims = ",;", std::string_view quotes = "\'\"`", delimiter_compression comp = delimiter_compression::off)
{
    string_viewVector out;
    std::size_t start = 0;
    char q = 0;
    for (std::size_t i = 0; i <= line.size(); ++i) {
        const bool end = (i == line.size());
        if (!end && q != 0) { if (line[i] == q) q = 0; continue; }
        if (end || delims.find(line[i]) != std::string_view::npos) {
            auto piece = line.substr(start, i - start);
            if (!(comp == delimiter_compression::on && piece.empty())) out.push_back(trim(piece));
            start = i + 1;
            continue;
        }
        if (quotes.find(line[i]) != std::string_view::npos) q = line[i];
    }
    return out;
}
inline std::string_view removeQuotes(std::string_view s)
{
    s = trim(s);
    if (s.size() >= 2 && (s.front() == '"' || s.front() == '\'' || s.front() == '`') && s.back() == s.front()) s = s.substr(1, s.size() - 2);
    return s;
}
}  // namespace gmlc::utilities::string_viewOps
