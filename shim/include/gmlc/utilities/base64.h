#pragma once
#include <cstddef>
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::utilities {
inline std::string base64_encode(const void* data, std::size_t len)
{
    static constexpr char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    const auto* d = static_cast<const unsigned char*>(data);
    std::string o;
    for (std::size_t i = 0; i < len; i += 3) {
        const unsigned b0 = d[i], b1 = (i + 1 < len) ? d[i + 1] : 0U, b2 = (i + 2 < len) ? d[i + 2] : 0U;
        o.push_back(T[b0 >> 2U]);
        o.push_back(T[((b0 & 3U) << 4U) | (b1 >> 4U)]);
        o.push_back((i + 1 < len) ? T[((b1 & 15U) << 2U) | (b2 >> 6U)] : '=');
        o.push_back((i + 2 < len) ? T[b2 & 63U] : '=');
    }
    return o;
}
inline std::string base64_encode(std::string_view s) { return base64_encode(s.data(), s.size()); }
inline std::string base64_decode_to_string(std::string_view s, std::size_t offset = 0)
{
    std::string o;
    unsigned acc = 0; int bits = 0;
    for (std::size_t i = offset; i < s.size(); ++i) {
        const char c = s[i];
        int v = -1;
        if (c >= 'A' && c <= 'Z') v = c - 'A';
        else if (c >= 'a' && c <= 'z') v = c - 'a' + 26;
        else if (c >= '0' && c <= '9') v = c - '0' + 52;
        else if (c == '+') v = 62;
        else if (c == '/') v = 63;
        else break;
        acc = (acc << 6U) | static_cast<unsigned>(v);
        bits += 6;
        if (bits >= 8) { bits -= 8; o.push_back(static_cast<char>((acc >> static_cast<unsigned>(bits)) & 0xFFU)); }
    }
    return o;
}
inline std::vector<unsigned char> base64_decode(std::string_view s, std::size_t offset = 0)
{
    auto r = base64_decode_to_string(s, offset);
    return {r.begin(), r.end()};
}
}  // namespace gmlc::utilities
