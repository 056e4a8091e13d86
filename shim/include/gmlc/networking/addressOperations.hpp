// Stand-in for the (absent) GMLC-TDC/networking submodule: address string helpers.
#pragma once
#include <optional>
#include <string>
#include <string_view>
#include <utility>
namespace gmlc::networking {
enum class InterfaceTypes : char { TCP = 0, UDP = 1, IP = 2, IPC = 3, INPROC = 4 };
enum class InterfaceNetworks : char { LOCAL = 0, IPV4 = 4, IPV6 = 6, ALL = 10 };
namespace shim_detail {
inline std::optional<int> toPort(std::string_view s)
{
    if (s.empty()) return std::nullopt;
    if (s == "*") return -1;
    int v = 0;
    for (char c : s) {
        if (c < '0' || c > '9') return std::nullopt;
        v = v * 10 + (c - '0');
        if (v > 1000000) return std::nullopt;
    }
    return v;
}
}  // namespace shim_detail
inline std::string makePortAddress(std::string_view networkInterface, int portNumber)
{
    std::string r(networkInterface);
    if (portNumber >= 0) {
        r.push_back(':');
        r.append(std::to_string(portNumber));
    }
    return r;
}
inline std::string stripProtocol(std::string_view a)
{
    auto loc = a.find("://");
    return std::string(loc == std::string_view::npos ? a : a.substr(loc + 3));
}
inline void removeProtocol(std::string& a)
{
    a = stripProtocol(a);
}
inline std::string addProtocol(std::string_view networkAddress, InterfaceTypes interfaceT)
{
    if (networkAddress.find("://") != std::string_view::npos) return std::string(networkAddress);
    const char* p = "tcp://";
    switch (interfaceT) {
        case InterfaceTypes::TCP: case InterfaceTypes::IP: p = "tcp://"; break;
        case InterfaceTypes::UDP: p = "udp://"; break;
        case InterfaceTypes::IPC: p = "ipc://"; break;
        case InterfaceTypes::INPROC: p = "inproc://"; break;
    }
    return std::string(p) + std::string(networkAddress);
}
inline void insertProtocol(std::string& networkAddress, InterfaceTypes interfaceT)
{
    networkAddress = addProtocol(networkAddress, interfaceT);
}
inline std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto lastColon = address.find_last_of(':');
    if (lastColon == std::string_view::npos) return {std::string(address), std::nullopt};
    if (address.size() > lastColon + 1 && address[lastColon + 1] == '/') {
        return {std::string(address), std::nullopt};
    }
    std::string host;
    if (address.find("[") == std::string_view::npos && false) {}
    auto tail = address.substr(lastColon + 1);
    auto slash = tail.find('/');
    auto port = shim_detail::toPort(slash == std::string_view::npos ? tail : tail.substr(0, slash));
    host = std::string(address.substr(0, lastColon));
    return {host, port};
}
inline std::pair<std::string, std::string> extractInterfaceAndPortString(std::string_view address)
{
    auto lastColon = address.find_last_of(':');
    if (lastColon == std::string_view::npos || (address.size() > lastColon + 1 && address[lastColon + 1] == '/')) {
        return {std::string(address), std::string()};
    }
    return {std::string(address.substr(0, lastColon)), std::string(address.substr(lastColon + 1))};
}
inline bool isipv6(std::string_view address)
{
    auto cnt = 0;
    for (char c : address) cnt += (c == ':');
    return cnt > 2 || address.find("::") != std::string_view::npos;
}
}  // namespace gmlc::networking
