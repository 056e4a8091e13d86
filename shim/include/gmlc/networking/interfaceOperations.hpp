// Stand-in for the (absent) GMLC-TDC/networking submodule: no interface enumeration, loopback only.
#pragma once
#include "addressOperations.hpp"
#include <vector>
namespace gmlc::networking {
inline std::string generateMatchingInterfaceAddress(const std::string& server,
                                                    InterfaceNetworks network = InterfaceNetworks::LOCAL)
{
    if (server.find("127.0.0.1") != std::string::npos || server.find("localhost") != std::string::npos) return "127.0.0.1";
    return network == InterfaceNetworks::LOCAL ? std::string("127.0.0.1") : std::string("0.0.0.0");
}
}  // namespace gmlc::networking
