#pragma once
#include <string>
#include <type_traits>
template<typename T>
struct is_easily_hashable {
    static constexpr bool value = std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>;
};
template<>
struct is_easily_hashable<std::string> {
    static constexpr bool value = true;
};
