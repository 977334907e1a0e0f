// Force-included before the code under test when it is compiled with clang.
// clang rejects the default arguments "std::ostream stream = std::cout" (gcc never looks at them): std::cout is replaced
// by an object that swallows output and is declared convertible to std::ostream.
#pragma once
#include <iostream>
#include <algorithm>
#include <string>
#include <vector>
#include <cstring>
#include <stdexcept>
namespace std {
struct vf_cout_t {
    operator std::ostream() const; template <class T> const vf_cout_t &operator<<(const T &) const { return *this; }
    const vf_cout_t &operator<<(std::ostream &(*)(std::ostream &)) const { return *this; } const vf_cout_t &operator<<(std::ios_base &(*)(std::ios_base &)) const { return *this; }
    void flush() const {}
};
inline const vf_cout_t vf_cout{};
}
#define cout vf_cout
