// Stand-in of the header that cmake writes from version.hpp.in.
#pragma once
#include <string_view>
namespace qugar {
constexpr std::string_view QUGAR_VERSION_STRING{ "0.0.0" };
constexpr std::string_view QUGAR_VERSION_GIT{ "0" };
}// namespace qugar
