// The parser under test; MC_TRAIT selects a block width explicitly.
#pragma once
#include "ref.hpp"
#ifdef MC_TRAIT
template <typename T>
inline auto P(const T& t) { return json::parser<false, T, MC_TRAIT>::parse(t); }
template <typename T>
inline auto PC(const T& t) { return json::parser<true, T, MC_TRAIT>::parse(t); }
#else
template <typename T>
inline auto P(const T& t) { return json::parse(t); }
template <typename T>
inline auto PC(const T& t) { return json::parsec(t); }
#endif
