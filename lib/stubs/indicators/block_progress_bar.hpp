// Same interface as the real one, displays nothing.
#pragma once
#include <cstddef>
#include <iostream>
#include <string>
namespace indicators {
enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };
namespace option {
struct BarWidth { std::size_t v; };
struct Start { std::string v; };
struct End { std::string v; };
struct ForegroundColor { Color v; };
struct ShowPercentage { bool v; };
struct ShowElapsedTime { bool v; };
struct PrefixText { std::string v; };
struct PostfixText { std::string v; };
struct MaxProgress { std::size_t v; };
struct Stream { std::ostream& v; };
}
class BlockProgressBar {
public:
	static inline std::size_t ticks = 0, bars = 0, completed = 0;
	template<class... A> explicit BlockProgressBar(A&&...) { ++bars; }
	template<class O> void set_option(O const&) {}
	void set_progress(float) { ++ticks; }
	void mark_as_completed() { ++completed; }
};
}
