// CSX snippets and a corpus of small documents that reach every processing step.
#pragma once
#include "oemsh.hpp"
#include <array>

namespace oe {

inline std::string prop(std::string const& tag, std::string const& name, std::string const& prims, std::string const& inner = {}, std::string const& attr = {}) {
	return "<" + tag + " Name=\"" + name + "\"" + (attr.empty() ? "" : " " + attr) + ">\n" + inner + "<Primitives>\n" + prims + "</Primitives>\n</" + tag + ">\n";
}
inline std::string metal(std::string const& name, std::string const& prims) { return prop("Metal", name, prims); }
inline std::string dielectric(std::string const& name, std::string const& prims, double eps = 4) {
	return prop("Material", name, prims, "<Property Epsilon=\"" + num(eps) + "\"/>\n");
}
inline std::string port(std::string const& name, std::string const& prims) { return prop("LumpedElement", name, prims); }
inline std::string xyz(std::string const& tag, double x, double y, double z) {
	return "<" + tag + " X=\"" + num(x) + "\" Y=\"" + num(y) + "\" Z=\"" + num(z) + "\"/>";
}
inline std::string box(int prio, double x1, double y1, double z1, double x2, double y2, double z2) {
	return "<Box Priority=\"" + std::to_string(prio) + "\">" + xyz("P1", x1, y1, z1) + xyz("P2", x2, y2, z2) + "</Box>\n";
}
inline std::string vertices(std::vector<std::array<double, 2>> const& v) {
	std::string s;
	for(auto const& p : v) s += "<Vertex X1=\"" + num(p[0]) + "\" X2=\"" + num(p[1]) + "\"/>";
	return s;
}
inline std::string polygon(int prio, int normdir, double elevation, std::vector<std::array<double, 2>> const& v) {
	return "<Polygon Priority=\"" + std::to_string(prio) + "\" Elevation=\"" + num(elevation) + "\" NormDir=\"" + std::to_string(normdir) + "\">" + vertices(v) + "</Polygon>\n";
}
inline std::string linpoly(int prio, int normdir, double elevation, double length, std::vector<std::array<double, 2>> const& v) {
	return "<LinPoly Priority=\"" + std::to_string(prio) + "\" Elevation=\"" + num(elevation) + "\" Length=\"" + num(length) + "\" NormDir=\"" + std::to_string(normdir) + "\">" + vertices(v) + "</LinPoly>\n";
}
inline std::string point(double x, double y, double z) { return xyz("Point", x, y, z) + "\n"; }

struct Named { std::string name; Doc doc; };

// Every document is small, so that a complete run takes about a millisecond.
inline std::vector<Named> corpus() {
	std::vector<Named> c;
	auto add = [&](std::string const& n, std::string const& props, std::string const& grid = {}) -> Doc& {
		Doc d; d.props = props; d.grid = grid; c.push_back({ n, d }); return c.back().doc;
	};
	add("empty", "");
	add("box", metal("m", box(1, 0, 0, 0, 20, 10, 6)));
	add("overlap", metal("m", box(1, 0, 0, 0, 20, 10, 6) + box(1, 5, 5, 2, 30, 20, 9)) + dielectric("d", box(0, -5, -5, -5, 40, 30, 0)));
	add("inside", metal("m", box(1, 4, 4, 2, 12, 8, 5)) + dielectric("d", box(2, 0, 0, 0, 20, 20, 10)));
	add("close", metal("m", box(1, 0, 0, 0, 10, 10, 5) + box(1, 10.5, 0, 0, 20, 10, 5) + box(1, 0, 10.8, 5.3, 20, 20, 9)));
	add("fixed", metal("m", box(1, 0, 0, 0, 20, 10, 6) + point(5, 5, 5) + point(5, 2, 1) + point(7.5, 5, 3)));
	add("polygon", metal("m", polygon(1, 2, 3, { { 0, 0 }, { 12, 0 }, { 12, 8 }, { 0, 8 } }) + polygon(1, 0, 2, { { 0, 0 }, { 6, 0 }, { 6, 9 }, { 0, 9 } })));
	add("diagonal", metal("m", linpoly(1, 2, 0, 3, { { 0, 0 }, { 10, 0 }, { 6, 6 }, { 0, 6 } })));
	add("cross", metal("m", linpoly(1, 2, 0, 3, { { 0, 0 }, { 8, 4 }, { 0, 8 } }) + box(1, 2, -2, 0, 5, 12, 3)));
	add("reversed", dielectric("d", box(1, 2, 2, 2, 8, 8, 8)) + metal("m", box(0, 0, 0, 0, 20, 10, 10))).background = "<BackgroundMaterial Epsilon=\"2\"/>\n";
	return c;
}

} // namespace oe
