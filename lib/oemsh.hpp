// Helpers to drive openemsh's public API and to print its observable state.
#pragma once
#include <cmath>
#include <cstdio>
#include <fstream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "app/openemsh.hpp"
#include "domain/board.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/range.hpp"
#include "domain/geometrics/segment.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/logger.hpp"
#include "utils/state_management.hpp"

namespace oe {

using namespace domain;

inline std::string num(double v) { char b[40]; std::snprintf(b, sizeof b, "%.9g", v == 0 ? 0.0 : v); return b; }
inline std::string num(Coord const& v) { return num(v.value()); }

inline char const* name(MeshlinePolicy::Policy p) {
	switch(p) {
	case MeshlinePolicy::Policy::ONELINE: return "ONELINE";
	case MeshlinePolicy::Policy::HALFS: return "HALFS";
	case MeshlinePolicy::Policy::THIRDS: return "THIRDS";
	}
	return "?";
}
inline char const* name(MeshlinePolicy::Normal n) {
	switch(n) {
	case MeshlinePolicy::Normal::NONE: return "NONE";
	case MeshlinePolicy::Normal::MIN: return "MIN";
	case MeshlinePolicy::Normal::MAX: return "MAX";
	}
	return "?";
}
inline char const* name(Axis a) { return a == X ? "X" : a == Y ? "Y" : "Z"; }
inline char const* name(Plane p) { return p == YZ ? "YZ" : p == ZX ? "ZX" : "XY"; }

// ---- building from a description ---------------------------------------
struct Doc { // A CSX document.
	std::string props;      // <Properties> content
	std::string grid;       // <RectilinearGrid> content
	std::string oemsh;      // <OpenEMSH> element, if any
	std::string background; // <BackgroundMaterial .../>
	std::string csx_attr = "CoordSystem=\"0\"";
	std::string str() const {
		return "<?xml version=\"1.0\"?>\n" + oemsh
			+ "<openEMS>\n<FDTD/>\n<ContinuousStructure " + csx_attr + ">\n"
			+ "<RectilinearGrid>" + grid + "</RectilinearGrid>\n"
			+ background
			+ "<Properties>\n" + props + "</Properties>\n</ContinuousStructure>\n</openEMS>\n";
	}
};

inline void write_file(std::string const& path, std::string const& content) {
	std::ofstream f(path, std::ios::binary | std::ios::trunc);
	f << content;
}

inline std::string read_file(std::string const& path) {
	std::ifstream f(path, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}

inline void step(Board& b, int i) {
	switch(i) {
	case 0: b.adjust_edges_to_materials(); break;
	case 1: b.detect_diagonal_angles(); break;
	case 2: b.detect_diagonal_zones(); break;
	case 3: b.solve_diagonal_zones_angles(); break;
	case 4: b.detect_edges_in_polygons(); break;
	case 5: b.detect_colinear_edges(); break;
	case 6: b.add_fixed_meshline_policies(); break;
	case 7: b.auto_solve_all_edge_in_polygon(); break;
	case 8: b.auto_solve_all_colinear_edges(); break;
	case 9: b.detect_individual_edges(); break;
	case 10: b.detect_and_solve_too_close_meshline_policies(); break;
	case 11: b.detect_intervals(); break;
	case 12: b.detect_intervals_per_diagonal_zones(); break;
	case 13: b.solve_diagonal_zones_intervals(); break;
	case 14: b.mesh(); break;
	}
}
inline void run_all(Board& b) { for(int i = 0; i < 15; ++i) step(b, i); }
inline void fresh() { Caretaker::singleton().reset(); }

inline std::vector<double> lines(Board const& b, Axis a) {
	std::vector<double> v;
	for(auto const& l : b.get_meshlines(a)) v.push_back(l->coord.value());
	return v;
}

// ---- dumping ------------------------------------------------------------
struct Names {
	std::map<void const*, std::string> n;
	explicit Names(Board const& b) {
		for(auto p : AllPlane) {
			int i = 0;
			for(auto const& poly : b.get_polygons(p)) {
				std::string pn = std::string(name(p)) + std::to_string(i++);
				n[poly.get()] = pn;
				int k = 0;
				for(auto const& e : poly->edges) n[e.get()] = pn + "e" + std::to_string(k++);
			}
			i = 0;
			for(auto const& a : b.get_angles(p)) n[a.get()] = std::string(name(p)) + "a" + std::to_string(i++);
		}
	}
	std::string operator()(void const* p) const { auto it = n.find(p); return it == n.end() ? "?" : it->second; }
};

inline std::string pt(Point const& p) { return "(" + num(p.x) + "," + num(p.y) + ")"; }

inline std::string dump_policies(Board const& b, bool with_d = true) {
	std::string o;
	for(auto a : AllAxis)
		for(auto const& p : b.get_meshline_policies(a)) {
			auto const& s = p->get_current_state();
			o += std::string("policy ") + name(a) + " " + name(s.policy) + " " + name(s.normal) + " @" + num(p->coord)
				+ (s.is_enabled ? " on" : " off") + " conflicts=" + std::to_string(s.conflicts.size())
				+ " origins=" + std::to_string(s.origins.size())
				+ (with_d ? " d=" + num(s.d) : "") + "\n";
		}
	return o;
}

inline std::string dump_lines(Board const& b) {
	std::string o;
	for(auto a : AllAxis) {
		o += std::string("lines ") + name(a) + ":";
		for(auto v : lines(b, a)) o += " " + num(v);
		o += "\n";
	}
	return o;
}

// Everything a user can look at, in a canonical textual form.
inline std::string dump(Board const& b) {
	Names nm(b);
	std::string o;
	auto const& g = b.global_params->get_current_state();
	o += "params prox=" + num(g.proximity_limit) + " sm=" + num(g.smoothness) + " lmin=" + std::to_string(g.lmin) + " dmax=" + num(g.dmax)
		+ " dlmin=" + std::to_string(g.diagonal_lmin) + " ddmax=" + num(g.diagonal_dmax) + " angle=" + num(g.consecutive_diagonal_minimal_angle)
		+ " grid=" + std::to_string(g.has_grid_already) + "\n";
	for(auto p : AllPlane) {
		for(auto const& poly : b.get_polygons(p)) {
			o += "polygon " + nm(poly.get()) + " " + poly->name + " prio=" + std::to_string(poly->priority) + " conflicts=" + std::to_string(poly->get_current_state().conflicts.size()) + "\n";
			for(auto const& e : poly->edges) {
				auto const& s = e->get_current_state();
				o += " edge " + nm(e.get()) + " " + pt(e->p0()) + pt(e->p1()) + (s.to_mesh ? " mesh" : " nomesh") + (s.to_reverse ? " rev" : "")
					+ " conflicts=" + std::to_string(s.conflicts.size()) + (s.conflict ? " solution" : "") + (s.meshline_policy ? " policy" : "") + "\n";
			}
		}
		for(auto const& a : b.get_angles(p)) {
			auto const& s = a->get_current_state();
			o += "angle " + nm(a.get()) + " " + pt(a->p) + " " + nm(a->e0) + " " + nm(a->e1) + " deg=" + num(a->angle) + " mesh=" + std::to_string(s.to_mesh[H]) + std::to_string(s.to_mesh[V])
				+ (s.meshline_policy ? " policy" : "") + "\n";
		}
		for(auto const& c : b.get_conflicts_edge_in_polygons(p)) {
			auto const& s = c->get_current_state();
			o += "eip " + nm(c->edge) + (s.is_solved ? " solved" : "");
			for(auto const& ov : s.overlaps)
				o += " [" + nm(std::get<0>(ov)) + pt(std::get<1>(ov).p0()) + pt(std::get<1>(ov).p1()) + (std::get<2>(ov) ? nm(*std::get<2>(ov)) : std::string("-")) + "]";
			o += "\n";
		}
	}
	for(auto a : AllAxis) {
		for(auto const& c : b.get_conflicts_colinear_edges(a)) {
			auto const& s = c->get_current_state();
			o += std::string("ce ") + name(a) + (s.is_solved ? " solved" : "");
			for(auto* e : s.edges) o += " " + nm(e);
			o += "\n";
		}
		for(auto const& c : b.get_conflicts_too_close_meshline_policies(a)) {
			auto const& s = c->get_current_state();
			o += std::string("tcmlp ") + name(a) + (s.is_solved ? " solved" : "") + " " + num(c->meshline_policies[0]->coord) + " " + num(c->meshline_policies[1]->coord) + "\n";
		}
		for(auto const& c : b.get_conflicts_diagonal_or_circular_zones(a)) {
			auto const& s = c->get_current_state();
			o += std::string("docz ") + name(a) + " dmax=" + num(s.dmax) + " lmin=" + std::to_string(s.lmin) + " angles=";
			for(auto* x : s.angles) o += nm(x) + ",";
			o += " intervals=";
			for(auto* i : s.intervals) o += num(i->m) + ",";
			o += "\n";
		}
	}
	o += dump_policies(b);
	for(auto a : AllAxis)
		for(auto const& i : b.get_intervals(a)) {
			auto const& s = i->get_current_state();
			o += std::string("interval ") + name(a) + " " + num(s.before.meshline_policy->coord) + ".." + num(s.after.meshline_policy->coord) + " dmax=" + num(s.dmax)
				+ " sm=" + num(s.before.smoothness) + "," + num(s.after.smoothness) + " lmin=" + std::to_string(s.before.lmin) + "," + std::to_string(s.after.lmin)
				+ " ls=" + std::to_string(s.before.ls.size()) + "," + std::to_string(s.after.ls.size()) + " conflicts=" + std::to_string(s.conflicts.size()) + "\n";
		}
	o += dump_lines(b);
	return o;
}

// First differing line of two dumps.
inline std::string diff(std::string const& a, std::string const& b) {
	std::istringstream ia(a), ib(b);
	std::string la, lb;
	std::string out;
	int n = 0;
	while(true) {
		bool ra = (bool)std::getline(ia, la), rb = (bool)std::getline(ib, lb);
		if(!ra && !rb) break;
		if(!ra) la = "(end)";
		if(!rb) lb = "(end)";
		if(la != lb) { out += "  expected: " + la + "\n  observed: " + lb + "\n"; if(++n >= 6) break; }
		if(!ra || !rb) break;
	}
	return out;
}

inline std::string size_sig(std::string const& s) { return std::to_string(s.size()) + ":" + std::to_string(std::hash<std::string>{}(s)); }

} // namespace oe
