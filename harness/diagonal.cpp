// D01: slanted edges get a fine mesh over their whole extent, against a
// reference computed with exact integer geometry.
#include "mc.hpp"
#include "corpus.hpp"
#include "geom.hpp"
#include <array>
#include <cmath>
#include <numbers>

using namespace oe;
using std::string;
using std::vector;
using T = Material::Type;

namespace {

struct Shape { ex::Poly p; Plane plane; };
struct Settings { double dmax, diag, prox, angle; size_t lmin; };
struct Zone { double a, b; double dmax; double angle; };
struct Spot { double x; bool must, may; };

double scale = 1, shift = 0;
double val(double x) { return x * scale + shift; }
bool same(double a, double b) { return std::fabs(a - b) < 1e-6 * scale; }
double deviation(ex::P a, ex::P b, ex::P c, ex::P d) { // between directions a->b and c->d, degrees
	double ux = b.x - a.x, uy = b.y - a.y, vx = d.x - c.x, vy = d.y - c.y;
	return std::atan2(std::fabs(ux * vy - uy * vx), ux * vx + uy * vy) * 180 / std::numbers::pi;
}
bool slanted(ex::P a, ex::P b) { return a.x != b.x && a.y != b.y; }

string text(vector<Shape> const& s, Settings const& q) {
	string o = "dmax " + num(q.dmax) + " diagonal dmax " + num(q.diag) + " proximity " + num(q.prox) + " minimal angle " + num(q.angle) + " scale " + num(scale);
	for(auto const& x : s) o += string("\n ") + name(x.plane) + " " + ex::str(x.p);
	return o;
}

// Zones of a plane along an axis: connected extents of slanted edges.
vector<Zone> zones(vector<Shape> const& s, Plane plane, bool vert, Settings const& q) {
	vector<Zone> v;
	for(auto const& x : s) if(x.plane == plane) for(size_t k = 0, n = x.p.size(); k < n; ++k) {
		ex::P a = x.p[k], b = x.p[(k + 1) % n];
		if(!slanted(a, b)) continue;
		double u = vert ? a.y : a.x, w = vert ? b.y : b.x;
		v.push_back({ std::min(u, w), std::max(u, w), q.diag, q.angle });
	}
	std::sort(v.begin(), v.end(), [](Zone const& a, Zone const& b) { return a.a < b.a; });
	vector<Zone> out;
	for(auto const& z : v)
		if(!out.empty() && z.a <= out.back().b) out.back().b = std::max(out.back().b, z.b);
		else out.push_back(z);
	return out;
}

void check(mc::Ctx& c, vector<Shape> const& s, Settings const& q, bool edit) {
	double const maps[][2] = { { 1, 0 }, { 3, -5 }, { 0.7, 0.1 } };
	auto const& m = maps[(c.seq * 40503u >> 8) % 3];
	scale = m[0]; shift = m[1];
	c.describe(text(s, q) + (edit ? "\n the first zone is edited" : ""));
	c.run([&] {
		fresh();
		Board::Builder bd;
		auto mat = std::make_shared<Material>(T::CONDUCTOR, "m");
		std::map<Plane, int> layer;
		for(auto const& x : s) {
			vector<std::unique_ptr<Point const>> pts;
			for(auto p : x.p) pts.push_back(std::make_unique<Point const>(val(p.x), val(p.y)));
			int z = 10 * layer[x.plane]++; // Nothing covers anything.
			bd.add_polygon(x.plane, mat, "s", 1, Polygon::RangeZ(z, z + 1), std::move(pts));
		}
		domain::Params p;
		p.dmax = q.dmax; p.diagonal_dmax = q.diag; p.proximity_limit = q.prox; p.consecutive_diagonal_minimal_angle = q.angle; p.lmin = q.lmin;
		auto board = bd.build(std::move(p));
		for(int i = 0; i < 3; ++i) step(*board, i);
		++c.traces; c.transitions += 15;

		// Every angle with a slanted side, once.
		std::map<Axis, vector<Zone>> all;
		std::map<Axis, vector<Spot>> spots;
		Axis edited_axis = X; double edited_a = 0; bool has_edited = false;
		if(edit) for(auto a : AllAxis) if(auto const& zs = board->get_conflicts_diagonal_or_circular_zones(a); !has_edited && !zs.empty()) {
			has_edited = true;
			edited_axis = a;
			auto st = zs[0]->get_current_state();
			st.minimal_angle = 100;
			st.dmax = q.diag * 2;
			zs[0]->set_next_state(st);
			edited_a = zs[0]->bounding()[0].value();
		}
		size_t slants = 0;
		for(auto plane : AllPlane) {
			struct At { double x, y; size_t n = 0; };
			vector<At> want, got;
			auto add = [](vector<At>& v, double x, double y) {
				for(auto& a : v) if(same(a.x, x) && same(a.y, y)) { ++a.n; return; }
				v.push_back({ x, y, 1 });
			};
			for(int vert = 0; vert < 2; ++vert) {
				Axis axis = Axes[plane][vert ? V : H];
				auto zs = zones(s, plane, vert, q);
				slants += zs.size();
				for(auto& z : zs) {
					if(has_edited && axis == edited_axis && same(val(z.a), edited_a)) { z.dmax = q.diag * 2; z.angle = 100; has_edited = false; }
					spots[axis].push_back({ val(z.a), true, true });
					spots[axis].push_back({ val(z.b), true, true });
				}
				auto limit = [&](double x) { for(auto const& z : zs) if(x >= z.a - 1e-9 && x <= z.b + 1e-9) return z.angle; return q.angle; };
				for(size_t i = 0; i < s.size(); ++i) if(s[i].plane == plane) for(size_t k = 0, n = s[i].p.size(); k < n; ++k) {
					ex::P a = s[i].p[k], b = s[i].p[(k + 1) % n], d = s[i].p[(k + 2) % n];
					double const u = vert ? b.y : b.x;
					if(slanted(a, b) || slanted(b, d)) {
						double dev = deviation(a, b, b, d);
						bool inner = true;
						for(auto const& z : zs) if(z.a == u || z.b == u) inner = false;
						if(!inner) spots[axis].push_back({ val(u), false, true });
						else spots[axis].push_back({ val(u), dev >= limit(u) + 1e-6, dev >= limit(u) - 1e-6 });
						if(!vert) add(want, val(b.x), val(b.y));
					} else {
						spots[axis].push_back({ val(u), false, true });
					}
					if(!slanted(a, b)) { spots[axis].push_back({ val(u), false, true }); spots[axis].push_back({ val(vert ? a.y : a.x), false, true }); }
					// Crossings.
					for(size_t j = i + 1; j < s.size(); ++j) if(s[j].plane == plane) for(size_t l = 0, o = s[j].p.size(); l < o; ++l) {
						ex::P e = s[j].p[l], f = s[j].p[(l + 1) % o];
						if(!slanted(a, b) && !slanted(e, f)) continue;
						double ux = b.x - a.x, uy = b.y - a.y, vx = f.x - e.x, vy = f.y - e.y, det = ux * vy - uy * vx;
						if(det == 0) continue;
						if(ex::relation(a, b, e, f) != ex::CROSSING) continue;
						double t = ((e.x - a.x) * vy - (e.y - a.y) * vx) / det;
						double px = a.x + t * ux, py = a.y + t * uy, w = vert ? py : px;
						bool proper = ex::orient(a, b, e) && ex::orient(a, b, f) && ex::orient(e, f, a) && ex::orient(e, f, b);
						double dev = deviation(a, b, e, f), hi = std::max(dev, 180 - dev), lo = std::min(dev, 180 - dev);
						spots[axis].push_back({ val(w), proper && lo >= limit(w) + 1e-6, hi >= limit(w) - 1e-6 });
						if(proper && !vert) add(want, val(px), val(py));
					}
				}
				for(auto const& z : zs) all[axis].push_back(z);
			}
			for(auto const& a : board->get_angles(plane)) add(got, a->p.x.value(), a->p.y.value());
			for(auto const& w : want) {
				bool found = false;
				for(auto const& g : got) if(same(w.x, g.x) && same(w.y, g.y)) { found = true; if(g.n < w.n) c.fail("an angle is missing at (" + num(w.x) + "," + num(w.y) + ")"); }
				if(!found) c.fail("no angle at (" + num(w.x) + "," + num(w.y) + ")");
			}
		}
		if(slants) ++c.nontrivial;
		for(int i = 3; i < 10; ++i) step(*board, i);
		string sig;
		for(auto a : AllAxis) {
			vector<double> on;
			for(auto const& x : board->get_meshline_policies(a)) if(x->get_current_state().is_enabled) on.push_back(x->coord.value());
			for(auto const& w : spots[a]) if(w.must) {
				bool found = false;
				for(double x : on) found |= same(x, w.x);
				if(!found) c.fail(string("nothing is meshed at ") + name(a) + " " + num(w.x) + ", an end or a sharp angle of a slanted zone");
			}
			for(double x : on) {
				bool found = false;
				for(auto const& w : spots[a]) found |= w.may && same(x, w.x);
				if(!found) c.fail(string("a policy is enabled at ") + name(a) + " " + num(x) + ", where there is neither an edge nor a sharp angle");
				sig += num(x) + " ";
			}
		}
		for(int i = 10; i < 14; ++i) step(*board, i);
		// Each zone knows exactly the intervals whose middle it contains, and they know it.
		for(auto a : AllAxis) for(auto const& z : board->get_conflicts_diagonal_or_circular_zones(a)) {
			auto const& in = z->get_current_state().intervals;
			double const lo = z->bounding()[0].value(), hi = z->bounding()[1].value();
			for(auto const& i : board->get_intervals(a)) {
				double const mid = i->m.value();
				if(same(mid, lo) || same(mid, hi)) continue;
				auto const& cs = i->get_current_state().conflicts;
				bool const want = mid > lo && mid < hi, has = std::find(in.begin(), in.end(), i.get()) != in.end(), knows = std::find(cs.begin(), cs.end(), z.get()) != cs.end();
				if(has != want || knows != want) c.fail(string("the interval around ") + name(a) + " " + num(mid) + (want ? " is not linked with" : " is linked with") + " the slanted zone " + num(lo) + ".." + num(hi));
			}
		}
		std::map<Interval const*, double> dmax; // Meshing may reduce it.
		for(auto a : AllAxis) for(auto const& i : board->get_intervals(a)) dmax[i.get()] = i->get_current_state().dmax;
		step(*board, 14);
		for(auto a : AllAxis) {
			auto const l = lines(*board, a);
			for(auto const& i : board->get_intervals(a)) {
				double const mid = i->m.value();
				double const lo = i->get_current_state().before.meshline_policy->coord.value();
				double const hi = i->get_current_state().after.meshline_policy->coord.value();
				if(lo > hi) c.fail("interval upside down");
				bool edge = false;
				vector<double> d;
				for(auto const& z : all[a]) {
					if(same(val(z.a), mid) || same(val(z.b), mid)) edge = true;
					else if(mid > val(z.a) && mid < val(z.b)) d.push_back(z.dmax);
				}
				if(edge) continue;
				double const got = dmax[i.get()];
				if(d.empty() ? !(got == q.dmax) : std::find(d.begin(), d.end(), got) == d.end())
					c.fail(string("interval ") + name(a) + " " + num(lo) + ".." + num(hi) + " has dmax " + num(got) + (d.empty() ? " outside of slanted zones" : " inside a slanted zone"));
				for(size_t k = 0; k + 1 < l.size(); ++k)
					if(l[k] >= lo - 1e-9 && l[k + 1] <= hi + 1e-9 && l[k + 1] - l[k] > got + 1e-6) c.fail(string("cell ") + name(a) + " " + num(l[k]) + ".." + num(l[k + 1]) + " is larger than " + num(got));
				sig += num(got) + (d.empty() ? "-" : "z");
			}
			sig += std::to_string(l.size()) + ";";
		}
		c.outcome(sig);
	});
}

template<class F> void polygons(long n, size_t size, F const& f) { // Every simple polygon of the grid that has a slanted edge, starting from its lowest vertex.
	vector<ex::P> g;
	for(long x = 0; x <= n; ++x) for(long y = 0; y <= n; ++y) g.push_back({ x, y });
	vector<size_t> idx(size, 0);
	ex::Poly p(size);
	auto rec = [&](auto& self, size_t k) -> bool {
		if(k == size) {
			bool sl = false;
			for(size_t i = 0; i < size; ++i) sl |= slanted(p[i], p[(i + 1) % size]);
			return !sl || !ex::simple(p) || f(p);
		}
		for(size_t i = k ? idx[0] + 1 : 0; i < g.size(); ++i) { idx[k] = i; p[k] = g[i]; if(!self(self, k + 1)) return false; }
		return true;
	};
	rec(rec, 0);
}

void body(mc::Ctx& c) {
	bool const th = c.thorough();
	vector<Settings> const sets { { 1.5, 0.3, 0.05, 20, 2 }, { 2.5, 0.4, 1, 50, 2 }, { 0.8, 0.35, 0.2, 100, 1 }, { 2.5, 0.9, 0.3, 0, 2 }, { 1, 0.5, 0.6, 181, 0 } };
	size_t idx = 0;
	// A polygon alone.
	for(size_t size = 3; size <= 5; ++size) polygons(size == 5 ? 2 : 3, size, [&](ex::Poly const& p) {
		for(size_t k = 0; k < sets.size(); ++k) for(int edit = 0; edit < 2; ++edit) {
			if(!th && size >= 4 && idx++ % 7) continue;
			if(!c.take("one")) { if(c.stop) return false; continue; }
			check(c, { { p, AllPlane[c.seq % 3] } }, sets[k], edit);
		}
		return true;
	});
	// Two shapes on the same plane, that may cross, or on two planes that share an axis.
	vector<ex::Poly> const shapes {
		{ { 0, 0 }, { 8, 0 }, { 0, 8 } }, { { 0, 0 }, { 8, 6 }, { 0, 6 } }, { { 4, 0 }, { 8, 4 }, { 4, 8 }, { 0, 4 } }, { { 0, 0 }, { 6, 0 }, { 4, 6 }, { 2, 6 } },
		{ { 0, 0 }, { 6, 0 }, { 6, 6 }, { 2, 2 } }, { { 0, 0 }, { 6, 0 }, { 6, 4 }, { 0, 4 } }, { { 0, 0 }, { 2, 0 }, { 8, 3 }, { 14, 3 }, { 20, 6 }, { 20, 8 }, { 0, 8 } },
		{ { 2, 0 }, { 4, 0 }, { 6, 2 }, { 6, 4 }, { 4, 6 }, { 2, 6 }, { 0, 4 }, { 0, 2 } }, { { 0, 0 }, { 6, 2 } }, { { 0, 0 }, { 0, 6 }, { 3, 1 } },
	};
	auto turned = [](ex::Poly p, int k) { if(k & 1) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + (k >> 1) % p.size(), p.end()); return p; };
	auto moved = [](ex::Poly p, long dx, long dy) { for(auto& q : p) { q.x += dx; q.y += dy; } return p; };
	for(size_t i = 0; i < shapes.size(); ++i) for(size_t j = 0; j < shapes.size(); ++j) for(long dx = -9; dx <= 21; dx += th ? 1 : 3) for(long dy = -9; dy <= 9; dy += th ? 1 : 3) for(int other = 0; other < 3; ++other) {
		size_t const k = idx++ % sets.size();
		if(!c.take("two")) { if(c.stop) return; continue; }
		int const plane = (int)(c.seq % 3), t = (int)(c.seq * 2654435761u >> 20) % 16;
		check(c, { { turned(shapes[i], t), AllPlane[plane] }, { moved(turned(shapes[j], t / 2), dx, dy), AllPlane[(plane + other) % 3] } }, sets[k], idx / 5 % 4 == 0);
	}
	// Three.
	for(size_t i = 0; i < shapes.size(); ++i) for(size_t j = 0; j < shapes.size(); ++j) for(size_t l = 0; l < shapes.size(); ++l) for(long dx = -3; dx <= 5; dx += th ? 1 : 4) for(long dy = -2; dy <= 3; dy += th ? 1 : 5) for(int other = 0; other < 2; ++other) {
		size_t const k = idx++ % sets.size();
		if(!th && idx % 3) continue;
		if(!c.take("three")) { if(c.stop) return; continue; }
		int const plane = (int)(c.seq % 3);
		check(c, { { shapes[i], AllPlane[plane] }, { moved(shapes[j], dx, dy), AllPlane[plane] }, { moved(shapes[l], -dy, dx), AllPlane[(plane + other) % 3] } }, sets[k], false);
	}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
