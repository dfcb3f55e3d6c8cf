// G01..G03: geometric primitives against exact integer arithmetic, for every
// small polygon, point and pair of segments.
#include "mc.hpp"
#include "corpus.hpp"
#include "geom.hpp"

using namespace oe;
using std::string;
using std::vector;

namespace {

// Coordinates are c * scale + shift: exactly representable in the first maps, rounded in the others.
struct Map { double scale, shift; Point operator()(ex::P p) const { return { p.x * scale + shift, p.y * scale + shift }; } Point operator()(double x, double y) const { return { x * scale + shift, y * scale + shift }; } };
Map const maps[] = { { 1, 0 }, { 0.125, -0.25 }, { 512, 4096 }, { 0.1, 0.3 }, { 0.7, -13.3 }, { 0.01, 100.1 }, { 33.3, 0.1 } };

std::shared_ptr<Polygon> make(ex::Poly const& p, Map const& m, Plane plane) {
	vector<std::unique_ptr<Point const>> pts;
	for(auto q : p) pts.push_back(std::make_unique<Point const>(m(q)));
	return std::make_shared<Polygon>(plane, nullptr, "p", 1, Polygon::RangeZ(0, 1), std::move(pts), Caretaker::singleton().get_history_root());
}

template<class F> void polygons(int n, int grid, F&& f) { // every vertex sequence of n distinct grid points, first one the smallest
	vector<ex::P> g;
	for(int x = 0; x < grid; ++x) for(int y = 0; y < grid; ++y) g.push_back({ x, y });
	ex::Poly p;
	auto rec = [&](auto&& self, int first) -> bool {
		if((int)p.size() == n) return f(p);
		for(int i = first + 1; i < (int)g.size(); ++i) {
			if(std::find(p.begin(), p.end(), g[i]) != p.end()) continue;
			p.push_back(g[i]);
			if(!self(self, first)) return false;
			p.pop_back();
		}
		return true;
	};
	for(int i = 0; i < (int)g.size(); ++i) { p = { g[i] }; if(!rec(rec, i)) return; }
}

char const* name(relation::PolygonPoint r) { return r == relation::PolygonPoint::IN ? "IN" : r == relation::PolygonPoint::ON ? "ON" : "OUT"; }
char const* name(relation::SegmentSegment r) {
	switch(r) {
	case relation::SegmentSegment::APART: return "APART";
	case relation::SegmentSegment::CROSSING: return "CROSSING";
	case relation::SegmentSegment::COLINEAR: return "COLINEAR";
	case relation::SegmentSegment::OVERLAPPING: return "OVERLAPPING";
	}
	return "?";
}
char const* name(Normal n) {
	switch(n) {
	case Normal::XMIN: return "l"; case Normal::XMAX: return "r"; case Normal::YMIN: return "d"; case Normal::YMAX: return "u"; default: return "-";
	}
}

void g01(mc::Ctx& c, ex::Poly const& p0, int grid, Map m) {
	// Doubled: half-grid points are tested too, and points on lines through vertices, in and out.
	ex::Poly p;
	for(auto q : p0) p.push_back({ q.x * 2, q.y * 2 });
	m.scale /= 2;
	fresh();
	auto poly = make(p, m, AllPlane[c.seq / 3 % 3]);
	string sig;
	for(long x = -1; x <= grid * 2 - 1; ++x)
		for(long y = -1; y <= grid * 2 - 1; ++y) {
			auto want = ex::where(p, ex::P { x, y });
			auto got = poly->relation_to(m(ex::P { x, y }));
			++c.transitions;
			sig += name(got)[0];
			if(got != (want == ex::IN ? relation::PolygonPoint::IN : want == ex::ON ? relation::PolygonPoint::ON : relation::PolygonPoint::OUT))
				c.fail("point (" + std::to_string(x) + "/2," + std::to_string(y) + "/2) reported " + name(got));
		}
	c.outcome(sig);
}

void g03(mc::Ctx& c, ex::Poly const& p, Map const& m) {
	fresh();
	auto poly = make(p, m, AllPlane[c.seq / 3 % 3]);
	long area = ex::area2(p);
	string sig;
	auto want_rot = area > 0 ? Polygon::Rotation::CCW : area < 0 ? Polygon::Rotation::CW : Polygon::Rotation::COLINEAR;
	if(poly->rotation != want_rot) c.fail("wrong rotation");
	long x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
	for(auto q : p) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
	Point lo = m(ex::P { x0, y0 }), hi = m(ex::P { x1, y1 });
	if(poly->bounding[XMIN].value() != lo.x.value() || poly->bounding[XMAX].value() != hi.x.value() || poly->bounding[YMIN].value() != lo.y.value() || poly->bounding[YMAX].value() != hi.y.value()) c.fail("wrong bounding");
	size_t n = p.size();
	if(poly->edges.size() != n) c.fail("wrong number of edges");
	for(size_t i = 0; i < n; ++i) {
		// Edges in any order: looked up by their ends.
		ex::P a = p[i], b = p[(i + 1) % n];
		int found = 0;
		for(auto const& e : poly->edges) {
			if(!(e->p0() == m(a) && e->p1() == m(b))) continue;
			++found;
			string got = name(e->normal);
			sig += got;
			if(got[0] != ex::normal(a, b, area)) c.fail("edge " + pt(m(a)) + pt(m(b)) + " has normal " + got);
			auto want_axis = a == b ? Segment::Axis::POINT : a.x == b.x ? Segment::Axis::V : a.y == b.y ? Segment::Axis::H : Segment::Axis::DIAGONAL;
			if(e->axis != want_axis) c.fail("wrong edge axis");
		}
		if(found != 1) c.fail("edge " + pt(m(a)) + pt(m(b)) + " found " + std::to_string(found) + " times");
	}
	c.outcome(sig + std::to_string((int)poly->rotation));
}

void g02(mc::Ctx& c, ex::P a, ex::P b, ex::P d, ex::P e, Map const& m) {
	Range s(m(a), m(b)), t(m(d), m(e));
	auto want = ex::relation(a, b, d, e);
	auto got = s.relation_to(t);
	c.outcome(name(got));
	relation::SegmentSegment const w[] = { relation::SegmentSegment::APART, relation::SegmentSegment::CROSSING, relation::SegmentSegment::COLINEAR, relation::SegmentSegment::OVERLAPPING };
	if(got != w[want]) c.fail(string("relation reported as ") + name(got) + " instead of " + name(w[want]));
	for(ex::P q : { d, e }) if((s.relation_to(m(q)) == relation::SegmentPoint::ON) != ex::on_segment(a, b, q)) c.fail("wrong relation to an end point");
	auto near = [&](Point const& p, double x, double y) { Point q = m(x, y); return std::fabs(p.x.value() - q.x.value()) < 1e-7 * m.scale && std::fabs(p.y.value() - q.y.value()) < 1e-7 * m.scale; };
	if(want == ex::CROSSING) {
		double ux = b.x - a.x, uy = b.y - a.y, vx = e.x - d.x, vy = e.y - d.y, det = ux * vy - uy * vx;
		double k = ((d.x - a.x) * vy - (d.y - a.y) * vx) / det;
		auto p = intersection(s, t);
		if(!p) c.fail("no intersection");
		if(!near(*p, a.x + k * ux, a.y + k * uy)) c.fail("intersection at " + pt(*p));
		c.outcome(pt(*p));
	}
	if(want == ex::OVERLAPPING) {
		vector<std::pair<ex::P, int>> v { { std::min(a, b), 0 }, { std::max(a, b), 0 }, { std::min(d, e), 1 }, { std::max(d, e), 1 } };
		ex::P lo = std::max(v[0].first, v[2].first), hi = std::min(v[1].first, v[3].first); // along the line, order is lexicographic
		ex::P mlo = std::min(v[0].first, v[2].first), mhi = std::max(v[1].first, v[3].first);
		auto is = [&](std::optional<Range> const& r, ex::P x, ex::P y) {
			return r && ((near(r->p0(), x.x, x.y) && near(r->p1(), y.x, y.y)) || (near(r->p0(), y.x, y.y) && near(r->p1(), x.x, x.y)));
		};
		auto o = overlap(s, t);
		if(!is(o, lo, hi)) c.fail("overlap " + (o ? pt(o->p0()) + pt(o->p1()) : string("none")));
		auto u = merge(s, t);
		if(!is(u, mlo, mhi)) c.fail("merge " + (u ? pt(u->p0()) + pt(u->p1()) : string("none")));
	}
}

void body(mc::Ctx& c) {
	bool const th = c.thorough();
	if(c.prop == "G02") {
		int const g = th ? 5 : 4;
		for(int i = 0; i < g * g; ++i) for(int j = 0; j < g * g; ++j) for(int k = 0; k < g * g; ++k) for(int l = 0; l < g * g; ++l) {
			if(i == j || k == l) continue;
			ex::P a { i % g, i / g }, b { j % g, j / g }, d { k % g, k / g }, e { l % g, l / g };
			if(!c.take("segments")) { if(c.stop) return; continue; }
			auto where = [&](Map const& m) { c.describe("segments " + ex::str({ a, b }) + " and " + ex::str({ d, e }) + " coordinates * " + num(m.scale) + " + " + num(m.shift)); };
			c.run([&] { for(auto const& m : maps) { ++c.traces; ++c.transitions; ++c.nontrivial; where(m); g02(c, a, b, d, e, m); } });
		}
		return;
	}
	struct { int n, grid; } const q[] = { { 3, 5 }, { 4, 4 }, { 5, 3 }, { 6, 3 } };
	struct { int n, grid; } const t[] = { { 3, 5 }, { 4, 4 }, { 5, 3 }, { 6, 3 }, { 7, 3 }, { 5, 4 } };
	auto run = [&](int n, int grid) {
		polygons(n, grid, [&](ex::Poly const& p) {
			if(c.prop == "G01" && !ex::simple(p)) return true;
			if(!c.take(n == 3 ? "triangle" : n == 4 ? "quad" : "polygon")) return !c.stop;
			auto where = [&](Map const& m) { c.describe("polygon " + ex::str(p) + " coordinates * " + num(m.scale) + " + " + num(m.shift)); };
			c.run([&] { for(auto const& m : maps) { ++c.traces; ++c.nontrivial; where(m); if(c.prop == "G01") g01(c, p, grid, m); else { ++c.transitions; g03(c, p, m); } } });
			return !c.stop;
		});
	};
	if(th) for(auto x : t) run(x.n, x.grid); else for(auto x : q) run(x.n, x.grid);
	// Larger outlines, from every vertex, in both directions.
	auto large = [&](ex::Poly p, int grid, size_t step) {
		for(size_t r = 0; r < p.size(); r += step) for(int rev = 0; rev < 2; ++rev) {
			if(!c.take("large")) { if(c.stop) return false; continue; }
			ex::Poly q = p;
			std::rotate(q.begin(), q.begin() + r, q.end());
			if(rev) std::reverse(q.begin(), q.end());
			auto where = [&](Map const& m) { c.describe("polygon " + ex::str(q) + " coordinates * " + num(m.scale) + " + " + num(m.shift)); };
			c.run([&] { for(auto const& m : maps) { ++c.traces; ++c.nontrivial; where(m); if(c.prop == "G01") g01(c, q, grid, m); else { ++c.transitions; g03(c, q, m); } } });
		}
		return !c.stop;
	};
	bool const full = th || c.prop == "G03"; // Cheap.
	int const cols = th ? 6 : full ? 5 : 4;
	long ups = 1, downs = 1;
	for(int i = 0; i < cols; ++i) { ups *= 3; downs *= 2; }
	for(long u = 0; u < ups; ++u) for(long d = 0; d < downs; ++d) { // A profile above and another one below, along columns.
		ex::Poly p;
		bool const keep = (u + d) % 2; // Keep the aligned vertices.
		auto add = [&](ex::P q) {
			if(!p.empty() && p.back().x == q.x && p.back().y == q.y) return;
			size_t const n = p.size();
			if(!keep && n >= 2 && ((p[n - 2].x == p[n - 1].x && p[n - 1].x == q.x) || (p[n - 2].y == p[n - 1].y && p[n - 1].y == q.y))) p.back() = q;
			else p.push_back(q);
		};
		long v = d;
		for(int i = 0; i < cols; ++i, v /= 2) { add({ i, v % 2 }); add({ i + 1, v % 2 }); }
		vector<long> h;
		v = u;
		for(int i = 0; i < cols; ++i, v /= 3) h.push_back(2 + v % 3);
		for(int i = cols - 1; i >= 0; --i) { add({ i + 1, h[i] }); add({ i, h[i] }); }
		if(!large(p, cols + 1, full ? 1 : 3)) return;
	}
	ex::P const dirs[] = { { 2, 0 }, { 2, 1 }, { 1, 2 }, { 0, 2 }, { -1, 2 }, { -2, 1 }, { -2, 0 }, { -2, -1 }, { -1, -2 }, { 0, -2 }, { 1, -2 }, { 2, -1 } };
	for(int mask = 0; mask < 1 << 12; mask += full ? 1 : 5) { // Stars.
		ex::Poly p;
		for(int i = 0; i < 12; ++i) { long const k = mask >> i & 1 ? 2 : 1; p.push_back({ 4 + dirs[i].x * k, 4 + dirs[i].y * k }); }
		if(!ex::simple(p)) continue;
		if(!large(p, 9, full ? 1 : 5)) return;
	}
	if(c.prop == "G03") { // Flat ones (zero-thickness boxes).
		for(int x0 = 0; x0 < 3; ++x0) for(int x1 = 0; x1 < 3; ++x1) for(int y0 = 0; y0 < 3; ++y0) for(int y1 = 0; y1 < 3; ++y1) {
			if(x0 != x1 && y0 != y1) continue;
			if(x0 == x1 && y0 == y1) continue;
			if(!c.take("flat")) { if(c.stop) return; continue; }
			ex::Poly p { { x0, y0 }, { x0, y1 }, { x1, y1 }, { x1, y0 } };
			c.describe("flat " + ex::str(p));
			c.run([&] {
				fresh();
				auto poly = make(p, maps[0], XY);
				++c.traces; ++c.transitions;
				if(poly->rotation != Polygon::Rotation::COLINEAR) c.fail("a flat polygon is given a rotation");
				for(auto const& e : poly->edges) if(e->normal != Normal::NONE) c.fail("an edge of a flat polygon is given a normal");
			});
		}
	}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
