// E01..E04: which edges are meshed, and by which policies, against a reference
// computed with exact integer geometry, for every small arrangement of shapes
// on a plane. E03 and E04 use rectangles.
#include "mc.hpp"
#include "corpus.hpp"
#include "geom.hpp"
#include <array>

using namespace oe;
using std::string;
using std::vector;
using P = MeshlinePolicy::Policy;
using N = MeshlinePolicy::Normal;
using T = Material::Type;

namespace {

struct Shape { ex::Poly p; long prio; long z0, z1; T type; };
char const* tname(T t) { return t == T::PORT ? "PORT" : t == T::CONDUCTOR ? "CONDUCTOR" : t == T::DIELECTRIC ? "DIELECTRIC" : "AIR"; }
int rank(T t) { return t == T::PORT ? 3 : t == T::CONDUCTOR ? 2 : t == T::DIELECTRIC ? 1 : 0; }

struct RefEdge { ex::P a, b; char normal; bool to_mesh = true, reversed = false; int shape; };

vector<RefEdge> reference(vector<Shape> const& s, std::optional<T> background) {
	vector<RefEdge> out;
	for(int i = 0; i < (int)s.size(); ++i) {
		long area = ex::area2(s[i].p);
		for(size_t k = 0, n = s[i].p.size(); k < n; ++k) {
			RefEdge e { s[i].p[k], s[i].p[(k + 1) % n], 0, true, false, i };
			e.normal = ex::normal(e.a, e.b, area);
			if(!(e.a == e.b)) {
				// Left out: every point of it is covered.
				vector<int> others;
				for(int j = 0; j < (int)s.size(); ++j)
					if(j != i && s[j].prio >= s[i].prio && std::min(s[i].z1, s[j].z1) >= std::max(s[i].z0, s[j].z0)) others.push_back(j);
				vector<ex::Frac> t { { 0, 1 }, { 1, 1 } };
				for(int j : others) for(size_t l = 0, m = s[j].p.size(); l < m; ++l) if(!(s[j].p[l] == s[j].p[(l + 1) % m])) ex::cuts(e.a, e.b, s[j].p[l], s[j].p[(l + 1) % m], t);
				std::sort(t.begin(), t.end());
				t.erase(std::unique(t.begin(), t.end()), t.end());
				bool all = !others.empty();
				for(size_t l = 0; all && l + 1 < t.size(); ++l) {
					ex::H p = ex::at_mid(e.a, e.b, t[l], t[l + 1]);
					bool covered = false;
					for(int j : others) {
						long aj = ex::area2(s[j].p);
						if(aj && ex::where(s[j].p, p) == ex::IN) covered = true;
						for(size_t q = 0, m = s[j].p.size(); q < m; ++q) {
							ex::P c = s[j].p[q], d = s[j].p[(q + 1) % m];
							if(c == d || !ex::on_segment(c, d, p)) continue;
							if((__int128)(e.b.x - e.a.x) * (d.y - c.y) != (__int128)(e.b.y - e.a.y) * (d.x - c.x)) continue;
							if(ex::normal(c, d, aj) != e.normal) covered = true;
						}
					}
					all = covered;
				}
				e.to_mesh = !all;
				// Belongs to a better conductor, that its outer side touches?
				if(e.normal != '-') {
					std::optional<T> amb = background;
					long amb_prio = -1;
					for(int j = 0; j < (int)s.size(); ++j) {
						if(j == i || std::min(s[i].z1, s[j].z1) < std::max(s[i].z0, s[j].z0)) continue;
						long x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
						for(auto q : s[j].p) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); }
						long ex0 = std::min(e.a.x, e.b.x), ex1 = std::max(e.a.x, e.b.x), ey0 = std::min(e.a.y, e.b.y), ey1 = std::max(e.a.y, e.b.y);
						bool tx = std::min(x1, ex1) >= std::max(x0, ex0), ty = std::min(y1, ey1) >= std::max(y0, ey0);
						bool touch = e.normal == 'l' ? ty && x0 < ex0 && x1 >= ex0 : e.normal == 'r' ? ty && x0 <= ex0 && x1 > ex0
							: e.normal == 'd' ? tx && y0 < ey0 && y1 >= ey0 : tx && y0 <= ey0 && y1 > ey0;
						if(!touch) continue;
						if(s[j].prio > amb_prio || (s[j].prio == amb_prio && rank(s[j].type) > rank(*amb))) { amb = s[j].type; amb_prio = s[j].prio; }
					}
					e.reversed = amb && rank(*amb) > rank(s[i].type);
				}
			}
			out.push_back(e);
		}
	}
	return out;
}

string text(vector<Shape> const& s, Plane plane, std::optional<T> bg) {
	string o = string(name(plane)) + (bg ? string(", background ") + tname(*bg) : string());
	for(auto const& x : s) o += "\n " + string(tname(x.type)) + " priority " + std::to_string(x.prio) + " z " + std::to_string(x.z0) + ".." + std::to_string(x.z1) + " " + ex::str(x.p);
	return o;
}

struct Pol { int axis; double x; P p; N n; bool operator<(Pol const& o) const { return std::tie(axis, x, p, n) < std::tie(o.axis, o.x, o.p, o.n); } bool operator==(Pol const&) const = default; };
string show(vector<Pol> const& v) { string o; for(auto const& p : v) o += string("\n  ") + name((Axis)p.axis) + " " + num(p.x) + " " + name(p.p) + " " + name(p.n); return o; }

double scale = 0.5, shift = -1;
double val(long x) { return x * scale + shift; }

void check(mc::Ctx& c, vector<Shape> const& s, std::optional<T> bg) {
	Plane plane = AllPlane[(c.seq * 2654435761u >> 16) % 3];
	double const maps[][2] = { { 0.5, -1 }, { 0.1, 0.3 }, { 250, 1000 } };
	scale = maps[(c.seq * 40503u >> 8) % 3][0];
	shift = maps[(c.seq * 40503u >> 8) % 3][1];
	c.describe(text(s, plane, bg));
	c.run([&] {
		bool const whole = c.prop != "E01";
		fresh();
		Board::Builder b;
		std::map<T, std::shared_ptr<Material>> mats;
		for(auto t : { T::PORT, T::CONDUCTOR, T::DIELECTRIC, T::AIR }) mats[t] = std::make_shared<Material>(t, tname(t));
		if(bg) b.set_background_material(mats[*bg]);
		for(auto const& x : s) {
			vector<std::unique_ptr<Point const>> pts;
			for(auto q : x.p) pts.push_back(std::make_unique<Point const>(val(q.x), val(q.y)));
			b.add_polygon(plane, mats[x.type], "s", x.prio, Polygon::RangeZ(x.z0, x.z1), std::move(pts));
		}
		auto board = b.build(domain::Params {});
		board->adjust_edges_to_materials();
		board->detect_edges_in_polygons();
		board->detect_colinear_edges();
		board->auto_solve_all_edge_in_polygon();
		if(whole) {
			board->auto_solve_all_colinear_edges();
			board->detect_individual_edges();
		}
		++c.traces; c.transitions += whole ? 6 : 4;
		auto ref = reference(s, bg);
		auto find = [&](RefEdge const& r) -> Edge const* {
			for(auto const& e : board->get_polygons(plane)[r.shape]->edges)
				if(e->p0() == Point(val(r.a.x), val(r.a.y)) && e->p1() == Point(val(r.b.x), val(r.b.y))) return e.get();
			c.fail("an edge is missing");
			return nullptr;
		};
		auto edge_name = [&](RefEdge const& r) { return "edge " + ex::str({ r.a, r.b }) + " of shape " + std::to_string(r.shape); };
		string sig;
		bool covered = false, reversed = false;
		for(auto const& r : ref) {
			if(r.a == r.b) continue;
			auto const& st = find(r)->get_current_state();
			covered |= !r.to_mesh;
			reversed |= r.reversed;
			sig += r.to_mesh ? r.reversed ? 'r' : 'm' : '.';
			if(c.prop == "E01" && st.to_mesh != r.to_mesh) c.fail(edge_name(r) + (st.to_mesh ? " is meshed although it is entirely covered" : " is left out although it is not entirely covered"));
			if(c.prop == "E03" && st.to_reverse != r.reversed) c.fail(edge_name(r) + (st.to_reverse ? " is reversed although no better conductor touches its outer side" : " is not reversed although a better conductor touches its outer side"));
		}
		if(c.prop == "E01" ? covered : c.prop == "E03" ? reversed : true) ++c.nontrivial;
		if(c.prop == "E02" || c.prop == "E04") {
			// One policy per group of edges on a same line; one per lonely edge.
			vector<Pol> want;
			for(int h = 0; h < 2; ++h) {
				std::map<long, vector<RefEdge const*>> groups;
				for(auto const& r : ref) if(!(r.a == r.b) && (h ? r.a.y == r.b.y : r.a.x == r.b.x)) groups[h ? r.a.y : r.a.x].push_back(&r);
				int axis = Axes[plane][h ? V : H]; // A horizontal edge sets a vertical coordinate.
				for(auto const& [x, g] : groups) {
					if((g.size() > 1) != (c.prop == "E02")) continue;
					int mins = 0, maxs = 0, nones = 0;
					for(auto* r : g) {
						if(!r->to_mesh) continue;
						char n = r->normal;
						if(n == '-') ++nones;
						else ((n == 'l' || n == 'd') != r->reversed ? mins : maxs)++;
					}
					if(nones) { if(g.size() > 1) want.push_back({ axis, val(x), P::ONELINE, N::NONE }); }
					else if(mins && maxs) want.push_back({ axis, val(x), P::HALFS, N::NONE });
					else if(mins) want.push_back({ axis, val(x), P::THIRDS, N::MIN });
					else if(maxs) want.push_back({ axis, val(x), P::THIRDS, N::MAX });
				}
			}
			vector<Pol> got;
			for(auto a : AllAxis) for(auto const& p : board->get_meshline_policies(a)) {
				auto const& st = p->get_current_state();
				if(!st.is_enabled) continue;
				// Where a single edge lies, or several?
				int n = 0;
				for(auto const& r : ref) {
					if(r.a == r.b) continue;
					if(r.a.y == r.b.y && Axes[plane][V] == a && std::fabs(val(r.a.y) - p->coord.value()) < 1e-9) ++n;
					if(r.a.x == r.b.x && Axes[plane][H] == a && std::fabs(val(r.a.x) - p->coord.value()) < 1e-9) ++n;
				}
				if(!n) c.fail("a policy lies where there is no edge: " + show({ { a, p->coord.value(), st.policy, st.normal } }));
				if((n > 1) == (c.prop == "E02")) got.push_back({ a, p->coord.value(), st.policy, st.normal });
			}
			std::sort(want.begin(), want.end());
			std::sort(got.begin(), got.end());
			sig += show(got);
			if(want != got) c.fail("expected policies:" + show(want) + "\nobserved policies:" + show(got));
		}
		c.outcome(sig);
	});
}

ex::Poly rect(long x0, long y0, long x1, long y1) { return { { x0, y0 }, { x0, y1 }, { x1, y1 }, { x1, y0 } }; }

vector<ex::Poly> rects(long n, bool flat) {
	vector<ex::Poly> v;
	for(long x0 = 0; x0 <= n; ++x0) for(long x1 = x0; x1 <= n; ++x1) for(long y0 = 0; y0 <= n; ++y0) for(long y1 = y0; y1 <= n; ++y1) {
		int zero = (x0 == x1) + (y0 == y1);
		if(zero == 0 || (flat && zero == 1)) v.push_back(rect(x0, y0, x1, y1));
	}
	return v;
}

vector<ex::Poly> shapes() { // Even coordinates, so that they can be shifted by half a step.
	vector<ex::Poly> v {
		{ { 0, 0 }, { 4, 0 }, { 4, 2 }, { 2, 2 }, { 2, 4 }, { 0, 4 } },                               // L
		{ { 0, 0 }, { 6, 0 }, { 6, 4 }, { 4, 4 }, { 4, 2 }, { 2, 2 }, { 2, 4 }, { 0, 4 } },           // U
		{ { 0, 2 }, { 0, 4 }, { 6, 4 }, { 6, 2 }, { 4, 2 }, { 4, 0 }, { 2, 0 }, { 2, 2 } },           // T
		{ { 0, 0 }, { 6, 0 }, { 6, 2 }, { 4, 2 }, { 4, 4 }, { 6, 4 }, { 6, 6 }, { 0, 6 }, { 0, 4 }, { 2, 4 }, { 2, 2 }, { 0, 2 } }, // I
		{ { 0, 0 }, { 4, 0 }, { 0, 4 } },                                                             // triangle, descending
		{ { 0, 0 }, { 4, 4 }, { 0, 4 } },                                                             // triangle, ascending
		{ { 2, 0 }, { 4, 2 }, { 2, 4 }, { 0, 2 } },                                                   // diamond
		{ { 0, 0 }, { 6, 0 }, { 4, 4 }, { 2, 4 } },                                                   // trapezium
		{ { 0, 0 }, { 6, 0 }, { 6, 6 }, { 2, 2 } },                                                   // concave
		{ { 0, 0 }, { 4, 0 }, { 4, 4 }, { 0, 4 } },                                                   // square
		{ { 0, 0 }, { 8, 0 }, { 8, 2 }, { 0, 2 } },                                                   // bar
		{ { 0, 0 }, { 2, 0 }, { 4, 0 }, { 4, 4 }, { 0, 4 } },                                         // straight vertex
	};
	return v;
}
ex::Poly moved(ex::Poly p, long dx, long dy) { for(auto& q : p) { q.x += dx; q.y += dy; } return p; }
ex::Poly turned(ex::Poly p, int k) { if(k & 1) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + (k >> 1) % p.size(), p.end()); return p; }

void body(mc::Ctx& c) {
	bool const th = c.thorough();
	string const& id = c.prop;
	bool const mats = id != "E01";
	vector<std::array<T, 2>> tt { { T::CONDUCTOR, T::CONDUCTOR } };
	if(mats) tt = { { T::CONDUCTOR, T::CONDUCTOR }, { T::DIELECTRIC, T::CONDUCTOR }, { T::CONDUCTOR, T::DIELECTRIC }, { T::DIELECTRIC, T::DIELECTRIC }, { T::AIR, T::PORT }, { T::PORT, T::CONDUCTOR }, { T::AIR, T::DIELECTRIC } };
	vector<std::optional<T>> bgs { std::nullopt };
	if(mats) bgs = { std::nullopt, T::AIR, T::CONDUCTOR };
	long const zz[][2] = { { 1, 3 }, { 2, 4 }, { 3, 4 }, { 0, 1 }, { 0, 0 }, { 2, 2 } }; // overlap, apart, touch...
	// Pairs of rectangles, flat ones included.
	auto r = rects(3, id != "E03");
	for(auto const& a : r) for(auto const& b : r) for(int prio = 0; prio < 3; ++prio) for(int z = 0; z < (mats ? 2 : 3); ++z) for(auto const& t : tt) for(auto const& bg : bgs) {
		if(mats && !th && (z == 1) && !(t == tt[1])) continue;
		if(!c.take("pair")) { if(c.stop) return; continue; }
		check(c, { { a, prio == 2 ? 1 : 0, 1, 2, t[0] }, { b, prio == 1 ? 1 : 0, zz[z == 1 ? 2 : z == 2 ? 1 : 0][0], zz[z == 1 ? 2 : z == 2 ? 1 : 0][1], t[1] } }, bg);
	}
	// Triples of rectangles.
	auto q = rects(th ? 4 : 3, false);
	long const prios[][3] = { { 1, 1, 1 }, { 0, 1, 2 }, { 0, 1, 1 }, { 1, 0, 1 }, { 0, 0, 1 }, { 1, 1, 0 }, { 2, 1, 0 } };
	T const t3[][3] = { { T::DIELECTRIC, T::CONDUCTOR, T::CONDUCTOR }, { T::CONDUCTOR, T::DIELECTRIC, T::CONDUCTOR }, { T::DIELECTRIC, T::AIR, T::PORT } };
	for(auto const& a : q) for(auto const& b : q) for(auto const& d : q) for(auto const& p : prios) for(int z = 0; z < 2; ++z) for(int t = 0; t < (mats ? 3 : 1); ++t) {
		if(!c.take("triple")) { if(c.stop) return; continue; }
		check(c, { { a, p[0], 1, 2, t3[t][0] }, { b, p[1], z ? 2 : 0, 4, t3[t][1] }, { d, p[2], 1, z ? 1 : 3, t3[t][2] } }, std::nullopt);
	}
	if(id == "E03") return;
	// Other shapes.
	auto s = shapes();
	for(size_t i = 0; i < s.size(); ++i) for(size_t j = 0; j < s.size(); ++j)
		for(long dx = -6; dx <= 6; dx += th || !mats ? 1 : 2) for(long dy = -6; dy <= 6; dy += th || !mats ? 1 : 2) for(int prio = 0; prio < 3; ++prio) for(int k = 0; k < (th ? 4 : 1); ++k) {
			if(!c.take("shapes")) { if(c.stop) return; continue; }
			int turn = th ? k : (int)(c.seq * 40503u >> 4) % 8;
			check(c, { { turned(s[i], turn), prio == 2 ? 1 : 0, 0, 2, T::CONDUCTOR }, { moved(turned(s[j], turn / 2), dx, dy), prio == 1 ? 1 : 0, 1, 3, T::CONDUCTOR } }, std::nullopt);
		}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
