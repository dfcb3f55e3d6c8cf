// I01: the mesh depends on the structure, not on the way it is described.
// Every scene is meshed as it is and after every transformation of a set; both
// meshes are to match.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <array>
#include <cmath>

using namespace oe;
using std::string;
using std::vector;
using V3 = std::array<double, 3>;

namespace {

struct Prim {
	enum Kind { BOX, LINPOLY, POLYGON, CYLINDER, SPHERE, CURVE, POINT } kind;
	vector<V3> v;      // box: corners; cylinder: ends; sphere: center; polygons: vertices; curve; point
	int normal = 2;    // polygons
	double extra = 0;  // length or radius
	int prio = 1, mat = 0;
};
struct Scene { vector<Prim> prims; vector<std::array<double, 2>> fixed; /* axis, coordinate */ bool background = false; };
struct Tr { string name; std::array<int, 3> from { 0, 1, 2 }; V3 mul { 1, 1, 1 }, add { 0, 0, 0 }; double unit = 1; int order = 0, corners = 0, props = 0; /* no rounding, no change in the order of coordinates: also on round shapes */ bool exact = false, mirror = false; };

string n17(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v == 0 ? 0. : v); return b; }
string xyz17(string const& tag, V3 const& v) { return "<" + tag + " X=\"" + n17(v[0]) + "\" Y=\"" + n17(v[1]) + "\" Z=\"" + n17(v[2]) + "\"/>"; }

// New coordinate i comes from old coordinate from[i].
V3 apply(Tr const& t, V3 const& v) { V3 o; for(int i = 0; i < 3; ++i) o[i] = v[t.from[i]] * t.mul[i] + t.add[i]; return o; }

string render(Prim const& p, Tr const& t) {
	vector<V3> v;
	for(auto const& x : p.v) v.push_back(apply(t, x));
	string const prio = " Priority=\"" + std::to_string(p.prio) + "\"";
	switch(p.kind) {
	case Prim::BOX: {
		V3 a = v[0], b = v[1];
		for(int i = 0; i < 3; ++i) if(t.corners >> i & 1) std::swap(a[i], b[i]);
		return "<Box" + prio + ">" + xyz17("P1", a) + xyz17("P2", b) + "</Box>\n";
	}
	case Prim::LINPOLY: case Prim::POLYGON: {
		int n = 0;
		while(t.from[n] != p.normal) ++n;
		double elevation = v[0][n], length = p.extra * t.mul[n];
		if(t.corners & 1) std::reverse(v.begin(), v.end());
		std::rotate(v.begin(), v.begin() + (t.corners >> 1) % v.size(), v.end());
		if(t.corners & 4) { elevation += length; length = -length; }
		string o = p.kind == Prim::LINPOLY ? "<LinPoly" : "<Polygon";
		o += prio + " Elevation=\"" + n17(elevation) + "\" NormDir=\"" + std::to_string(n) + "\"" + (p.kind == Prim::LINPOLY ? " Length=\"" + n17(length) + "\"" : "") + ">";
		for(auto const& q : v) o += "<Vertex X1=\"" + n17(q[(n + 1) % 3]) + "\" X2=\"" + n17(q[(n + 2) % 3]) + "\"/>";
		return o + (p.kind == Prim::LINPOLY ? "</LinPoly>\n" : "</Polygon>\n");
	}
	case Prim::CYLINDER: if(t.corners & 1) std::swap(v[0], v[1]); return "<Cylinder" + prio + " Radius=\"" + n17(p.extra * t.unit) + "\">" + xyz17("P1", v[0]) + xyz17("P2", v[1]) + "</Cylinder>\n";
	case Prim::SPHERE: return "<Sphere" + prio + " Radius=\"" + n17(p.extra * t.unit) + "\">" + xyz17("Center", v[0]) + "</Sphere>\n";
	case Prim::CURVE: { if(t.corners & 1) std::reverse(v.begin(), v.end()); string o = "<Curve" + prio + ">"; for(auto const& q : v) o += xyz17("Vertex", q); return o + "</Curve>\n"; }
	case Prim::POINT: return xyz17("Point", v[0]) + "\n";
	}
	return {};
}
string render(Scene const& s, Tr const& t) {
	static char const* const tags[] = { "Metal", "Material", "LumpedPort" };
	vector<string> props;
	for(int m = 0; m < 3; ++m) {
		vector<string> prims;
		for(auto const& p : s.prims) if(p.mat == m) prims.push_back(render(p, t));
		if(prims.empty()) continue;
		if(t.order == 1) std::reverse(prims.begin(), prims.end());
		if(t.order == 2 && prims.size() > 1) std::rotate(prims.begin(), prims.begin() + 1, prims.end());
		if(t.order == 3) std::reverse(prims.begin(), prims.end() - 1);
		string const inner = m == 1 ? "<Property Epsilon=\"4\"/>\n" : "";
		if(t.props == 1) for(size_t i = 0; i < prims.size(); ++i) props.push_back(prop(m == 2 ? "LumpedElement" : tags[m], "n" + std::to_string(i), prims[i], inner));
		else {
			string all;
			for(auto const& x : prims) all += x;
			props.push_back(prop(m == 2 ? "LumpedElement" : tags[m], tags[m], all, inner));
		}
	}
	if(t.props == 2) std::reverse(props.begin(), props.end());
	Doc d;
	for(auto const& p : props) d.props += p;
	if(s.background) d.background = "<BackgroundMaterial Epsilon=\"2\"/>\n";
	return d.str();
}

struct Settings { double dmax, diag, prox, smooth; size_t lmin; };

std::array<vector<double>, 3> mesh(Scene const& s, Tr const& t, Settings const& q) {
	write_file("in.csx", render(s, t));
	app::OpenEMSH::Params p;
	p.input = p.output = "in.csx";
	p.override_from_cli = [&](domain::Params& d) {
		d.dmax = q.dmax * t.unit; d.diagonal_dmax = q.diag * t.unit; d.proximity_limit = q.prox * t.unit; d.smoothness = q.smooth; d.lmin = q.lmin;
		auto f = s.fixed;
		if(t.order) std::reverse(f.begin(), f.end());
		for(auto const& [a, x] : f) { int n = 0; while(t.from[n] != (int)a) ++n; d.input_fixed_meshlines.emplace_back((Axis)n, x * t.mul[n] + t.add[n]); }
	};
	app::OpenEMSH e(p);
	if(auto r = e.parse(); !r) throw std::runtime_error(r.error());
	e.run_all_steps();
	std::array<vector<double>, 3> o;
	for(auto a : AllAxis) o[a] = lines(e.get_board(), a);
	return o;
}

vector<Tr> transformations() {
	vector<Tr> v;
	v.push_back({ .name = "turned XYZ -> YZX", .from = { 1, 2, 0 }, .exact = true });
	v.push_back({ .name = "turned XYZ -> ZXY", .from = { 2, 0, 1 }, .exact = true });
	v.push_back({ .name = "X and Y exchanged", .from = { 1, 0, 2 } });
	v.push_back({ .name = "Y and Z exchanged", .from = { 0, 2, 1 } });
	v.push_back({ .name = "X and Z exchanged", .from = { 2, 1, 0 } });
	v.push_back({ .name = "moved", .add = { 64, -256, 1024 } });
	v.push_back({ .name = "moved a bit", .add = { 0.375, -0.6875, 12.125 } });
	v.push_back({ .name = "unit x 8", .mul = { 8, 8, 8 }, .unit = 8, .exact = true });
	v.push_back({ .name = "unit / 4", .mul = { 0.25, 0.25, 0.25 }, .unit = 0.25 });
	// A mirror exchanges what comes first on the axis: ties are broken the other way.
	for(int i = 0; i < 3; ++i) { Tr t { .name = string("mirrored along ") + "XYZ"[i] }; t.mul[i] = -1; t.mirror = true; v.push_back(t); }
	for(int k = 1; k < 8; ++k) v.push_back({ .name = "corners written another way (" + std::to_string(k) + ")", .corners = k });
	for(int k = 1; k < 4; ++k) v.push_back({ .name = "shapes in another order (" + std::to_string(k) + ")", .order = k, .exact = true });
	v.push_back({ .name = "one property per shape", .props = 1, .exact = true });
	v.push_back({ .name = "properties in another order", .props = 2, .exact = true });
	return v;
}

string show(std::array<vector<double>, 3> const& l) { string o; for(int a = 0; a < 3; ++a) { o += string("\n  ") + "XYZ"[a] + ":"; for(double v : l[a]) o += " " + num(v); } return o; }

void check(mc::Ctx& c, Scene const& s, Settings const& q, vector<Tr> const& ts) {
	bool const round = std::any_of(s.prims.begin(), s.prims.end(), [](auto const& p) { return p.kind == Prim::CYLINDER || p.kind == Prim::SPHERE; });
	c.describe("dmax " + num(q.dmax) + " proximity " + num(q.prox) + " smoothness " + num(q.smooth) + " lmin " + std::to_string(q.lmin) + "\n" + render(s, {}));
	c.run([&] {
		auto const a = mesh(s, {}, q);
		if(a[0].size() > 1 || a[1].size() > 1 || a[2].size() > 1) ++c.nontrivial;
		c.outcome(show(a));
		for(auto const& t : ts) {
			if(round && !t.exact) continue;
			if(t.mirror && s.prims.size() > 1) continue;
			auto const b = mesh(s, t, q);
			++c.traces; c.transitions += 30;
			std::array<vector<double>, 3> want;
			for(int i = 0; i < 3; ++i) {
				for(double x : a[t.from[i]]) want[i].push_back(x * t.mul[i] + t.add[i]);
				std::sort(want[i].begin(), want[i].end());
			}
			for(int i = 0; i < 3; ++i) {
				bool ok = want[i].size() == b[i].size();
				for(size_t k = 0; ok && k < want[i].size(); ++k) ok = std::fabs(want[i][k] - b[i][k]) <= (t.exact ? 1e-7 : 1e-3) * t.unit;
				if(!ok) c.fail(t.name + "\nexpected:" + show(want) + "\nobserved:" + show(b));
			}
		}
	});
}

vector<Prim> shapes() {
	vector<Prim> v;
	v.push_back({ Prim::BOX, { { 0, 0, 0 }, { 10, 6, 4 } } });
	v.push_back({ Prim::BOX, { { 0, 0, 0 }, { 7, 12, 0 } } });
	v.push_back({ Prim::BOX, { { 0, 0, 0 }, { 8.5, 0, 0 } } });
	v.push_back({ Prim::LINPOLY, { { 0, 0, 0 }, { 10, 0, 0 }, { 6, 6, 0 }, { 0, 6, 0 } }, 2, 3 });
	v.push_back({ Prim::LINPOLY, { { 0, 0, 0 }, { 0, 8, 0 }, { 0, 8, 3 }, { 0, 3, 3 }, { 0, 3, 7 }, { 0, 0, 7 } }, 0, 5 });
	v.push_back({ Prim::POLYGON, { { 0, 0, 0 }, { 9, 0, 0 }, { 9, 0, 5 }, { 4, 0, 8 }, { 0, 0, 5 } }, 1 });
	v.push_back({ Prim::CYLINDER, { { 4, 4, 0 }, { 4, 4, 9 } }, 2, 3 });
	v.push_back({ Prim::SPHERE, { { 4, 4, 4 } }, 2, 3.5 });
	v.push_back({ Prim::CURVE, { { 0, 0, 0 }, { 12, 0, 0 }, { 12, 5, 0 }, { 12, 5, 6 } } });
	v.push_back({ Prim::POINT, { { 3, 2, 1 } } });
	return v;
}
Prim moved(Prim p, V3 const& d) { for(auto& v : p.v) for(int i = 0; i < 3; ++i) v[i] += d[i]; return p; }

void body(mc::Ctx& c) {
	bool const th = c.thorough();
	auto const ts = transformations();
	vector<Settings> const sets { { 2.5, 0.83, 0.957, 2, 2 }, { 3, 1.037, 0.413, 1.3, 4 }, { 5, 0.719, 2.237, 1.6, 1 } };
	auto const sh = shapes();
	vector<V3> const offs { { 0, 0, 0 }, { 3, 2, 1 }, { 10, 0, 0 }, { 10.5, 0.625, 0.3125 }, { -4, 7, 4 }, { 0, 6.75, -3 }, { 21, 15, 9 }, { 2, -8, 1.5 } };
	size_t n = 0;
	for(size_t i = 0; i < sh.size(); ++i) for(auto const& q : sets) {
		if(!c.take("one")) { if(c.stop) return; continue; }
		check(c, { { sh[i] }, {} }, q, ts);
	}
	for(size_t i = 0; i < sh.size(); ++i) for(size_t j = 0; j < sh.size(); ++j) for(size_t o = 0; o < offs.size(); ++o) for(int prio = 0; prio < 3; ++prio) for(int mat = 0; mat < 4; ++mat) {
		++n;
		if(!th && mat % 3 != prio) continue;
		for(size_t q = 0; q < sets.size(); ++q) {
			if(!th && n / 12 % 3 != q) continue;
			if(!c.take("two")) { if(c.stop) return; continue; }
			Scene s { { sh[i], moved(sh[j], offs[o]) }, {}, mat == 3 };
			s.prims[0].prio = prio == 1 ? 2 : 1;
			s.prims[1].prio = prio == 2 ? 2 : 1;
			s.prims[0].mat = mat == 1 ? 1 : 0;
			s.prims[1].mat = mat == 2 ? 1 : mat == 3 ? 2 : 0;
			if(n % 5 == 0) s.fixed = { { 0, 4.25 }, { 1, 17 }, { 1, -3 } };
			check(c, s, sets[q], ts);
		}
	}
	for(size_t i = 0; i < sh.size(); ++i) for(size_t j = i; j < sh.size(); ++j) for(size_t l = j; l < sh.size(); ++l) for(size_t o = 0; o < offs.size(); ++o) for(size_t m = 0; m < offs.size(); ++m) {
		++n;
		if(!th && (i == j || j == l || o == m || o % 4 != 1 || m % 3 != 1)) continue;
		if(!c.take("three")) { if(c.stop) return; continue; }
		Scene s { { sh[i], moved(sh[j], offs[o]), moved(sh[l], offs[m]) }, {}, false };
		s.prims[1].mat = n % 3 == 1;
		s.prims[2].prio = n % 4 == 1 ? 2 : 1;
		check(c, s, sets[n % sets.size()], ts);
	}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
