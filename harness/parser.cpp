// P01..P06: what is read from a CSX file, against a reference reading of an
// abstract description from which the file is generated. P04: malformed files.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <optional>

using namespace oe;
using std::string;
using std::vector;
using T = Material::Type;
using V2 = std::array<double, 2>;
using V3 = std::array<double, 3>;

namespace {

struct Events : Logger::ISink {
	static inline vector<Logger::LogEvent> seen;
	Logger::UserAction log(Logger::LogEvent const& e) const override { seen.push_back(e); return Logger::UserAction::NOTHING; }
};

// ---- description ----------------------------------------------------------
struct Shape { // expected polygon
	Plane plane; double z0, z1; vector<V2> pts; double r = 0; // r: circle around pts[0]
};
struct Prim {
	string xml;            // %P stands for the attributes common to every primitive
	vector<Shape> shapes;
	vector<std::pair<Axis, double>> fixed;             // lines on an axis
	vector<std::pair<Axis, double>> maybe;             // only tied to other planes
	bool top = false;      // drawn above everything
	string unsupported;    // warned
};
struct Prop {
	string tag, name, inner, attr;
	std::optional<T> type; // none: unsupported
	vector<std::pair<Prim, std::optional<unsigned>>> prims;
};
struct Flags { bool yz = true, zx = true, xy = true; bool on(Plane p) const { return p == YZ ? yz : p == ZX ? zx : xy; } };

string n17(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
string xyz3(string const& tag, V3 const& p) { return "<" + tag + " X=\"" + n17(p[0]) + "\" Y=\"" + n17(p[1]) + "\" Z=\"" + n17(p[2]) + "\"/>"; }

// Cartesian coordinates seen by each plane: its third axis, then its two own.
constexpr int third(Plane p) { return p == YZ ? 0 : p == ZX ? 1 : 2; }
constexpr int first(Plane p) { return (third(p) + 1) % 3; }
constexpr int second(Plane p) { return (third(p) + 2) % 3; }

vector<Shape> box_shapes(V3 a, V3 b) {
	vector<Shape> o;
	for(auto p : AllPlane) {
		int t = third(p), f = first(p), s = second(p);
		o.push_back({ p, std::min(a[t], b[t]), std::max(a[t], b[t]), { { a[f], a[s] }, { a[f], b[s] }, { b[f], b[s] }, { b[f], a[s] } } });
	}
	return o;
}
Prim box3(V3 a, V3 b) { return { "<Box%P>" + xyz3("P1", a) + xyz3("P2", b) + "</Box>", box_shapes(a, b) }; }
Prim multibox(vector<std::pair<V3, V3>> const& v) {
	Prim p { "<MultiBox%P>", {} };
	for(auto const& [a, b] : v) {
		p.xml += xyz3("StartP", a) + xyz3("EndP", b);
		for(auto const& s : box_shapes(a, b)) p.shapes.push_back(s);
	}
	p.xml += "</MultiBox>";
	return p;
}
string verts(vector<V2> const& v) { string s; for(auto const& q : v) s += "<Vertex X1=\"" + n17(q[0]) + "\" X2=\"" + n17(q[1]) + "\"/>"; return s; }
Plane plane_of(int n) { return n == 0 ? YZ : n == 1 ? ZX : XY; }
Prim linpoly3(int n, double e, double l, vector<V2> const& v) {
	Prim p { "<LinPoly%P Elevation=\"" + n17(e) + "\" Length=\"" + n17(l) + "\" NormDir=\"" + std::to_string(n) + "\">" + verts(v) + "</LinPoly>", {} };
	if(v.empty()) return p;
	p.shapes.push_back({ plane_of(n), std::min(e, e + l), std::max(e, e + l), v });
	if(l != 0) { // Seen from its sides, it is its bounding box.
		V3 a, b;
		a[n] = e; b[n] = e + l;
		int f = (n + 1) % 3, s = (n + 2) % 3;
		a[f] = b[f] = v[0][0]; a[s] = b[s] = v[0][1];
		for(auto const& q : v) { a[f] = std::min(a[f], q[0]); b[f] = std::max(b[f], q[0]); a[s] = std::min(a[s], q[1]); b[s] = std::max(b[s], q[1]); }
		for(auto const& x : box_shapes(a, b)) if(x.plane != plane_of(n)) p.shapes.push_back(x);
	}
	return p;
}
Prim polygon3(int n, double e, vector<V2> const& v) {
	Prim p { "<Polygon%P Elevation=\"" + n17(e) + "\" NormDir=\"" + std::to_string(n) + "\">" + verts(v) + "</Polygon>", {} };
	if(v.empty()) return p;
	p.shapes.push_back({ plane_of(n), e, e, v });
	p.fixed.emplace_back((Axis)n, e);
	return p;
}
Prim sphere(V3 c, double r) {
	Prim p { "<Sphere%P Radius=\"" + n17(r) + "\">" + xyz3("Center", c) + "</Sphere>", {} };
	for(auto q : AllPlane) p.shapes.push_back({ q, c[third(q)] - r, c[third(q)] + r, { { c[first(q)], c[second(q)] } }, r });
	return p;
}
Prim cylinder(int axis, V3 c, double l, double r) { // From c, along an axis.
	V3 d = c;
	d[axis] += l;
	Prim p { "<Cylinder%P Radius=\"" + n17(r) + "\">" + xyz3("P1", c) + xyz3("P2", d) + "</Cylinder>", {} };
	Plane pl = plane_of(axis);
	p.shapes.push_back({ pl, std::min(c[axis], d[axis]), std::max(c[axis], d[axis]), { { c[first(pl)], c[second(pl)] } }, r });
	V3 a = c, b = d;
	for(int k = 0; k < 3; ++k) if(k != axis) { a[k] -= r; b[k] += r; }
	for(auto const& s : box_shapes(a, b)) if(s.plane != pl) p.shapes.push_back(s);
	return p;
}
Prim point3(V3 c) {
	Prim p { xyz3("Point", c), {} };
	for(int k = 0; k < 3; ++k) p.fixed.emplace_back((Axis)k, c[k]);
	return p;
}
Prim curve(vector<V3> const& v) { // Seen as a path that goes and comes back.
	Prim p { "<Curve%P>", {} };
	for(auto const& q : v) p.xml += xyz3("Vertex", q);
	p.xml += "</Curve>";
	p.top = true;
	if(v.empty()) return p;
	for(auto pl : AllPlane) {
		Shape s { pl, v[0][third(pl)], v[0][third(pl)], {} };
		for(auto const& q : v) { s.z0 = std::min(s.z0, q[third(pl)]); s.z1 = std::max(s.z1, q[third(pl)]); s.pts.push_back({ q[first(pl)], q[second(pl)] }); }
		for(int i = (int)v.size() - 2; i > 0; --i) s.pts.push_back(s.pts[i]);
		p.shapes.push_back(s);
	}
	return p;
}

string xml(vector<Prop> const& props) {
	string o;
	for(auto const& p : props) {
		string prims;
		for(auto const& [q, prio] : p.prims) {
			string x = q.xml;
			if(auto at = x.find("%P"); at != string::npos) x.replace(at, 2, prio ? " Priority=\"" + std::to_string(*prio) + "\"" : "");
			prims += x + "\n";
		}
		o += prop(p.tag, p.name, prims, p.inner, p.attr);
	}
	return o;
}

// ---- canonical form ---------------------------------------------------------
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max({ 1.0, std::fabs(a), std::fabs(b) }); }
string key(V2 const& p) { return "(" + num(p[0]) + "," + num(p[1]) + ")"; }
string canonical(vector<V2> const& v) { // up to where it starts and how it turns
	vector<string> k;
	for(auto const& p : v) k.push_back(key(p));
	string best;
	for(int dir = 0; dir < 2; ++dir) {
		for(size_t i = 0; i < k.size(); ++i) {
			string s;
			for(size_t j = 0; j < k.size(); ++j) s += k[(i + j) % k.size()];
			if(best.empty() || s < best) best = s;
		}
		std::reverse(k.begin(), k.end());
	}
	return best;
}
bool is_circle(vector<V2> const& v, V2 c, double r) {
	int axis[4] = { 0, 0, 0, 0 };
	double turn = 0;
	for(size_t i = 0; i < v.size(); ++i) {
		auto const& p = v[i];
		auto const& q = v[(i + 1) % v.size()];
		if(!close(std::hypot(p[0] - c[0], p[1] - c[1]), r)) return false;
		if(close(p[0], c[0] + r)) ++axis[0];
		if(close(p[1], c[1] + r)) ++axis[1];
		if(close(p[0], c[0] - r)) ++axis[2];
		if(close(p[1], c[1] - r)) ++axis[3];
		double s = (p[0] - c[0]) * (q[1] - c[1]) - (p[1] - c[1]) * (q[0] - c[0]);
		if(turn == 0) turn = s;
		if(s * turn <= 0) return false;
	}
	return axis[0] == 1 && axis[1] == 1 && axis[2] == 1 && axis[3] == 1 && v.size() >= 4;
}

char const* tname(T t) { return t == T::PORT ? "PORT" : t == T::CONDUCTOR ? "CONDUCTOR" : t == T::DIELECTRIC ? "DIELECTRIC" : "AIR"; }

constexpr std::size_t TOP = std::numeric_limits<std::size_t>::max();

struct Want { string head; Shape s; };

app::OpenEMSH::Params base_params(string const& in, Flags f = {}) {
	app::OpenEMSH::Params p;
	p.input = in;
	p.output = "out.csx";
	p.with_yz = f.yz; p.with_zx = f.zx; p.with_xy = f.xy;
	p.override_from_cli = [](domain::Params&) {};
	return p;
}

string fixed_lines(Board& b) {
	b.add_fixed_meshline_policies();
	std::multiset<string> o;
	for(auto a : AllAxis) for(auto const& p : b.get_meshline_policies(a)) {
		auto const& s = p->get_current_state();
		o.insert(string(name(a)) + " " + num(p->coord) + (s.policy == MeshlinePolicy::Policy::ONELINE && s.normal == MeshlinePolicy::Normal::NONE && s.is_enabled ? "" : " not a single line"));
	}
	string r;
	for(auto const& s : o) r += s + "\n";
	return r;
}
string fixed_want(vector<std::pair<Axis, double>> v) {
	std::set<string> o;
	for(auto const& [a, x] : v) o.insert(string(name(a)) + " " + num(x));
	string r;
	for(auto const& s : o) r += s + "\n";
	return r;
}

void check_doc(mc::Ctx& c, vector<Prop> const& props, Flags f, std::optional<T> background = {}, string const& bg_xml = {}, bool bare = false, bool fixed = true) {
	string content = xml(props);
	string in = bare ? "<?xml version=\"1.0\"?>\n<ContinuousStructure CoordSystem=\"0\">" + bg_xml + "<Properties>\n" + content + "</Properties></ContinuousStructure>\n" : string();
	if(!bare) { Doc d; d.props = content; d.background = bg_xml; in = d.str(); }
	c.describe(string(f.yz ? "" : "--no-yz ") + (f.zx ? "" : "--no-zx ") + (f.xy ? "" : "--no-xy ") + bg_xml + content);
	c.run([&] {
		write_file("in.csx", in);
		Events::seen.clear();
		app::OpenEMSH e(base_params("in.csx", f));
		auto res = e.parse();
		++c.traces; ++c.transitions;
		if(!res) c.fail("refused: " + res.error());
		Board& b = const_cast<Board&>(e.get_board());
		// What is expected.
		vector<Want> want;
		vector<std::pair<Axis, double>> lines;
		std::set<string> un_props, un_prims;
		size_t id = 0;
		for(auto const& p : props) {
			if(!p.type) un_props.insert(p.tag + "/" + p.name);
			for(auto const& [q, prio] : p.prims) {
				string nm = p.name + "::" + std::to_string(id++);
				if(!p.type) continue;
				if(!q.unsupported.empty()) { un_prims.insert(q.unsupported + "/" + nm); continue; }
				size_t pr = q.top || *p.type == T::PORT ? TOP : prio.value_or(0);
				for(auto const& s : q.shapes)
					if(f.on(s.plane)) want.push_back({ string(name(s.plane)) + " " + nm + " " + tname(*p.type) + " " + p.name + " priority " + (pr == TOP ? "top" : std::to_string(pr)) + " from " + num(s.z0) + " to " + num(s.z1), s });
				for(auto const& [a, x] : q.fixed) {
					// Points set lines on the axes of the processed planes.
					if(q.xml.starts_with("<Point") && !((f.yz && a != X) || (f.zx && a != Y) || (f.xy && a != Z))) continue;
					lines.emplace_back(a, x);
				}
			}
		}
		// What is there.
		vector<std::pair<string, vector<V2>>> got;
		size_t top = 0;
		for(auto pl : AllPlane) for(auto const& p : b.get_polygons(pl)) {
			vector<V2> pts;
			for(auto const& q : p->points) pts.push_back({ q->x.value(), q->y.value() });
			if(p->plane != pl) c.fail("a polygon is registered in another plane");
			if(!p->material) c.fail("a polygon has no material");
			bool is_top = p->priority > 4294967295ull;
			top += is_top;
			got.emplace_back(string(name(pl)) + " " + p->name + " " + tname(p->material->type) + " " + p->material->name + " priority " + (is_top ? "top" : std::to_string(p->priority)) + " from " + num(p->z_placement.min) + " to " + num(p->z_placement.max), pts);
		}
		string sig;
		for(auto const& w : want) {
			auto it = std::find_if(got.begin(), got.end(), [&](auto const& g) {
				return g.first == w.head && (w.s.r ? is_circle(g.second, w.s.pts[0], w.s.r) : canonical(g.second) == canonical(w.s.pts));
			});
			if(it == got.end()) {
				string o = "not found: " + w.head + " " + (w.s.r ? "circle " + num(w.s.r) + " around " + key(w.s.pts[0]) : canonical(w.s.pts)) + "\nthere are:";
				for(auto const& g : got) o += "\n " + g.first + " " + canonical(g.second);
				c.fail(o);
			}
			sig += it->first + canonical(it->second) + ";";
			got.erase(it);
		}
		if(!got.empty()) c.fail("unexpected: " + got[0].first + " " + canonical(got[0].second));
		if(!want.empty() || !lines.empty() || !un_props.empty() || !un_prims.empty()) ++c.nontrivial;
		if(background || !bg_xml.empty()) {
			if(!b.material) { if(background) c.fail("the background is ignored"); }
			else if(!background) c.fail("there is a background");
			else if(b.material->type != *background) c.fail(string("the background is ") + tname(b.material->type));
			if(b.material) sig += tname(b.material->type);
		} else if(b.material) c.fail("there is a background");
		if(fixed) {
			string w = fixed_want(lines), g = fixed_lines(b);
			if(w != g) c.fail("expected fixed lines:\n" + w + "observed:\n" + g);
			sig += g;
		}
		// Warnings.
		std::set<string> seen;
		for(auto const& ev : Events::seen) seen.insert(ev.informative + "/" + ev.details);
		auto told = [&](std::set<string> const& s, string const& what) {
			if(s.empty()) {
				for(auto const& ev : Events::seen) if(ev.message.find(what) != string::npos) c.fail("warned without reason: " + ev.message + " " + ev.informative + " " + ev.details);
				return;
			}
			Logger::LogEvent const* it = nullptr;
			for(auto const& ev : Events::seen) if(ev.message.find(what) != string::npos) { if(it) c.fail("warned twice"); it = &ev; }
			if(!it) c.fail("unsupported " + what + " not reported: " + *s.begin());
			if(it->level != Logger::Level::WARNING) c.fail("reported, not as a warning");
			std::set<string> types, names;
			for(auto const& x : s) { types.insert(x.substr(0, x.find('/'))); names.insert(x.substr(x.find('/') + 1)); }
			auto join = [](std::set<string> const& s) { string o; for(auto const& x : s) o += (o.empty() ? "" : ", ") + x; return o; };
			if(it->informative != join(types)) c.fail("reported kinds: " + it->informative + ", expected " + join(types));
			if(it->details != join(names)) c.fail("reported names: " + it->details + ", expected " + join(names));
			sig += it->informative + it->details;
		};
		told(un_props, "Properties");
		told(un_prims, "Primitives");
		c.outcome(sig);
	});
}

// ---- alphabets ------------------------------------------------------------
vector<V2> const POLYS[] = {
	{ { 0, 0 }, { 4, 0 }, { 4, 3 } },
	{ { 0, 0 }, { 4, 0 }, { 4, 3 }, { 0, 3 } },
	{ { -1.5, 2 }, { -1.5, 7 }, { 3.25, 7 }, { 3.25, 2 } },
	{ { 0, 0 }, { 6, 0 }, { 6, 2 }, { 2, 2 }, { 2, 5 }, { 0, 5 } },
	{ { -4, 0 }, { 0, -4 }, { 4, 0 }, { 0, 4 } },
	{ { 0, 0 }, { 5, 0 } },
	{ { 1, 2 } },
};
vector<Prim> prims(bool full) {
	vector<Prim> v;
	double const lo[] = { -2, 0, 3.5 }, hi[] = { 1.25, 0, -7 };
	for(int i = 0; i < (full ? 27 : 4); ++i) v.push_back(box3({ lo[i % 3], lo[i / 3 % 3] + 10, lo[i / 9 % 3] + 20 }, { hi[(i + 1) % 3], hi[i / 2 % 3] + 10, hi[i / 4 % 3] + 20 }));
	v.push_back(multibox({}));
	v.push_back(multibox({ { { 0, 10, 20 }, { 1, 12, 23 } } }));
	v.push_back(multibox({ { { 0, 10, 20 }, { 1, 12, 23 } }, { { 5, 16, 27 }, { 4, 12, 23 } } }));
	if(full) v.push_back(multibox({ { { 0, 10, 20 }, { 1, 12, 23 } }, { { 5, 16, 27 }, { 4, 12, 23 } }, { { 0, 10, 20 }, { 0, 12, 20 } } }));
	for(int n = 0; n < 3; ++n) for(auto const& p : POLYS) for(double e : { 20.0, -31.5 }) {
		if(!full && &p != &POLYS[0] && &p != &POLYS[3] && e < 0) continue;
		for(double l : { 0.0, 2.0, -3.0 }) v.push_back(linpoly3(n, e, l, p));
		v.push_back(polygon3(n, e, p));
	}
	for(double r : { 0.5, 3.0 }) for(int n = 0; n < 3; ++n) {
		v.push_back(sphere({ n * 10.0, 3.0 - n, 40 }, r));
		for(double l : { 2.0, -8.0 }) v.push_back(cylinder(n, { 1, 20, 50 }, l, r));
	}
	if(full) { // Long ones.
		vector<std::pair<V3, V3>> boxes;
		vector<V3> path;
		vector<V2> saw, circle;
		for(int k = 0; k < 40; ++k) {
			boxes.push_back({ { k * 3.0, 10.0 - k, 20.0 + k % 5 }, { k * 3.0 + 1, 12.5 + k, 23 } });
			path.push_back({ k * 1.5, 10.0 + k % 3, 20.0 - k * 0.25 });
			saw.push_back({ (double) k, 5.0 + k % 2 * (1 + k % 7) });
			circle.push_back({ k < 20 ? k * 2.0 : 78 - k * 2.0, k < 20 ? -(double) (k % 4) : 3.0 + k % 6 });
		}
		saw.push_back({ 40, -1 });
		saw.push_back({ -1, -1.5 });
		v.push_back(multibox(boxes));
		v.push_back(curve(path));
		for(int n = 0; n < 3; ++n) for(auto const& p : { saw, circle }) {
			v.push_back(polygon3(n, 7, p));
			v.push_back(linpoly3(n, 7, -2, p));
		}
	}
	v.push_back(point3({ 1, 2, 3 }));
	v.push_back(point3({ -1.5, 2, 1e-3 }));
	V3 const cv[] = { { 0, 10, 20 }, { 5, 10, 20 }, { 5, 17, 20 }, { 2, 13, 26 }, { -3, 19, 15 } };
	for(int n = 1; n <= (full ? 4 : 3); ++n) {
		int total = 1;
		for(int k = 0; k < n; ++k) total *= 5;
		for(int i = 0; i < total; i += full ? 1 : 7) {
			vector<V3> p;
			bool repeat = false;
			for(int k = 0, j = i; k < n; ++k, j /= 5) { if(!p.empty() && p.back() == cv[j % 5]) repeat = true; p.push_back(cv[j % 5]); }
			if(!repeat) v.push_back(curve(p));
		}
	}
	return v;
}
vector<Prim> unsupported() {
	vector<Prim> v;
	for(string t : { "Polyhedron", "PolyhedronReader", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "User-Defined" }) {
		Prim p { "<" + t + "%P/>", {} };
		p.unsupported = t;
		v.push_back(p);
	}
	for(string t : { "Box", "LinPoly", "Sphere" }) {
		Prim p { "<" + t + "%P><P1 X=\"0\" Y=\"0\" Z=\"0\"/><P2 X=\"1\" Y=\"1\" Z=\"1\"/><Transformation><Rotate_Z Argument=\"1\"/></Transformation></" + t + ">", {} };
		p.unsupported = "Transformed " + t;
		v.push_back(p);
	}
	V3 const ends[] = { { 1, 1, 0 }, { 0, 2, 1 }, { 3, 0, 1 }, { 1, 1, 1 } };
	for(auto const& e : ends) {
		Prim p { "<Cylinder%P Radius=\"1\">" + xyz3("P1", { 0, 0, 0 }) + xyz3("P2", e) + "</Cylinder>", {} };
		p.unsupported = "Cylinder (with diagonal axis)";
		v.push_back(p);
	}
	return v;
}
vector<Prop> kinds() {
	vector<Prop> v;
	for(string t : { "Metal", "ConductingSheet" }) v.push_back({ t, "n" + t, "", t == "Metal" ? "" : "Conductivity=\"5e7\" Thickness=\"1e-5\"", T::CONDUCTOR, {} });
	for(string t : { "LumpedElement", "Excitation", "ProbeBox" }) v.push_back({ t, "n" + t, "", "", T::PORT, {} });
	for(string t : { "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial" })
		for(int m = 0; m < 27; ++m) {
			if(t != "Material" && m % 4) continue;
			int e = m % 3, u = m / 3 % 3, k = m / 9;
			string inner = "<Property" + string(e == 0 ? "" : e == 1 ? " Epsilon=\"1\"" : " Epsilon=\"4.2\"") + (u == 0 ? "" : u == 1 ? " Mue=\"1\"" : " Mue=\"2\"") + (k == 0 ? "" : k == 1 ? " Kappa=\"0\"" : " Kappa=\"0.01\"") + "/>";
			T type = e < 2 && u < 2 ? k < 2 ? T::AIR : T::CONDUCTOR : T::DIELECTRIC;
			v.push_back({ t, "n" + std::to_string(m), inner, "Isotropy=\"1\"", type, {} });
		}
	v.push_back({ "Material", "bare", "", "", T::AIR, {} });
	return v;
}

// ---- P06 ------------------------------------------------------------------
void lines(mc::Ctx& c) {
	struct L { string text; vector<double> v; bool ok; };
	vector<L> const alphabet {
		{ "", {}, true }, { "1", { 1 }, true }, { "-2.5,3", { -2.5, 3 }, true }, { "3,1e1,-4e-1", { 3, 10, -0.4 }, true }, { "2,2", { 2 }, true },
		{ " 1, 2 ,\n3 ", { 1, 2, 3 }, true }, { "0.1,0.30000000000000004", { 0.1, 0.3 }, true },
		{ "1,,2", {}, false }, { "1,abc", {}, false }, { ",", {}, false }, { "1;2", {}, false }, { "1 2", {}, false }, { "12mm", {}, false }, { "1,nan", {}, false }, { "inf", {}, false }, { "1e999", {}, false }, { "--1", {}, false }, { "0x10", {}, false },
	};
	int n = (int)alphabet.size();
	bool const th = c.thorough();
	for(int x = 0; x < n; ++x) for(int y = 0; y < n; ++y) for(int z = 0; z < n; ++z) for(int where = 0; where < 2; ++where) for(int on = 0; on < 4; ++on) {
		if(!th && x >= 3 && y >= 3 && z >= 3) continue;
		if(!c.take("lines")) { if(c.stop) return; continue; }
		L const* l[] = { &alphabet[x], &alphabet[y], &alphabet[z] };
		string g;
		for(int k = 0; k < 3; ++k) if(!l[k]->text.empty() || (on & 1)) g += string("<") + "XYZ"[k] + "Lines>" + l[k]->text + "</" + "XYZ"[k] + "Lines>";
		bool keep = on & 1, read = on & 2;
		c.describe((where ? "old mesh " : "fixed lines ") + g + (keep ? " integrate-old-mesh" : "") + (read ? " read-oemsh-params" : ""));
		c.run([&] {
			Doc d;
			if(where) d.grid = g; else d.oemsh = "<OpenEMSH><FixedMeshlines>" + g + "</FixedMeshlines></OpenEMSH>\n";
			d.props = metal("m", box(1, 0, 0, 0, 4, 4, 4));
			write_file("in.csx", d.str());
			auto p = base_params("in.csx");
			p.keep_old_mesh = keep;
			p.read_oemsh_params = read;
			// Lines asked by the user come in addition.
			bool cli = (x + y + z) % 2;
			if(cli) p.override_from_cli = [](domain::Params& q) { q.input_fixed_meshlines = { { Y, 2.25 }, { Z, 1 } }; };
			app::OpenEMSH e(p);
			auto res = e.parse();
			++c.traces; ++c.transitions; ++c.nontrivial;
			bool used = where ? keep : read;
			bool ok = !used || (l[0]->ok && l[1]->ok && l[2]->ok);
			if(!ok) {
				if(res) c.fail("an invalid list of lines is accepted");
				c.outcome("refused " + res.error());
				return;
			}
			if(!res) c.fail("refused: " + res.error());
			vector<std::pair<Axis, double>> want;
			if(used) for(int k = 0; k < 3; ++k) for(double v : l[k]->v) want.emplace_back((Axis)k, v);
			if(cli) { want.emplace_back(Y, 2.25); want.emplace_back(Z, 1); }
			Board& b = const_cast<Board&>(e.get_board());
			bool has = where && !(l[0]->text.empty() && l[1]->text.empty() && l[2]->text.empty());
			if(b.global_params->get_current_state().has_grid_already != has) c.fail(has ? "the old mesh is not noticed" : "an old mesh is seen where there is none");
			string w = fixed_want(want), got = fixed_lines(b);
			c.outcome(got + (has ? "has" : ""));
			if(w != got) c.fail("expected fixed lines:\n" + w + "observed:\n" + got);
		});
	}
	// Parameters saved in the file.
	int const N = 7;
	char const* const names[N] = { "ProximityLimit", "Smoothness", "dmax", "lmin", "DiagonalMinimalAngle", "DiagonalDmax", "DiagonalLmin" };
	char const* const vals[N] = { "0.25", "1.5", "7", "4", "35.5", "0.0625", "5" };
	for(int m = 0; m < 1 << N; ++m) for(int read = 0; read < 2; ++read) for(int over = 0; over < 1 << N; ++over) {
		if(!c.take("params")) { if(c.stop) return; continue; }
		string g = "<OpenEMSH><GlobalParams";
		for(int k = 0; k < N; ++k) if(m >> k & 1) g += string(" ") + names[k] + "=\"" + vals[k] + "\"";
		g += "/></OpenEMSH>\n";
		c.describe(g + (read ? "read" : "not read") + " overridden " + std::to_string(over));
		c.run([&] {
			Doc d;
			d.oemsh = g;
			write_file("in.csx", d.str());
			auto p = base_params("in.csx");
			p.read_oemsh_params = read;
			p.override_from_cli = [&](domain::Params& q) {
				if(over & 1) q.proximity_limit = 3;
				if(over & 2) q.smoothness = 1.25;
				if(over & 4) q.dmax = 11;
				if(over & 8) q.lmin = 9;
				if(over & 16) q.consecutive_diagonal_minimal_angle = 12;
				if(over & 32) q.diagonal_dmax = 0.5;
				if(over & 64) q.diagonal_lmin = 3;
			};
			app::OpenEMSH e(p);
			auto res = e.parse();
			++c.traces; ++c.transitions; ++c.nontrivial;
			if(!res) c.fail("refused: " + res.error());
			auto const& s = e.get_board().global_params->get_current_state();
			domain::Params def;
			auto flat = [](domain::Params const& q) { return std::array<double, N> { q.proximity_limit, q.smoothness, q.dmax, (double)q.lmin, q.consecutive_diagonal_minimal_angle, q.diagonal_dmax, (double)q.diagonal_lmin }; };
			auto want = flat(def), got = flat(s);
			double const mine[N] = { 3, 1.25, 11, 9, 12, 0.5, 3 };
			string o;
			for(int k = 0; k < N; ++k) {
				// How the file spells what concerns diagonals is up to the writer (W05).
				if(k >= 4 && read && (m >> k & 1) && !(over >> k & 1)) continue;
				if(read && (m >> k & 1)) want[k] = atof(vals[k]);
				if(over >> k & 1) want[k] = mine[k];
				if(want[k] != got[k]) c.fail(string(names[k]) + " is " + num(got[k]) + " instead of " + num(want[k]));
				o += num(got[k]) + " ";
			}
			c.outcome(o);
		});
	}
}

// ---- P04 --------------------------------------------------------------------
void malformed(mc::Ctx& c) {
	bool const th = c.thorough();
	vector<Prop> all { { "Metal", "m", "", "", T::CONDUCTOR, {} }, { "Material", "d", "<FillColor R=\"1\" G=\"2\" B=\"3\" a=\"4\"/><Property Epsilon=\"4\"/>", "Isotropy=\"1\"", T::DIELECTRIC, {} } };
	all[0].prims = { { box3({ 0, 0, 0 }, { 8, 6, 4 }), 1 }, { multibox({ { { 10, 0, 0 }, { 14, 4, 2 } } }), 2 }, { polygon3(2, 5, POLYS[0]), 1 }, { sphere({ 3, 3, 12 }, 3), 1 }, { point3({ 1, 2, 3 }), 1 } };
	all[1].prims = { { linpoly3(1, 0, 2, POLYS[3]), 1 }, { cylinder(2, { 1, 20, 5 }, 2, 3), 1 }, { curve({ { 0, 10, 20 }, { 5, 10, 20 }, { 5, 17, 26 } }), 1 } };
	Doc d;
	d.props = xml(all);
	d.grid = "<XLines>0,1,2</XLines><YLines/><ZLines>3</ZLines>";
	d.background = "<BackgroundMaterial Epsilon=\"1\" Kappa=\"0\"/>\n";
	d.oemsh = "<OpenEMSH><GlobalParams ProximityLimit=\"1\" Smoothness=\"2\" dmax=\"2.5\" lmin=\"2\"/><FixedMeshlines><XLines>1,2</XLines></FixedMeshlines></OpenEMSH>\n";
	string const text = d.str();
	auto parse = [&](string const& t) {
		write_file("in.csx", t);
		auto p = base_params("in.csx");
		p.keep_old_mesh = true;
		app::OpenEMSH e(p);
		auto r = e.parse();
		++c.traces; ++c.transitions;
		c.outcome(r ? "accepted " + std::to_string(e.get_board().get_polygons(XY).size()) : "refused " + r.error());
		return r.has_value();
	};
	// A file cut anywhere (an interrupted copy).
	size_t const end = text.rfind("</openEMS>") + 10;
	for(size_t i = 0; i < end; ++i) {
		if(!c.take("cut")) { if(c.stop) return; continue; }
		c.describe("cut after byte " + std::to_string(i) + ": ..." + text.substr(i < 40 ? 0 : i - 40, std::min<size_t>(i, 40)));
		c.run([&] { ++c.nontrivial; if(parse(text.substr(0, i))) c.fail("a file cut in the middle is accepted"); });
	}
	// A damaged byte, a removed one, a doubled one.
	char const raw[] = "<>\"'&/= \0\n0-9eXx,.\x80\xff;!?[]";
	string const bytes(raw, sizeof raw - 1);
	for(size_t i = 0; i < text.size(); ++i) for(size_t k = 0; k < bytes.size() + 2; ++k) {
		if(!th && (i + k) % 3) continue;
		if(!c.take("byte")) { if(c.stop) return; continue; }
		c.describe("byte " + std::to_string(i) + " change " + std::to_string(k));
		c.run([&] {
			string t = text;
			if(k < bytes.size()) t[i] = bytes[k];
			else if(k == bytes.size()) t.erase(i, 1);
			else t.insert(i, 1, t[i]);
			++c.nontrivial;
			parse(t);
		});
	}
	// Attributes and elements that are missing, empty, doubled or odd.
	vector<std::pair<size_t, size_t>> attrs, values, elems;
	for(size_t i = 0; (i = text.find('=', i)) != string::npos; ++i) {
		if(text[i + 1] != '"') continue;
		size_t b = text.rfind(' ', i), e = text.find('"', i + 2);
		attrs.emplace_back(b, e + 1);
		values.emplace_back(i + 2, e);
	}
	for(size_t i = 0; (i = text.find('<', i)) != string::npos; ++i) {
		if(text[i + 1] == '/' || text[i + 1] == '?') continue;
		size_t e = text.find('>', i);
		if(text[e - 1] == '/') { elems.emplace_back(i, e + 1); continue; }
		string tag = text.substr(i + 1, text.find_first_of(" >", i) - i - 1);
		int depth = 0;
		for(size_t j = i; j < text.size(); ++j) { // matching end
			if(text.compare(j, tag.size() + 1, "<" + tag) == 0 && string(" >/").find(text[j + tag.size() + 1]) != string::npos) ++depth;
			if(text.compare(j, tag.size() + 3, "</" + tag + ">") == 0 && --depth == 0) { elems.emplace_back(i, j + tag.size() + 3); break; }
		}
	}
	char const* const odd[] = { "", "abc", "nan", "inf", "-inf", "1e400", "-1", "0", "99999999999999999999", "1e-320", "0x10", "1,2", "3", "7" };
	for(auto const& [b, e] : values) for(auto const* o : odd) {
		if(!c.take("value")) { if(c.stop) return; continue; }
		c.describe("value " + text.substr(b, e - b) + " of" + text.substr(text.rfind(' ', b), b - text.rfind(' ', b)) + " replaced by " + o);
		c.run([&] { ++c.nontrivial; string t = text; t.replace(b, e - b, o); parse(t); });
	}
	auto cutouts = [&](auto const& v, char const* fam) {
		for(size_t i = 0; i < v.size(); ++i) for(size_t j = i; j < v.size(); ++j) for(int dup = 0; dup < 2; ++dup) {
			if(j != i && (dup || v[j].first < v[i].second)) continue;
			if(!c.take(fam)) { if(c.stop) return; continue; }
			c.describe(string(dup ? "doubled " : "without ") + text.substr(v[i].first, v[i].second - v[i].first) + (i == j ? "" : " and " + text.substr(v[j].first, v[j].second - v[j].first)));
			c.run([&] {
				++c.nontrivial;
				string t = text;
				if(dup) t.insert(v[i].first, text.substr(v[i].first, v[i].second - v[i].first));
				else {
					if(j != i) t.erase(v[j].first, v[j].second - v[j].first);
					t.erase(v[i].first, v[i].second - v[i].first);
				}
				parse(t);
			});
		}
	};
	cutouts(attrs, "attribute");
	cutouts(elems, "element");
	// Degenerate shapes, processed to the end.
	vector<Prim> deg;
	vector<V2> const odd_polys[] = { {}, { { 1, 1 } }, { { 1, 1 }, { 1, 1 } }, { { 0, 0 }, { 4, 0 } }, { { 0, 0 }, { 4, 4 } }, { { 0, 0 }, { 2, 2 }, { 4, 4 } }, { { 0, 0 }, { 4, 0 }, { 0, 0 }, { 4, 0 } }, { { 0, 0 }, { 4, 4 }, { 4, 0 }, { 0, 4 } }, { { 0, 0 }, { 0, 0 }, { 4, 0 }, { 4, 4 } }, { { 0, 0 }, { 4, 0 }, { 2, 0 }, { 2, 3 } } };
	for(auto const& p : odd_polys) for(int n = 0; n < 3; ++n) {
		deg.push_back(polygon3(n, 1, p));
		deg.push_back(linpoly3(n, 1, 2, p));
		deg.push_back(linpoly3(n, 1, 0, p));
		vector<V3> cv;
		for(auto const& q : p) { V3 v; v[n] = 1; v[(n + 1) % 3] = q[0]; v[(n + 2) % 3] = q[1]; cv.push_back(v); }
		deg.push_back(curve(cv));
	}
	for(double r : { 0.0, -1.0 }) for(int n = 0; n < 3; ++n) { deg.push_back(sphere({ 1, 2, 3 }, r)); deg.push_back(cylinder(n, { 1, 2, 3 }, 4, r)); deg.push_back(cylinder(n, { 1, 2, 3 }, 0, r)); deg.push_back(cylinder(n, { 1, 2, 3 }, 0, 2)); }
	for(int m = 0; m < 8; ++m) deg.push_back(box3({ 0, 0, 0 }, { m & 1 ? 0. : 3., m & 2 ? 0. : 3., m & 4 ? 0. : 3. }));
	for(int n : { 3, 4, 255 }) { deg.push_back(polygon3(0, 1, POLYS[0])); deg.back().xml.replace(deg.back().xml.find("NormDir=\"0"), 10, "NormDir=\"" + std::to_string(n)); }
	for(size_t i = 0; i < deg.size(); ++i) for(size_t j = 0; j <= deg.size(); ++j) {
		if(!th && j < deg.size() && (i + j) % 4) continue;
		if(!c.take("degenerate")) { if(c.stop) return; continue; }
		vector<Prop> p { { "Metal", "m", "", "", T::CONDUCTOR, {} } };
		p[0].prims.push_back({ deg[i], 1 });
		if(j < deg.size()) p[0].prims.push_back({ deg[j], 1 });
		c.describe(xml(p));
		c.run([&] {
			++c.nontrivial;
			Doc d;
			d.props = xml(p);
			write_file("in.csx", d.str());
			app::OpenEMSH e(base_params("in.csx"));
			auto r = e.parse();
			++c.traces;
			if(!r) { c.outcome("refused " + r.error()); return; }
			e.run_all_steps();
			c.transitions += 15;
			string o;
			for(auto a : AllAxis) for(double v : oe::lines(e.get_board(), a)) { if(!std::isfinite(v)) c.fail("a line is not a number"); o += num(v) + " "; }
			c.outcome(o);
		});
	}
	// Saved parameters out of range: refused, or processed to the end.
	char const* const pnames[] = { "ProximityLimit", "Smoothness", "dmax", "lmin", "DiagonalDmax", "DiagonalLmin", "DiagonalMinimalAngle" };
	char const* const pvals[] = { "", "abc", "nan", "inf", "-inf", "-1", "-0.001", "0", "-0.0", "0.5", "0.999", "1", "3", "20" };
	size_t const NV = std::size(pvals), NP = std::size(pnames) * NV;
	for(size_t i = 0; i < NP; ++i) for(size_t j = i; j < NP; ++j) {
		if(j != i && j / NV == i / NV) continue;
		if(!th && j != i && (i + j) % 6) continue;
		if(!c.take("range")) { if(c.stop) return; continue; }
		string a;
		for(size_t k : std::set<size_t> { i, j }) a += string(" ") + pnames[k / NV] + "=\"" + pvals[k % NV] + "\"";
		c.describe(a);
		c.run([&] {
			++c.nontrivial;
			Doc d;
			d.oemsh = "<OpenEMSH><GlobalParams" + a + "/></OpenEMSH>\n";
			d.props = metal("m", box(1, 0, 0, 0, 6, 5, 0) + linpoly(1, 2, 0, 1, { { 8, 0 }, { 12, 3 }, { 10, 7 } }));
			write_file("in.csx", d.str());
			auto p = base_params("in.csx");
			p.read_oemsh_params = true;
			app::OpenEMSH e(p);
			auto r = e.parse();
			++c.traces; ++c.transitions;
			if(!r) { c.outcome("refused " + r.error()); return; }
			auto const q = e.get_board().global_params->get_current_state();
			if(!(q.dmax > 0) || !(q.diagonal_dmax > 0) || !(q.smoothness >= 1) || !(q.proximity_limit >= 0)) c.fail("accepted although out of range");
			e.run_all_steps();
			c.transitions += 15;
			string o;
			for(auto x : AllAxis) for(double v : oe::lines(e.get_board(), x)) { if(!std::isfinite(v)) c.fail("a line is not a number"); o += num(v) + " "; }
			c.outcome(o);
		});
	}
	// No file, a directory, an empty file, something else.
	for(int k = 0; k < 6; ++k) {
		if(!c.take("file")) { if(c.stop) return; continue; }
		c.describe("file " + std::to_string(k));
		c.run([&] {
			string const contents[] = { "", "\n", "hello", "<?xml version=\"1.0\"?>\n<html/>" };
			if(k < 4) write_file("odd", contents[k]);
			app::OpenEMSH e(base_params(k < 4 ? "odd" : k == 4 ? "missing" : "."));
			++c.traces; ++c.transitions; ++c.nontrivial;
			if(auto r = e.parse(); r) c.fail("accepted"); else c.outcome(r.error());
		});
	}
	// Coordinates that are not Cartesian.
	for(char const* cs : { "1", "2", "7" }) {
		if(!c.take("system")) { if(c.stop) return; continue; }
		c.describe(string("CoordSystem ") + cs);
		c.run([&] {
			Doc d;
			d.csx_attr = string("CoordSystem=\"") + cs + "\"";
			write_file("in.csx", d.str());
			app::OpenEMSH e(base_params("in.csx"));
			++c.traces; ++c.transitions; ++c.nontrivial;
			if(auto r = e.parse(); r) c.fail("accepted"); else c.outcome(r.error());
		});
	}
}

void body(mc::Ctx& c) {
	Logger::singleton().register_sink(Logger::id("events"), std::make_unique<Events>());
	bool const th = c.thorough();
	string const& id = c.prop;
	auto one = [&](Prim const& p, std::optional<unsigned> prio = 1) { return Prop { "Metal", "m", "", "", T::CONDUCTOR, { { p, prio } } }; };
	if(id == "P01") {
		auto v = prims(true);
		for(auto const& p : v) for(int bare = 0; bare < 2; ++bare) {
			if(!c.take("one")) { if(c.stop) return; continue; }
			check_doc(c, { one(p) }, {}, {}, "", bare);
		}
		auto w = prims(th);
		for(auto const& p : w) for(auto const& q : w) for(int split = 0; split < 2; ++split) {
			if(!c.take("two")) { if(c.stop) return; continue; }
			Prop a = one(p), b = { "Material", "d", "<Property Epsilon=\"3\"/>", "", T::DIELECTRIC, {} };
			(split ? b : a).prims.push_back({ q, 3 });
			check_doc(c, { a, b }, {});
		}
	} else if(id == "P02") {
		auto ks = kinds();
		auto v = prims(false);
		std::optional<unsigned> const prios[] = { std::nullopt, 0, 1, 77, 4294967295u };
		for(auto const& k : ks) for(size_t i = 0; i < v.size(); i += th ? 1 : 9) for(auto pr : prios) {
			if(!c.take("kind")) { if(c.stop) return; continue; }
			Prop p = k;
			p.prims = { { v[i], pr } };
			check_doc(c, { p }, {});
		}
		for(auto const& k : ks) for(auto const& l : ks) {
			if(!c.take("kinds")) { if(c.stop) return; continue; }
			Prop p = k, q = l;
			q.name = "other";
			p.prims = { { v[0], 1 }, { v[1], 2 } };
			q.prims = { { v[2], 7 } };
			check_doc(c, { p, q }, {});
		}
		for(auto const& k : ks) {
			if(k.tag != "Material" || k.name == "bare") continue;
			for(int child = 0; child < 2; ++child) {
				if(!c.take("background")) { if(c.stop) return; continue; }
				string in = "<BackgroundMaterial" + k.inner.substr(9) + "\n";
				Prop m = one(v[0]);
				if(child) check_doc(c, { m, k }, {}, k.type, in); else check_doc(c, { m }, {}, k.type, in);
			}
		}
	} else if(id == "P03") {
		auto v = prims(true);
		for(auto const& p : v) for(int m = 0; m < 8; ++m) {
			if(!c.take("planes")) { if(c.stop) return; continue; }
			check_doc(c, { one(p) }, { !(m & 1), !(m & 2), !(m & 4) }, {}, "", false, p.xml.starts_with("<Point") || p.fixed.empty());
		}
		auto w = prims(false);
		for(auto const& p : w) for(auto const& q : w) for(int m = 0; m < 8; ++m) {
			if(!th && (c.seq % 3)) { ++c.seq; continue; }
			if(!c.take("planes2")) { if(c.stop) return; continue; }
			Prop a = one(p);
			a.prims.push_back({ q, 1 });
			bool f = (p.xml.starts_with("<Point") || p.fixed.empty()) && (q.xml.starts_with("<Point") || q.fixed.empty());
			check_doc(c, { a }, { !(m & 1), !(m & 2), !(m & 4) }, {}, "", false, f);
		}
	} else if(id == "P05") {
		auto u = unsupported();
		auto v = prims(false);
		vector<Prop> up;
		for(string t : { "DumpBox", "ResBox", "DiscMaterial", "Unknown" }) up.push_back({ t, "u" + t, "", "", std::nullopt, {} });
		for(size_t i = 0; i < u.size(); ++i) for(size_t j = 0; j < u.size(); ++j) for(size_t k = 0; k < v.size(); k += th ? 3 : 40) for(int order = 0; order < 6; ++order) {
			if(!c.take("primitives")) { if(c.stop) return; continue; }
			Prim const* x[] = { &u[i], &u[j], &v[k] };
			int const perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
			Prop a = one(*x[perm[order][0]]), b { "Material", "d", "", "", T::AIR, {} };
			a.prims.push_back({ *x[perm[order][1]], 1 });
			b.prims.push_back({ *x[perm[order][2]], 1 });
			check_doc(c, { a, b }, {});
		}
		for(int m = 0; m < 16; ++m) for(size_t i = 0; i < u.size() + v.size(); i += th || m < 2 ? 1 : 7) {
			if(!c.take("properties")) { if(c.stop) return; continue; }
			vector<Prop> ps { one(v[0]) };
			for(int k = 0; k < 4; ++k) if(m >> k & 1) { ps.push_back(up[k]); ps.back().prims.push_back({ i < u.size() ? u[i] : v[i - u.size()], 1 }); }
			ps.push_back(one(i < u.size() ? u[i] : v[i - u.size()]));
			ps.back().name = "last";
			check_doc(c, ps, {});
		}
		for(auto const& p : prims(true)) { // An empty Transformation is none.
			if(p.xml.starts_with("<Point") || p.xml.starts_with("<MultiBox%P></")) continue;
			if(!c.take("untransformed")) { if(c.stop) return; continue; }
			Prim q = p;
			q.xml.insert(q.xml.rfind("</"), "<Transformation/>");
			check_doc(c, { one(q) }, {});
		}
	} else if(id == "P06") lines(c);
	else if(id == "P04") malformed(c);
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
