// Exact integer geometry: the reference the real geometry code is compared with.
#pragma once
#include <algorithm>
#include <cstdlib>
#include <string>
#include <utility>
#include <vector>

namespace ex {

struct P { long x, y; bool operator==(P const&) const = default; bool operator<(P const& o) const { return x != o.x ? x < o.x : y < o.y; } };
struct H { long x, y, w = 1; H(long x, long y, long w = 1) : x(x), y(y), w(w) {} H(P p) : x(p.x), y(p.y) {} }; // x/w, y/w

inline int sgn(__int128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int orient(P a, P b, H p) { return sgn((__int128)(b.x - a.x) * (p.y - a.y * p.w) - (__int128)(b.y - a.y) * (p.x - a.x * p.w)); }
inline bool on_segment(P a, P b, H p) {
	if(orient(a, b, p)) return false;
	return sgn((__int128)(p.x - a.x * p.w) * (p.x - b.x * p.w) + (__int128)(p.y - a.y * p.w) * (p.y - b.y * p.w)) <= 0;
}

enum Where { OUT, ON, IN };
using Poly = std::vector<P>;

inline Where where(Poly const& poly, H p) {
	bool in = false;
	for(size_t i = 0, n = poly.size(); i < n; ++i) {
		P a = poly[i], b = poly[(i + 1) % n];
		if(on_segment(a, b, p)) return ON;
		bool above_a = a.y * p.w > p.y, above_b = b.y * p.w > p.y;
		if(above_a != above_b) {
			int o = orient(a, b, p);
			if(b.y > a.y ? o > 0 : o < 0) in = !in;
		}
	}
	return in ? IN : OUT;
}

inline long area2(Poly const& p) {
	long s = 0;
	for(size_t i = 0, n = p.size(); i < n; ++i) s += p[i].x * p[(i + 1) % n].y - p[(i + 1) % n].x * p[i].y;
	return s;
}

// Two segments: how do they relate?
enum Rel { APART, CROSSING, COLINEAR, OVERLAPPING };
inline Rel relation(P a, P b, P c, P d) {
	int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
	bool touch = on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b);
	if(!o1 && !o2 && !o3 && !o4) return touch ? OVERLAPPING : COLINEAR;
	if(touch) return CROSSING;
	return o1 != o2 && o3 != o4 && o1 && o2 && o3 && o4 ? CROSSING : APART;
}

inline bool simple(Poly const& p) { // No two non-adjacent edges meet, adjacent ones meet at their vertex only.
	size_t n = p.size();
	for(size_t i = 0; i < n; ++i)
		for(size_t j = i + 1; j < n; ++j) {
			P a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
			if(a == b || c == d) return false;
			Rel r = relation(a, b, c, d);
			if(j == i + 1 || (i == 0 && j == n - 1)) {
				if(r == OVERLAPPING) {
					// Straight continuation is fine, folding back is not.
					P v = j == i + 1 ? b : a, u = j == i + 1 ? a : b, w = j == i + 1 ? d : c;
					if((u.x - v.x) * (w.x - v.x) + (u.y - v.y) * (w.y - v.y) > 0) return false;
				}
				if(n == 3) continue;
			} else if(r == CROSSING || r == OVERLAPPING) return false;
		}
	return area2(p) != 0;
}

struct Frac { // den > 0
	long n, d;
	Frac(long a, long b) : n(b < 0 ? -a : a), d(std::labs(b)) {}
	bool operator<(Frac const& o) const { return (__int128)n * o.d < (__int128)o.n * d; }
	bool operator==(Frac const& o) const { return (__int128)n * o.d == (__int128)o.n * d; }
};

// Parameters, along a..b, at which the situation relatively to segment c..d may change.
inline void cuts(P a, P b, P c, P d, std::vector<Frac>& out) {
	long ux = b.x - a.x, uy = b.y - a.y, vx = d.x - c.x, vy = d.y - c.y;
	long det = ux * vy - uy * vx;
	auto add = [&](Frac f) { if(!(f < Frac(0, 1)) && !(Frac(1, 1) < f)) out.push_back(f); };
	if(det) {
		Frac t((c.x - a.x) * vy - (c.y - a.y) * vx, det), u((c.x - a.x) * uy - (c.y - a.y) * ux, det);
		if(!(u < Frac(0, 1)) && !(Frac(1, 1) < u)) add(t);
	} else if(!orient(a, b, c)) {
		long l = ux * ux + uy * uy;
		for(P p : { c, d }) add(Frac((p.x - a.x) * ux + (p.y - a.y) * uy, l));
	}
}

inline H at_mid(P a, P b, Frac s, Frac t) { // Point of a..b at (s + t) / 2
	long n = s.n * t.d + t.n * s.d, d = 2 * s.d * t.d;
	return H(a.x * d + (b.x - a.x) * n, a.y * d + (b.y - a.y) * n, d);
}

inline char normal(P a, P b, long area) { // l, r, d, u or - : where the outside is
	if(!area || (a.x != b.x && a.y != b.y) || a == b) return '-';
	bool ccw = area > 0;
	if(a.y == b.y) return (b.x > a.x) == ccw ? 'd' : 'u';
	return (b.y > a.y) == ccw ? 'r' : 'l';
}

inline std::string str(Poly const& p) { std::string o; for(P q : p) o += "(" + std::to_string(q.x) + "," + std::to_string(q.y) + ")"; return o; }

} // namespace ex
