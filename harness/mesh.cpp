// M01..M06: mesh lines produced between meshline policies, for every small
// configuration of policies on an axis and of global parameters.
#include "mc.hpp"
#include "corpus.hpp"
#include "domain/conflict_manager.hpp"
#include "domain/meshline_policy_manager.hpp"
#include <algorithm>
#include <map>

using namespace oe;
using std::string;
using std::vector;
using P = MeshlinePolicy::Policy;
using N = MeshlinePolicy::Normal;

namespace {

struct Kind { P p; N n; char const* name; };
constexpr Kind kinds[] = {
	{ P::ONELINE, N::NONE, "ONELINE" },
	{ P::HALFS, N::NONE, "HALFS" },
	{ P::THIRDS, N::MIN, "THIRDS/MIN" },
	{ P::THIRDS, N::MAX, "THIRDS/MAX" },
};

struct Item { double x; int k; bool on = true; };
struct Setup { double prox, sm; size_t lmin; double dmax; };

struct World {
	std::shared_ptr<GlobalParams> g;
	std::shared_ptr<ConflictManager> cm;
	std::shared_ptr<MeshlinePolicyManager> m;
	explicit World(Setup const& s) {
		fresh();
		auto* t = Caretaker::singleton().get_history_root();
		Params p;
		p.proximity_limit = s.prox; p.smoothness = s.sm; p.lmin = s.lmin; p.dmax = s.dmax;
		g = std::make_shared<GlobalParams>(p, t);
		cm = std::make_shared<ConflictManager>(t);
		m = std::make_shared<MeshlinePolicyManager>(g.get(), t);
		cm->init(m.get());
		m->init(cm.get());
		for(std::shared_ptr<IOriginator> o : { std::shared_ptr<IOriginator>(g), std::shared_ptr<IOriginator>(cm), std::shared_ptr<IOriginator>(m) })
			Caretaker::singleton().take_care_of(o);
	}
};

string text(Setup const& s, vector<Item> const& v, Axis a) {
	string o = string("axis ") + name(a) + " proximity_limit=" + num(s.prox) + " smoothness=" + num(s.sm) + " lmin=" + std::to_string(s.lmin) + " dmax=" + num(s.dmax) + ";";
	for(auto const& i : v) o += " " + string(kinds[i.k].name) + "@" + num(i.x) + (i.on ? "" : "(disabled)");
	return o;
}

constexpr double tol = 1e-6;

template<class M> // A MeshlinePolicyManager or a whole Board.
void check(mc::Ctx& c, Setup const& s, M& m, Axis a) {
	string const& prop = c.prop;
	vector<std::pair<double, MeshlinePolicy const*>> pol;
	for(auto const& p : m.get_meshline_policies(a)) if(p->get_current_state().is_enabled) pol.emplace_back(p->coord.value(), p.get());
	std::sort(pol.begin(), pol.end(), [](auto const& x, auto const& y) { return x.first < y.first; });
	vector<double> l;
	for(auto const& x : m.get_meshlines(a)) l.push_back(x->coord.value());
	auto show = [&] { string o = "\nlines:"; for(double x : l) o += " " + num(x); o += "\npolicies:"; for(auto& [x, p] : pol) o += " " + num(x) + " " + oe::name(p->get_current_state().policy) + " " + oe::name(p->get_current_state().normal) + " d=" + num(p->get_current_state().d); return o; };
	auto bad = [&](string const& w) { c.fail(w + show(), prop); };

	c.outcome(std::to_string(l.size()) + (l.empty() ? "" : num(l.back() - l.front())));
	if(prop == "M01") {
		for(size_t i = 1; i < l.size(); ++i) if(!(l[i] - l[i - 1] > 1e-8)) bad("lines " + num(l[i - 1]) + " and " + num(l[i]) + " are not strictly increasing");
		for(double x : l) if(!std::isfinite(x)) bad("a line is not finite");
		if(pol.size() >= 2) {
			if(l.empty()) bad("no line at all");
			if(l.front() < pol.front().first - tol || l.back() > pol.back().first + tol) bad("a line is outside of the structure");
		}
		// Both ends of each interval are reached.
		for(size_t i = 0; i + 1 < pol.size(); ++i) {
			double lo = pol[i].first, hi = pol[i + 1].first, mid = (lo + hi) / 2;
			bool has_mid = false;
			for(double x : l) has_mid |= std::fabs(x - mid) < tol;
			if(!has_mid) bad("no line in the middle of " + num(lo) + ".." + num(hi));
		}
		for(auto& [x, p] : pol) if(p->get_current_state().policy == P::ONELINE) {
			bool has = false;
			for(double y : l) has |= std::fabs(x - y) < 1e-8;
			if(!has) bad("no line at " + num(x));
		}
		return;
	}
	if(prop == "M02") {
		for(size_t i = 1; i < l.size(); ++i) if(l[i] - l[i - 1] > s.dmax + tol) bad("space between " + num(l[i - 1]) + " and " + num(l[i]) + " exceeds dmax");
		return;
	}
	if(prop == "M05") {
		// Lines surrounding each policy.
		for(size_t i = 0; i < pol.size(); ++i) {
			double x = pol[i].first;
			auto const& st = pol[i].second->get_current_state();
			auto it = std::lower_bound(l.begin(), l.end(), x - 1e-9);
			double after = it == l.end() ? NAN : *it;
			double before = it == l.begin() ? NAN : *std::prev(it);
			if(st.policy == P::ONELINE) { if(!(std::fabs(after - x) < 1e-8)) bad("ONELINE policy has no line at " + num(x)); continue; }
			bool has_b = i > 0, has_a = i + 1 < pol.size();
			double fb = st.policy == P::HALFS ? 0.5 : st.normal == N::MIN ? 2.0 / 3 : 1.0 / 3, fa = 1 - fb;
			if(has_b && !has_a && !(std::fabs((x - before) - fb * st.d) < tol)) bad("line before " + num(x) + " is at " + num(before));
			if(has_a && !has_b && !(std::fabs((after - x) - fa * st.d) < tol)) bad("line after " + num(x) + " is at " + num(after));
			if(has_a && has_b) {
				double d = after - before;
				if(!(std::fabs((x - before) - fb * d) < tol)) bad("the cell around " + num(x) + " is split " + num((x - before) / d) + " / " + num((after - x) / d));
			}
		}
		return;
	}
	// Halves.
	for(size_t i = 0; i + 1 < pol.size(); ++i) {
		double lo = pol[i].first, hi = pol[i + 1].first, mid = (lo + hi) / 2;
		for(int side = 0; side < 2; ++side) {
			auto const* p = pol[i + side].second;
			auto const& st = p->get_current_state();
			vector<double> v; // distances from the policy
			for(double x : l) { double r = side ? hi - x : x - lo; if(r > -1e-9 && (side ? x >= mid - 1e-9 : x <= mid + 1e-9)) v.push_back(r); }
			std::sort(v.begin(), v.end());
			if(prop == "M04") {
				if(v.size() < 1 + s.lmin) bad("only " + std::to_string((int)v.size() - 1) + " lines in the half of " + num(lo) + ".." + num(hi) + " next to " + num(side ? hi : lo));
				continue;
			}
			if(prop == "M03") {
				double prev = st.d;
				for(size_t k = 1; k < v.size(); ++k) {
					double g = v[k] - v[k - 1];
					if(g > prev * s.sm + tol) bad("space " + num(g) + " follows space " + num(prev) + " going away from " + num(side ? hi : lo));
					prev = g;
				}
				c.counters[string("halves")]++;
			}
		}
	}
	if(prop == "M03") {
		// Anywhere, in both directions.
		string known;
		for(size_t k = 2; k < l.size(); ++k) {
			double g0 = l[k - 1] - l[k - 2], g1 = l[k] - l[k - 1];
			if(std::max(g0, g1) <= s.sm * std::min(g0, g1) + tol) continue;
			// Does one of both cells touch the middle of an interval?
			bool middle = false;
			for(size_t i = 0; i + 1 < pol.size(); ++i) for(size_t n = k - 2; n <= k; ++n)
				if(std::fabs(l[n] - (pol[i].first + pol[i + 1].first) / 2) < 1e-8) middle |= n == k - 1 || (n == k ? g1 < g0 : g0 < g1); // Trimmed, not extended.
			string w = "neighbour spaces " + num(g0) + " and " + num(g1) + " around " + num(l[k - 1]) + show();
			if(!middle) c.fail(w, "M03");
			if(known.empty()) known = w;
		}
		if(!known.empty()) c.fail(known, "middle-cell");
	}
}

// ------------------------------------------------------------- merging (M06)
struct Merged { double x; int k; bool operator<(Merged const& o) const { return x != o.x ? x < o.x : k < o.k; } bool operator==(Merged const& o) const = default; };

int merged_kind(int a, int b) {
	if(!a || !b) return 0;           // a fixed line stays
	if(a == b) return a;             // same rule on both
	return 1;                        // otherwise symmetrical
}

vector<Merged> reference_merge(vector<Item> const& v, double prox, int& merges) {
	vector<Merged> e;
	for(auto const& i : v) if(i.on) e.push_back({ i.x, i.k });
	merges = 0;
	while(true) {
		std::sort(e.begin(), e.end());
		int best = -1;
		for(int i = 0; i + 1 < (int)e.size(); ++i) if(best < 0 || e[i + 1].x - e[i].x < e[best + 1].x - e[best].x) best = i;
		if(best < 0 || e[best + 1].x - e[best].x > prox) return e;
		Merged a = e[best], b = e[best + 1];
		Merged r { (a.x + b.x) / 2, merged_kind(a.k, b.k) };
		if(!a.k && b.k) r.x = a.x;
		if(a.k && !b.k) r.x = b.x;
		e.erase(e.begin() + best, e.begin() + best + 2);
		e.push_back(r);
		++merges;
	}
}

int pattern_kind(int pattern, int i) {
	switch(pattern % 4) {
	case 0: return i % 4;
	case 1: return 0;
	case 2: return (i * 7 + 3) / 2 % 4;
	default: return i == 2 ? 0 : 1 + i % 2;
	}
}

void merge_once(mc::Ctx& c, double prox, vector<Item> const& v) {
	Axis a = AllAxis[c.seq % 3];
	Setup s { prox, 1.5, 2, 2.5 };
	c.describe(text(s, v, a));
	World w(s);
	for(auto const& i : v) w.m->add_meshline_policy({}, a, kinds[i.k].p, kinds[i.k].n, i.x, i.on);
	w.m->detect_and_solve_too_close_meshline_policies(a);
	int merges;
	auto want = reference_merge(v, prox, merges);
	vector<Merged> got;
	for(auto const& p : w.m->get_meshline_policies(a)) {
		auto const& st = p->get_current_state();
		if(st.is_enabled) got.push_back({ p->coord.value(), st.policy == P::ONELINE ? 0 : st.policy == P::HALFS ? 1 : st.normal == N::MIN ? 2 : 3 });
	}
	std::sort(got.begin(), got.end());
	auto show = [](vector<Merged> const& m) { string o; for(auto const& x : m) o += " " + string(kinds[x.k].name) + "@" + num(x.x); return o; };
	if(merges) ++c.nontrivial;
	c.transitions += merges; ++c.traces;
	c.outcome(show(got));
	if(got != want) c.fail("expected policies:" + show(want) + "\nobserved policies:" + show(got), "M06");
	auto const& conflicts = w.cm->get_too_close_meshline_policies(a);
	if((int)conflicts.size() != merges) c.fail("expected " + std::to_string(merges) + " conflicts, got " + std::to_string(conflicts.size()), "M06");
	for(auto const& x : conflicts) {
		if(!x->get_current_state().is_solved || !x->get_current_state().meshline_policy) c.fail("a proximity conflict is left unsolved", "M06");
		for(auto* p : x->meshline_policies) if(p->get_current_state().is_enabled) c.fail("a replaced policy is still enabled", "M06");
	}
	for(auto b : AllAxis) if(b != a && (!w.m->get_meshline_policies(b).empty() || !w.cm->get_too_close_meshline_policies(b).empty())) c.fail("another axis was modified", "M06");
}

void proximity(mc::Ctx& c) {
	bool const th = c.thorough();
	vector<double> const gaps = { 0, 0.25, 0.5, 1, 1.5 };
	int const maxn = th ? 5 : 4;
	for(double prox : { 0.0, 0.5, 1.0, 2.0 })
		for(int n = 1; n <= maxn; ++n) {
			int ng = 1, nk = 1;
			for(int i = 1; i < n; ++i) ng *= gaps.size();
			for(int i = 0; i < n; ++i) nk *= 4;
			for(int order = 0; order < (n > 1 ? 3 : 1); ++order)
				for(int g = 0; g < ng; ++g)
					for(int k = 0; k < nk; ++k) {
						if(!c.take("merge")) { if(c.stop) return; continue; }
						c.run([&] {
							vector<Item> v;
							double x = -2;
							for(int i = 0, gg = g, kk = k; i < n; ++i) {
								if(i) { x += gaps[gg % gaps.size()]; gg /= gaps.size(); }
								v.push_back({ x, kk % 4 });
								kk /= 4;
							}
							if(order == 1) std::reverse(v.begin(), v.end());
							if(order == 2) std::rotate(v.begin(), v.begin() + n / 2, v.end());
							merge_once(c, prox, v);
						});
					}
		}
	// Longer rows of evenly spaced policies: every subset of the positions.
	int const long_n = th ? 12 : 10;
	for(double prox : { 0.5, 1.0, 2.0 })
		for(double space : { 0.5, 1.0 })
			for(int pattern = 0; pattern < 4; ++pattern)
				for(int order = 0; order < 3; ++order)
					for(int mask = 1; mask < 1 << long_n; ++mask) {
						if(!c.take("long")) { if(c.stop) return; continue; }
						c.run([&] {
							vector<Item> v;
							for(int i = 0; i < long_n; ++i) if(mask >> i & 1) v.push_back({ -2 + i * space, pattern_kind(pattern, i) });
							if(order == 1) std::reverse(v.begin(), v.end());
							if(order == 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end());
							merge_once(c, prox, v);
						});
					}
	// Some policies are disabled from the beginning: each position has none, an
	// enabled one, a disabled one, or a disabled and an enabled one.
	int const dis_n = th ? 6 : 5;
	int combos = 1;
	for(int i = 0; i < dis_n; ++i) combos *= 4;
	for(double prox : { 0.5, 1.0 })
		for(int pattern = 0; pattern < 4; ++pattern)
			for(int order = 0; order < 2; ++order)
				for(int n = 1; n < combos; ++n) {
					if(!c.take("disabled")) { if(c.stop) return; continue; }
					c.run([&] {
						vector<Item> v;
						for(int i = 0, nn = n; i < dis_n; ++i, nn /= 4) {
							double x = -1 + i * 0.75;
							if(nn % 4 & 2) v.push_back({ x, pattern_kind(pattern + 1, i), false });
							if(nn % 4 & 1) v.push_back({ x, pattern_kind(pattern, i), true });
						}
						if(order) std::reverse(v.begin(), v.end());
						merge_once(c, prox, v);
					});
				}
}

void body(mc::Ctx& c) {
	if(c.prop == "M06") return proximity(c);
	bool const th = c.thorough();
	vector<double> gaps = th ? vector<double> { 0.3, 1, 1.7, 2.5, 4, 7, 13, 30 } : vector<double> { 0.3, 1, 1.7, 2.5, 7, 20 };
	vector<Setup> setups;
	for(double sm : { 1.0, 1.1, 1.5, 2.0 }) for(size_t lmin : { 0, 1, 2, 5 }) for(double dmax : { 0.7, 2.5, 10.0 }) setups.push_back({ 1, sm, lmin, dmax });
	int const maxn = th ? 4 : 3;
	for(auto const& s : setups)
		for(int n = 1; n <= maxn; ++n) {
			int ng = 1, nk = 1;
			for(int i = 1; i < n; ++i) ng *= gaps.size();
			for(int i = 0; i < n; ++i) nk *= 4;
			for(int g = 0; g < ng; ++g)
				for(int k = 0; k < nk; ++k) {
					if(!c.take("policies")) { if(c.stop) return; continue; }
					vector<Item> v;
					double x = -3;
					for(int i = 0, gg = g, kk = k; i < n; ++i) {
						if(i) { x += gaps[gg % gaps.size()]; gg /= gaps.size(); }
						v.push_back({ x, kk % 4 });
						kk /= 4;
					}
					Axis a = AllAxis[c.seq % 3];
					c.describe(text(s, v, a));
					c.run([&] {
						World w(s);
						for(auto const& i : v) w.m->add_meshline_policy({}, a, kinds[i.k].p, kinds[i.k].n, i.x);
						w.m->detect_intervals(a);
						w.m->mesh(a);
						++c.traces; c.transitions += n;
						if(n > 1) ++c.nontrivial;
						check(c, s, *w.m, a);
					});
				}
		}
	// Among disabled policies.
	for(auto const& s : { Setup { 1, 1.5, 2, 2.5 }, Setup { 1, 2, 2, 2.5 }, Setup { 1, 1.1, 5, 0.7 }, Setup { 1, 1, 0, 10 } })
		for(double gap : { 1.0, 2.5, 7.0 })
			for(int pattern = 0; pattern < 4; ++pattern)
				for(int order = 0; order < 2; ++order)
					for(int n = 1; n < 1024; ++n) {
						if(!c.take("disabled")) { if(c.stop) return; continue; }
						vector<Item> v;
						for(int i = 0, nn = n; i < 5; ++i, nn /= 4) {
							double x = -3 + i * gap + (i % 2) * 0.3;
							if(nn % 4 & 2) v.push_back({ x, pattern_kind(pattern + 1, i), false });
							if(nn % 4 & 1) v.push_back({ x, pattern_kind(pattern, i), true });
						}
						if(order) std::reverse(v.begin(), v.end());
						Axis a = AllAxis[c.seq % 3];
						c.describe(text(s, v, a));
						c.run([&] {
							World w(s);
							int on = 0;
							for(auto const& i : v) { w.m->add_meshline_policy({}, a, kinds[i.k].p, kinds[i.k].n, i.x, i.on); on += i.on; }
							w.m->detect_intervals(a);
							w.m->mesh(a);
							++c.traces; c.transitions += v.size();
							if(on > 1 && (int)v.size() > on) ++c.nontrivial;
							check(c, s, *w.m, a);
							auto const all = w.m->get_meshline_policies(a);
							if(all.size() != v.size()) c.fail("a policy disappeared", c.prop);
							for(size_t i = 0; i < v.size(); ++i) if(all[i]->get_current_state().is_enabled != v[i].on) c.fail("a policy has been enabled or disabled", c.prop);
						});
					}
	// Whole documents.
	for(auto const& s : setups)
		for(auto const& d : corpus()) {
			if(!c.take("documents")) { if(c.stop) return; continue; }
			c.describe("document " + d.name + ", " + text(s, {}, X));
			c.run([&] {
				write_file("doc.csx", d.doc.str());
				fresh();
				auto r = ParserFromCsx::run("doc.csx", {}, [&](Params& p) { p.proximity_limit = s.prox; p.smoothness = s.sm; p.lmin = s.lmin; p.dmax = s.dmax; p.diagonal_dmax = s.dmax / 3; });
				if(!r) c.fail(r.error());
				run_all(*r.value());
				++c.traces; c.transitions += 15; ++c.nontrivial;
				for(auto a : AllAxis) check(c, s, *r.value(), a);
			});
		}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
