// A01..A05: the application driver (steps, going back, undo/redo, edits) on
// real documents, against a reference that only ever runs forward on a fresh
// document and keeps its own timeline.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <filesystem>
#include <functional>
#include <map>

using namespace oe;
using std::string;
using std::vector;
using app::OpenEMSH;
using app::Step;

namespace {

constexpr int NSTEP = 15;

// Meshing time grows with log(smoothness); what is checked here does not depend on it.
void faster(Params& p) { p.smoothness = 1.1; }

// ------------------------------------------------------------------- edits
// Same as what the edition dialogs do: the state that is displayed is modified,
// then committed at the timepoint before the step it is to be recomputed from.
struct Edit {
	char const* name;
	int from;
	// Prepares the edit from what is displayed now; null when not applicable.
	std::function<std::function<void ()> (Board const&)> prepare;
};

template<class T> T* nth(vector<std::shared_ptr<T>> const& v, size_t i) { return i < v.size() ? v[i].get() : nullptr; }

vector<Edit> const& edits() {
	static vector<Edit> const e {
		{ "global dmax", 2, [](Board const& b) -> std::function<void ()> {
			auto* g = b.global_params.get();
			Params s = g->get_current_state();
			s.dmax = 1.5; s.lmin = 3;
			return [g, s] { g->set_next_state(s); };
		} },
		{ "global proximity+angle", 2, [](Board const& b) -> std::function<void ()> {
			auto* g = b.global_params.get();
			Params s = g->get_current_state();
			s.proximity_limit = 3; s.smoothness = 1.3; s.diagonal_dmax = 0.7; s.consecutive_diagonal_minimal_angle = 100;
			return [g, s] { g->set_next_state(s); };
		} },
		{ "edge to_mesh", 4, [](Board const& b) -> std::function<void ()> {
			for(auto p : AllPlane)
				for(auto const& poly : b.get_polygons(p))
					for(auto const& x : poly->edges)
						if(x->get_current_state().to_mesh) {
							auto* k = x.get();
							auto s = k->get_current_state();
							s.to_mesh = false;
							return [k, s] { k->set_next_state(s); };
						}
			return {};
		} },
		{ "edge to_reverse", 4, [](Board const& b) -> std::function<void ()> {
			for(auto p : { XY, YZ })
				if(!b.get_polygons(p).empty()) {
					auto* k = b.get_polygons(p).back()->edges.back().get();
					auto s = k->get_current_state();
					s.to_reverse = !s.to_reverse;
					return [k, s] { k->set_next_state(s); };
				}
			return {};
		} },
		{ "angle to_mesh", 4, [](Board const& b) -> std::function<void ()> {
			for(auto p : AllPlane)
				if(auto* k = nth(b.get_angles(p), 0)) {
					auto s = k->get_current_state();
					s.to_mesh[H] = !s.to_mesh[H];
					s.to_mesh[V] = !s.to_mesh[V];
					return [k, s] { k->set_next_state(s); };
				}
			return {};
		} },
		{ "policy disabled", 11, [](Board const& b) -> std::function<void ()> {
			for(auto a : AllAxis)
				for(auto const& x : b.get_meshline_policies(a))
					if(x->get_current_state().is_enabled) {
						auto* k = x.get();
						auto s = k->get_current_state();
						s.is_enabled = false;
						return [k, s] { k->set_next_state(s); };
					}
			return {};
		} },
		{ "policy oneline", 11, [](Board const& b) -> std::function<void ()> {
			for(auto a : { Y, Z, X })
				for(auto const& x : b.get_meshline_policies(a))
					if(x->get_current_state().is_enabled && x->get_current_state().policy != MeshlinePolicy::Policy::ONELINE) {
						auto* k = x.get();
						auto s = k->get_current_state();
						s.policy = MeshlinePolicy::Policy::ONELINE;
						s.normal = MeshlinePolicy::Normal::NONE;
						return [k, s] { k->set_next_state(s); };
					}
			return {};
		} },
		{ "interval dmax", 14, [](Board const& b) -> std::function<void ()> {
			for(auto a : AllAxis)
				if(auto* k = nth(b.get_intervals(a), 0)) {
					auto s = k->get_current_state();
					s.dmax = 0.8; s.before.lmin = 5; s.after.smoothness = 1.2;
					return [k, s] { k->set_next_state(s); };
				}
			return {};
		} },
		{ "zone dmax", 13, [](Board const& b) -> std::function<void ()> {
			for(auto a : AllAxis)
				if(auto* k = nth(b.get_conflicts_diagonal_or_circular_zones(a), 0)) {
					auto s = k->get_current_state();
					s.dmax = 0.9;
					return [k, s] { k->set_next_state(s); };
				}
			return {};
		} },
		{ "zone angle", 3, [](Board const& b) -> std::function<void ()> {
			for(auto a : AllAxis)
				if(auto* k = nth(b.get_conflicts_diagonal_or_circular_zones(a), 0)) {
					auto s = k->get_current_state();
					s.minimal_angle = 175;
					return [k, s] { k->set_next_state(s); };
				}
			return {};
		} },
	};
	return e;
}

// ------------------------------------------------------------------- model
struct Node {
	int parent;
	vector<int> path; // >= 0: step; < 0: edit -1-i, applied as displayed at the end of ...
	int annot = -1;   // step that was launched from here
};

// Path items: 0..14 a step; 100 + k: k-th applied edit instance.
struct EditInstance { int edit; vector<int> displayed; }; // path at which its dialog was open

struct Op { char k; int a; };
string str(Op o) {
	switch(o.k) {
	case 'N': return "run_next_step";
	case 'C': return "run next " + std::to_string(o.a) + " steps at once";
	case 'A': return "run the remaining steps";
	case 'P': return "previous step";
	case 'F': return "go before step " + std::to_string(o.a) + " and run from it";
	case 'U': return "undo(" + std::to_string(o.a) + ")";
	case 'R': return "redo(" + std::to_string(o.a) + ")";
	case 'E': return string("edit ") + edits()[o.a].name;
	}
	return "?";
}

struct Timeline {
	vector<Node> n { Node { -1, {} } };
	int cur = 0;
	vector<int> hist { 0 };
	int cursor = -1;
	vector<EditInstance> inst;

	int up(int node, bool self) const { for(int k = self ? node : n[node].parent; k >= 0; k = n[k].parent) if(n[k].annot >= 0) return k; return -1; }
	int next_step() const { // what remains to be run on the current path
		if(n[cur].annot >= 0) return n[cur].annot;
		int a = up(cur, false);
		return a < 0 ? 0 : n[a].annot + 1;
	}
	int steps_done() const { int d = 0; for(int i : n[cur].path) d += i < 100; return d; }
	void truncate() { if(cursor >= 0) { hist.resize(cursor + 1); cursor = -1; } }
	void child(int item) {
		truncate();
		Node c { cur, n[cur].path };
		c.path.push_back(item);
		n.push_back(c);
		cur = (int)n.size() - 1;
	}
	void step(int s) { if(n[cur].annot < 0) n[cur].annot = s; child(s); }
	void remember() {
		if((cursor >= 0 ? hist[cursor] : hist.back()) == cur) return;
		truncate();
		hist.push_back(cur);
	}
	int back() const { return cursor >= 0 ? cursor : (int)hist.size() - (hist.back() == cur ? 1 : 0); }
	bool can_undo(int k) const { return k > 0 && k <= back(); }
	bool can_redo(int k) const { return k > 0 && cursor >= 0 && k < (int)hist.size() - cursor; }
	void settle(int p) { cur = hist[p]; cursor = p + 1 == (int)hist.size() ? -1 : p; }

	// Applies o; false when the interface would not offer it.
	bool apply(Op o) {
		switch(o.k) {
		case 'N': if(next_step() >= NSTEP) return false; step(next_step()); remember(); return true;
		case 'C': { int s = next_step(); if(s + o.a > NSTEP) return false; for(int i = 0; i < o.a; ++i) step(s + i); remember(); return true; }
		case 'A': { int s = next_step(); if(s >= NSTEP) return false; for(; s < NSTEP; ++s) step(s); remember(); return true; }
		case 'P': { int a = up(cur, false); if(a < 0) return false; cur = a; remember(); return true; }
		case 'F': { int k = n[cur].parent; while(k >= 0 && n[k].annot != o.a) k = n[k].parent; if(k < 0) return false; cur = k; for(int s = o.a; s < NSTEP; ++s) step(s); remember(); return true; }
		case 'U': if(!can_undo(o.a)) return false; settle(back() - o.a); return true;
		case 'R': if(!can_redo(o.a)) return false; settle(cursor + o.a); return true;
		case 'E': {
			int from = edits()[o.a].from;
			int k = n[cur].parent; while(k >= 0 && n[k].annot != from) k = n[k].parent; if(k < 0) return false;
			inst.push_back({ o.a, n[cur].path });
			cur = k;
			child(100 + (int)inst.size() - 1);
			for(int s = from; s < NSTEP; ++s) step(s);
			remember();
			return true;
		}
		}
		return false;
	}
};

string path_key(vector<int> const& p, vector<EditInstance> const& inst) {
	string s;
	for(int i : p) {
		if(i < 100) s += (char)('a' + i);
		else { s += "{" + std::to_string(inst[i - 100].edit) + "@" + path_key(inst[i - 100].displayed, inst) + "}"; }
	}
	return s;
}

// --------------------------------------------------------------- reference
struct Reference {
	string file;
	ParserFromCsx::Params pp;
	std::map<string, string> memo;
	std::uint64_t runs = 0;

	std::shared_ptr<Board> parse() {
		fresh();
		auto r = ParserFromCsx::run(file, pp, faster);
		if(!r) throw mc::Failure { "reference cannot parse: " + r.error(), "" };
		return r.value();
	}
	// Values an edit dialog commits, taken by name from what is displayed.
	struct Committed { std::function<void (Board&)> apply; };

	// Attributes only (what the dialog shows), located by position in the document.
	std::function<void (Board&)> capture(int edit, Board const& shown);

	// Expected observable state after path on a fresh document. The caller's
	// document must not be in use any more (single timepoint machinery).
	string expect(vector<int> const& path, vector<EditInstance> const& inst) {
		string key = path_key(path, inst);
		if(auto it = memo.find(key); it != memo.end()) return it->second;
		++runs;
		// Resolve edits first: each needs what was displayed.
		std::map<int, std::function<void (Board&)>> committed;
		for(int i : path)
			if(i >= 100) {
				auto b = replay(inst[i - 100].displayed, inst);
				committed[i] = capture(inst[i - 100].edit, *b);
			}
		auto b = parse();
		for(int i : path) { if(i < 100) oe::step(*b, i); else committed[i](*b); }
		return memo[key] = dump(*b);
	}
	std::shared_ptr<Board> replay(vector<int> const& path, vector<EditInstance> const& inst) {
		std::map<int, std::function<void (Board&)>> committed;
		for(int i : path)
			if(i >= 100) {
				auto b = replay(inst[i - 100].displayed, inst);
				committed[i] = capture(inst[i - 100].edit, *b);
			}
		auto b = parse();
		for(int i : path) { if(i < 100) oe::step(*b, i); else committed[i](*b); }
		return b;
	}
};

std::function<void (Board&)> Reference::capture(int edit, Board const& shown) {
	switch(edit) {
	case 0: { Params s = shown.global_params->get_current_state(); s.dmax = 1.5; s.lmin = 3; return [s](Board& b) { b.global_params->set_next_state(s); }; }
	case 1: { Params s = shown.global_params->get_current_state(); s.proximity_limit = 3; s.smoothness = 1.3; s.diagonal_dmax = 0.7; s.consecutive_diagonal_minimal_angle = 100; return [s](Board& b) { b.global_params->set_next_state(s); }; }
	case 2: {
		for(auto p : AllPlane)
			for(size_t i = 0; i < shown.get_polygons(p).size(); ++i)
				for(size_t k = 0; k < shown.get_polygons(p)[i]->edges.size(); ++k) {
					auto const& s = shown.get_polygons(p)[i]->edges[k]->get_current_state();
					if(!s.to_mesh) continue;
					bool rev = s.to_reverse;
					return [=](Board& b) { auto& e = b.get_polygons(p)[i]->edges[k]; auto t = e->get_current_state(); t.to_mesh = false; t.to_reverse = rev; e->set_next_state(t); };
				}
		return [](Board&) {};
	}
	case 3: {
		for(auto p : { XY, YZ })
			if(!shown.get_polygons(p).empty()) {
				auto const& s = shown.get_polygons(p).back()->edges.back()->get_current_state();
				bool rev = !s.to_reverse, m = s.to_mesh;
				return [=](Board& b) { auto& e = b.get_polygons(p).back()->edges.back(); auto t = e->get_current_state(); t.to_mesh = m; t.to_reverse = rev; e->set_next_state(t); };
			}
		return [](Board&) {};
	}
	case 4: {
		for(auto p : AllPlane)
			if(auto* k = nth(shown.get_angles(p), 0)) {
				bool h = !k->get_current_state().to_mesh[H], v = !k->get_current_state().to_mesh[V];
				return [=](Board& b) { auto& e = b.get_angles(p)[0]; auto t = e->get_current_state(); t.to_mesh[H] = h; t.to_mesh[V] = v; e->set_next_state(t); };
			}
		return [](Board&) {};
	}
	case 5: case 6: {
		vector<Axis> order = edit == 5 ? vector<Axis> { X, Y, Z } : vector<Axis> { Y, Z, X };
		for(auto a : order)
			for(size_t i = 0; i < shown.get_meshline_policies(a).size(); ++i) {
				auto s = shown.get_meshline_policies(a)[i]->get_current_state();
				if(!s.is_enabled || (edit == 6 && s.policy == MeshlinePolicy::Policy::ONELINE)) continue;
				if(edit == 5) s.is_enabled = false;
				else { s.policy = MeshlinePolicy::Policy::ONELINE; s.normal = MeshlinePolicy::Normal::NONE; }
				return [=](Board& b) { auto& e = b.get_meshline_policies(a)[i]; auto t = e->get_current_state(); t.policy = s.policy; t.normal = s.normal; t.is_enabled = s.is_enabled; t.d = s.d; e->set_next_state(t); };
			}
		return [](Board&) {};
	}
	case 7: {
		for(auto a : AllAxis)
			if(auto* k = nth(shown.get_intervals(a), 0)) {
				auto s = k->get_current_state();
				double sm = s.before.smoothness; size_t al = s.after.lmin;
				return [=](Board& b) { auto& e = b.get_intervals(a)[0]; auto t = e->get_current_state(); t.dmax = 0.8; t.before.lmin = 5; t.before.smoothness = sm; t.after.lmin = al; t.after.smoothness = 1.2; e->set_next_state(t); };
			}
		return [](Board&) {};
	}
	case 8: case 9: {
		for(auto a : AllAxis)
			if(auto* k = nth(shown.get_conflicts_diagonal_or_circular_zones(a), 0)) {
				auto s = k->get_current_state();
				double dmax = edit == 8 ? 0.9 : s.dmax, ang = edit == 9 ? 175 : s.minimal_angle; size_t lmin = s.lmin;
				return [=](Board& b) { auto& e = b.get_conflicts_diagonal_or_circular_zones(a)[0]; auto t = e->get_current_state(); t.dmax = dmax; t.minimal_angle = ang; t.lmin = lmin; e->set_next_state(t); };
			}
		return [](Board&) {};
	}
	}
	return [](Board&) {};
}

// Conflict links of a hand-edited object are not part of what the user edited.
string normalize(string const& d) {
	std::istringstream in(d);
	string o, l;
	while(std::getline(in, l)) {
		if(l.starts_with(" edge") || l.starts_with("angle") || l.starts_with("interval")) {
			for(string k : { " conflicts=", " solution", " policy", " ls=" })
				if(auto p = l.find(k); p != string::npos) {
					auto e = l.find(' ', p + 1);
					l.erase(p, e == string::npos ? string::npos : e - p);
				}
		}
		if(l.starts_with("docz"))
			if(auto p = l.find(" intervals="); p != string::npos) l.erase(p);
		o += l + "\n";
	}
	return o;
}

struct Mask { bool dump = true, offers = false; bool edited = false; };

std::set<Step> steps_from(int s, int n) { std::set<Step> r; for(int i = s; i < s + n; ++i) r.insert((Step)i); return r; }

struct Explorer {
	mc::Ctx& c;
	Reference& ref;
	vector<Op> ops;
	vector<Op> start;
	int depth;
	Mask mask;
	bool pin;
	string doc;
	vector<Op> path;
	std::map<string, int> seen;

	string text() const { string s = doc + (pin ? " (displayed)" : "") + ": "; for(auto const& o : path) s += str(o) + "; "; return s; }

	void execute(Timeline const& m, bool check_all) {
		c.describe(text());
		++c.traces;
		c.transitions += path.size();
		string got;
		bool cr, cg;
		std::optional<Step> cs;
		vector<int> cu;
		{
			OpenEMSH::Params p;
			static_cast<ParserFromCsx::Params&>(p) = ref.pp;
			p.input = ref.file;
			p.override_from_cli = faster;
			OpenEMSH o(p);
			if(auto r = o.parse(); !r) c.fail("parse failed: " + r.error());
			auto& ct = Caretaker::singleton();
			Timeline t;
			for(auto const& op : path) {
				switch(op.k) {
				case 'N': o.run_next_step(); break;
				case 'C': o.run(steps_from(t.next_step(), op.a)); break;
				case 'A': if(t.next_step() == 0) o.run_all_steps(); else o.run_from_step((Step)t.next_step()); break;
				case 'P': o.go_before_previous_step(); break;
				case 'F': o.go_before((Step)op.a); o.run_from_step((Step)op.a); break;
				case 'U': ct.undo(op.a); break;
				case 'R': ct.redo(op.a); break;
				case 'E': {
					auto commit = edits()[op.a].prepare(o.get_board());
					auto from = (Step)edits()[op.a].from;
					o.go_before(from);
					if(commit) commit(); else (void)ct.make_next_timepoint();
					o.run_from_step(from);
				} break;
				}
				t.apply(op);
				if(pin) { ct.pin_current_timepoint(); (void)dump(o.get_board()); }
			}
			got = dump(o.get_board());
			cr = o.can_run_a_next_step();
			cg = o.can_go_before();
			cs = o.get_current_step();
			for(int k = 0; k < 4; ++k) cu.push_back(ct.can_undo(k) + 2 * ct.can_redo(k));
		}
		if(mask.dump) {
			string want = ref.expect(m.n[m.cur].path, m.inst);
			if(mask.edited) { want = normalize(want); got = normalize(got); }
			if(want != got) c.fail("state differs from a fresh run of the same steps:\n" + diff(want, got), "state");
		}
		if(mask.offers) {
			auto eq = [&](char const* what, int e, int g) { if(e != g) c.fail(string(what) + ": expected " + std::to_string(e) + ", got " + std::to_string(g), what); };
			eq("can_run_a_next_step", m.next_step() < NSTEP, cr);
			eq("can_go_before", m.up(m.cur, false) >= 0, cg);
			int a = m.up(m.cur, true);
			eq("get_current_step", a < 0 ? -1 : m.n[a].annot, cs ? (int)*cs : -1);
			for(int k = 0; k < 4; ++k) eq("can_undo/can_redo", m.can_undo(k) + 2 * m.can_redo(k), cu[k]);
		}
		c.outcome(doc + path_key(m.n[m.cur].path, m.inst));
	}

	string key(Timeline const& m) const {
		string s = std::to_string(m.cursor) + "|";
		for(int h : m.hist) s += path_key(m.n[h].path, m.inst) + ",";
		s += "|" + path_key(m.n[m.cur].path, m.inst) + "|" + std::to_string(m.n[m.cur].annot) + "|";
		for(int k = m.cur; k >= 0; k = m.n[k].parent) s += std::to_string(m.n[k].annot) + ".";
		return s;
	}

	void dfs(Timeline const& m, int remaining) {
		execute(m, true);
		auto [it, freshly] = seen.emplace(key(m), remaining);
		if(freshly) ++c.states;
		else { if(it->second >= remaining) return; it->second = remaining; }
		if(!remaining) return;
		for(auto const& o : ops) {
			Timeline n = m;
			if(!n.apply(o)) continue;
			path.push_back(o);
			dfs(n, remaining - 1);
			path.pop_back();
		}
	}

	void all(char const* fam) {
		for(auto const& s : start)
			for(auto const& a : ops)
				for(auto const& b : ops) {
					if(!c.take(fam)) { if(c.stop) return; continue; }
					c.describe(doc + " " + str(s) + "; " + str(a) + "; " + str(b));
					c.run([&] {
						Timeline m;
						path = { s };
						if(!m.apply(s)) return;
						execute(m, true);
						path.push_back(a);
						if(!m.apply(a)) return;
						execute(m, true);
						path.push_back(b);
						if(!m.apply(b)) return;
						++c.nontrivial;
						dfs(m, depth - 2);
					});
				}
	}
};

void body(mc::Ctx& c) {
	for(auto const& d : corpus()) {
		Reference ref;
		ref.file = d.name + ".csx";
		ref.pp.keep_old_mesh = d.name == "fixed";
		Doc doc = d.doc;
		if(d.name == "fixed") doc.grid = "<XLines>0.5,13,5</XLines><YLines>3.3</YLines><ZLines></ZLines>";
		write_file(ref.file, doc.str());

		if(c.prop == "A01") {
			// Every way of cutting the 15 steps into successive runs.
			vector<string> prefix;
			for(int k = 0; k <= NSTEP; ++k) { vector<int> p; for(int i = 0; i < k; ++i) p.push_back(i); prefix.push_back(ref.expect(p, {})); }
			// Quick: at most 2 cuts (3 for some documents) or at most 2 uncut pairs; thorough: all.
			int const few = c.thorough() ? NSTEP : d.name == "diagonal" || d.name == "close" || d.name == "fixed" ? 3 : 2;
			for(int cut = 0; cut < (1 << (NSTEP - 1)); ++cut) {
				if(std::popcount((unsigned)cut) > few && std::popcount((unsigned)cut) < NSTEP - 1 - 1) continue;
				if(!c.take("cut")) { if(c.stop) return; continue; }
				string t = d.name + " cut after steps:";
				for(int i = 0; i < NSTEP - 1; ++i) if(cut >> i & 1) t += " " + std::to_string(i);
				c.describe(t);
				c.run([&] {
					++c.nontrivial;
					OpenEMSH::Params p;
					static_cast<ParserFromCsx::Params&>(p) = ref.pp;
					p.input = ref.file;
					p.override_from_cli = faster;
					OpenEMSH o(p);
					if(auto r = o.parse(); !r) c.fail("parse failed: " + r.error());
					int first = 0;
					for(int i = 0; i < NSTEP; ++i) {
						if(i < NSTEP - 1 && !(cut >> i & 1)) continue;
						if(i == first) o.run_next_step();
						else if(i == NSTEP - 1) first ? o.run_from_step((Step)first) : o.run_all_steps();
						else o.run(steps_from(first, i - first + 1));
						first = i + 1;
						++c.transitions;
						++c.states;
						string got = dump(o.get_board());
						if(got != prefix[first]) c.fail("after step " + std::to_string(i) + ":\n" + diff(prefix[first], got), "stepwise");
					}
					++c.traces;
					c.outcome(d.name + std::to_string(cut));
				});
			}
			continue;
		}

		vector<Op> ops, start { { 'A', 0 } };
		Mask mask;
		int depth;
		vector<Op> F;
		for(int s = 0; s < NSTEP; ++s) F.push_back({ 'F', s });
		if(c.prop == "A02") {
			ops = F;
			ops.push_back({ 'N', 0 }); ops.push_back({ 'C', 3 }); ops.push_back({ 'A', 0 }); ops.push_back({ 'P', 0 });
			start = { { 'A', 0 }, { 'C', 2 }, { 'C', 8 }, { 'C', 12 } };
			depth = c.thorough() ? 5 : 3;
		} else if(c.prop == "A03") {
			ops = { { 'U', 1 }, { 'U', 2 }, { 'R', 1 }, { 'R', 2 }, { 'P', 0 }, { 'N', 0 }, { 'F', 0 }, { 'F', 4 }, { 'F', 10 }, { 'E', 0 }, { 'E', 5 }, { 'E', 7 } };
			start = { { 'A', 0 }, { 'C', 11 } };
			depth = c.thorough() ? 6 : d.name == "fixed" || d.name == "cross" ? 4 : 3;
			mask.edited = true;
		} else if(c.prop == "A04") {
			mask.dump = false; mask.offers = true;
			ops = { { 'N', 0 }, { 'P', 0 }, { 'U', 1 }, { 'R', 1 }, { 'U', 2 }, { 'F', 2 }, { 'F', 14 }, { 'C', 4 }, { 'A', 0 }, { 'E', 0 }, { 'E', 7 } };
			start = { { 'A', 0 }, { 'C', 1 }, { 'C', 6 }, { 'N', 0 } };
			depth = c.thorough() ? 6 : d.name == "empty" || d.name == "box" || d.name == "diagonal" ? 4 : 3;
		} else {
			for(int e = 0; e < (int)edits().size(); ++e) ops.push_back({ 'E', e });
			ops.push_back({ 'U', 1 }); ops.push_back({ 'P', 0 }); ops.push_back({ 'N', 0 }); ops.push_back({ 'F', 3 }); ops.push_back({ 'F', 10 });
			depth = c.thorough() ? 4 : 3;
			mask.edited = true;
		}
		for(bool pin : { false, true })
			Explorer { c, ref, ops, start, depth, mask, pin, d.name, {}, {} }.all(pin ? "displayed" : "plain");
		c.counters["reference runs"] += ref.runs;
	}
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
