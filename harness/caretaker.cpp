// H01/H02/H03: the timepoint machinery (Caretaker, Originator, TreeNode) against
// a reference model, over every operation sequence up to a depth.
// H04: TreeNode queries against a parent array, over every small tree.
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <optional>
#include "utils/state_management.hpp"

using std::string;
using std::vector;

namespace {

// ------------------------------------------------------------ reference model
struct MOrig {
	bool alive = false;
	bool constant = true;
	int init = -1;
	vector<std::pair<int, int>> states; // node, value; insertion order
};

struct Model {
	vector<int> parent;   // node -> parent
	vector<char> alive;
	vector<int> annot;    // node -> tag, -1 none
	int cur = 0;
	vector<int> hist { 0 };
	int cursor = -1;      // position in hist while browsing, else -1
	vector<int> pins;
	bool auto_gc = true;
	MOrig o[2];
	int nextval = 100;
	bool last_result = false;
	bool gone = false;    // some op result differs

	Model() { parent.push_back(-1); alive.push_back(1); annot.push_back(-1); }

	bool anc(int a, int b) const { for(; b >= 0; b = parent[b]) if(a == b) return true; return false; }
	int add(int p) { parent.push_back(p); alive.push_back(1); annot.push_back(-1); return (int)parent.size() - 1; }

	void gc() {
		vector<char> keep(parent.size(), 0);
		auto mark = [&](int n) { for(; n >= 0; n = parent[n]) keep[n] = 1; };
		for(int p : pins) mark(p);
		for(int h : hist) mark(h);
		mark(cur);
		mark(0);
		for(size_t i = 0; i < parent.size(); ++i)
			if(alive[i] && !keep[i]) { alive[i] = 0; annot[i] = -1; }
		for(auto& x : o) if(x.alive) std::erase_if(x.states, [&](auto const& s) { return !alive[s.first]; });
	}
	void drop_tail() { // redoable entries are forgotten
		if(cursor >= 0) { hist.resize(cursor + 1); cursor = -1; if(auto_gc) gc(); }
	}
	int next() { drop_tail(); return cur = add(cur); }
	int steps_back() const {
		if(cursor >= 0) return cursor;
		return hist.back() == cur ? (int)hist.size() - 1 : (int)hist.size();
	}
	bool can_undo(int n) const { return n > 0 && n <= steps_back(); }
	bool can_redo(int n) const { return n > 0 && cursor >= 0 && n <= (int)hist.size() - 1 - cursor; }
	void settle(int pos) { cur = hist[pos]; cursor = pos == (int)hist.size() - 1 ? -1 : pos; }
	void undo(int n) {
		if(!can_undo(n)) return;
		int pos = cursor >= 0 ? cursor : (int)hist.size() - (hist.back() == cur ? 1 : 0);
		settle(pos - n);
	}
	void redo(int n) { if(can_redo(n)) settle(cursor + n); }
	void remember() {
		if((cursor >= 0 ? hist[cursor] : hist.back()) == cur) return;
		drop_tail();
		hist.push_back(cur);
	}
	int value(MOrig const& x) const { // recorded at the nearest ancestor-or-self
		for(int n = cur; n >= 0; n = parent[n])
			for(auto const& s : x.states) if(s.first == n) return s.second;
		for(auto const& s : x.states) if(s.first == x.init) return s.second;
		return -1;
	}
	int value_at(MOrig const& x) const {
		for(int n = cur; n >= 0; n = parent[n])
			for(auto const& s : x.states) if(s.first == n) return n;
		return x.init;
	}
	void set(MOrig& x, int n, int v) {
		for(auto& s : x.states) if(s.first == n) { if(!x.constant) s.second = v; return; }
		x.states.emplace_back(n, v);
	}
	int find(bool self, int tag) const {
		for(int n = self ? cur : parent[cur]; n >= 0; n = parent[n]) if(annot[n] >= 0 && (tag < 0 || annot[n] == tag)) return n;
		return -1;
	}
	// Canonical form: live nodes renumbered in depth-first creation order.
	string key() const {
		vector<int> id(parent.size(), -1);
		int k = 0;
		string out;
		auto rec = [&](auto&& self, int n) -> void {
			id[n] = k++;
			out += '(';
			if(annot[n] >= 0) out += (char)('a' + annot[n]);
			for(size_t c = n + 1; c < parent.size(); ++c) if(alive[c] && parent[c] == n) self(self, (int)c);
			out += ')';
		};
		rec(rec, 0);
		auto num = [&](int n) { out += ' '; out += std::to_string(n < 0 ? -1 : id[n]); };
		out += " C"; num(cur);
		out += " H"; for(int h : hist) num(h);
		out += " B" + std::to_string(cursor);
		out += " P"; for(int p : pins) num(p);
		out += auto_gc ? " G" : " g";
		// Creation order matters for "k-th live node" operations.
		out += " O"; for(size_t i = 0; i < parent.size(); ++i) if(alive[i]) num((int)i);
		for(auto const& x : o) {
			out += x.alive ? " S" : " s";
			if(x.alive) { num(x.init); for(auto const& s : x.states) num(s.first); out += " v"; out += std::to_string(value_at(x) >= 0 ? id[value_at(x)] : -1); }
		}
		return out;
	}
};

// ------------------------------------------------------------ implementation
struct Tag : IAnnotation { int v; explicit Tag(int v) : v(v) {} };
struct OC : Originator<int const> { using Originator::Originator; };
struct ON : Originator<int> { using Originator::Originator; };

struct Impl {
	Caretaker c;
	std::unique_ptr<Timepoint> foreign = std::make_unique<Timepoint>();
	vector<Timepoint*> node; // model id -> timepoint
	std::shared_ptr<OC> oc[2];
	std::shared_ptr<ON> on[2];
	bool last_result = false;
	Impl() { node.push_back(c.get_history_root()); }
};

struct Op { char kind; int a; };

string str(Op const& o) {
	switch(o.kind) {
	case 'n': return "next_timepoint";
	case 's': return "set_next_state(o" + std::to_string(o.a) + ")";
	case 'S': return "set_state_at_current(o" + std::to_string(o.a) + ")";
	case 'B': return "create_o1";
	case 'L': return "read(o" + std::to_string(o.a) + ")";
	case 'u': return "undo(" + std::to_string(o.a) + ")";
	case 'r': return "redo(" + std::to_string(o.a) + ")";
	case 'g': return "go_without_remembering(" + std::to_string(o.a) + ")";
	case 'G': return "go_and_remember(" + std::to_string(o.a) + ")";
	case 'm': return "remember";
	case 'p': return "pin";
	case 'q': return "unpin(" + std::to_string(o.a) + ")";
	case 'c': return "gc";
	case 'x': return "auto_gc_toggle";
	case 'a': return "annotate(" + std::to_string(o.a) + ")";
	case 'z': return "reset";
	}
	return "?";
}

enum Target { ROOT = 0, PARENT = 1, OLDEST = 2, SECOND = 3, NEWEST = 4, SIBLING = 5, NUL = 8, FOREIGN = 9 };

int resolve(Model const& m, int a) {
	vector<int> live;
	for(size_t i = 1; i < m.parent.size(); ++i) if(m.alive[i]) live.push_back((int)i);
	switch(a) {
	case ROOT: return 0;
	case PARENT: return m.parent[m.cur] < 0 ? -3 : m.parent[m.cur];
	case OLDEST: return live.size() > 0 ? live[0] : -3;
	case SECOND: return live.size() > 1 ? live[1] : -3;
	case NEWEST: return live.size() > 2 ? live.back() : -3;
	case SIBLING: for(int i : live) if(i != m.cur && m.parent[i] == m.parent[m.cur]) return i; return -3;
	case NUL: return -1;
	case FOREIGN: return -2;
	}
	return -3;
}

// Applies op to the model and, when im is given, to the implementation too.
// False when the operation is not applicable here.
bool apply(Op op, Model& m, Impl* im) {
	auto register_node = [&](int id, Timepoint* t) { if((int)im->node.size() <= id) im->node.resize(id + 1, nullptr); im->node[id] = t; };
	switch(op.kind) {
	case 'n': {
		int id = m.next();
		if(im) register_node(id, im->c.make_next_timepoint());
	} break;
	case 's': {
		MOrig& x = m.o[op.a];
		if(!x.alive) return false;
		int v = m.nextval++;
		int id = m.next();
		m.set(x, id, v);
		if(im) {
			if(x.constant) im->oc[op.a]->set_next_state(v); else im->on[op.a]->set_next_state(v);
			register_node(id, im->c.get_current_timepoint());
		}
	} break;
	case 'S': {
		MOrig& x = m.o[op.a];
		if(!x.alive) return false;
		// Users never record at a timepoint that already has successors.
		for(size_t i = 0; i < m.parent.size(); ++i) if(m.alive[i] && m.parent[i] == m.cur) return false;
		int v = m.nextval++;
		m.set(x, m.cur, v);
		if(im) {
			auto* t = im->c.get_current_timepoint();
			if(x.constant) im->oc[op.a]->set_given_or_next_state(v, t); else im->on[op.a]->set_given_or_next_state(v, t);
		}
	} break;
	case 'B': {
		if(m.o[1].alive) return false;
		int v = m.nextval++;
		int id = m.next();
		bool constant = m.o[0].constant;
		m.o[1] = MOrig { true, constant, id, { { id, v } } };
		if(im) {
			auto* t = im->c.make_next_timepoint();
			register_node(id, t);
			if(constant) { im->oc[1] = std::make_shared<OC>(t, v, im->c); im->c.take_care_of(im->oc[1]); }
			else { im->on[1] = std::make_shared<ON>(t, v, im->c); im->c.take_care_of(im->on[1]); }
		}
	} break;
	case 'L':
		if(!m.o[op.a].alive) return false;
		if(im) { if(m.o[op.a].constant) (void)im->oc[op.a]->get_current_state(); else (void)im->on[op.a]->get_current_state(); }
		break;
	case 'u': m.undo(op.a); if(im) im->c.undo(op.a); break;
	case 'r': m.redo(op.a); if(im) im->c.redo(op.a); break;
	case 'g': case 'G': {
		int n = resolve(m, op.a);
		if(n == -3) return false;
		m.last_result = n >= 0;
		Timepoint* t = nullptr;
		if(im) t = n == -1 ? nullptr : n == -2 ? im->foreign.get() : im->node[n];
		if(n >= 0) { m.cur = n; if(op.kind == 'G') m.remember(); }
		if(im) im->last_result = op.kind == 'G' ? im->c.go_and_remember(t) : im->c.go_without_remembering(t);
	} break;
	case 'm': m.remember(); if(im) im->c.remember_current_timepoint(); break;
	case 'p':
		if(std::ranges::find(m.pins, m.cur) == m.pins.end()) m.pins.push_back(m.cur);
		if(im) im->c.pin_current_timepoint();
		break;
	case 'q': {
		if((int)m.pins.size() <= op.a) return false;
		int n = m.pins[op.a];
		std::erase(m.pins, n);
		if(m.auto_gc) m.gc();
		if(im) im->c.unpin(im->node[n]);
	} break;
	case 'c': m.gc(); if(im) im->c.garbage_collector(); break;
	case 'x': m.auto_gc = !m.auto_gc; if(im) im->c.set_auto_gc(m.auto_gc); break;
	case 'a':
		if(m.annot[m.cur] < 0) m.annot[m.cur] = op.a;
		if(im) im->c.annotate_current_timepoint(std::make_unique<Tag>(op.a));
		break;
	case 'z':
		m.hist = { 0 }; m.cursor = -1; m.pins.clear(); m.cur = 0;
		for(auto& x : m.o) x = MOrig {};
		for(auto& x : m.annot) x = -1;
		m.gc();
		if(im) { im->c.reset(); for(int i : { 0, 1 }) { im->oc[i].reset(); im->on[i].reset(); } }
		break;
	}
	// An object created at a discarded timepoint goes away together with its owner.
	if(m.o[1].alive && !m.alive[m.o[1].init]) {
		m.o[1] = MOrig {};
		if(im) { im->oc[1].reset(); im->on[1].reset(); }
	}
	return true;
}

struct Mask { bool nav = false, val = false, gc = false; };

void compare(mc::Ctx& c, Model const& m, Impl& im, Mask k) {
	auto id_of = [&](Timepoint const* t) -> int {
		if(!t) return -1;
		for(size_t i = 0; i < im.node.size(); ++i) if(m.alive[i] && im.node[i] == t) return (int)i;
		return -9;
	};
	auto eq = [&](char const* what, long expected, long got) {
		if(expected != got) c.fail(string(what) + ": expected " + std::to_string(expected) + ", got " + std::to_string(got), what);
	};
	eq("current timepoint", m.cur, id_of(im.c.get_current_timepoint()));
	if(k.nav) {
		for(int n = 0; n <= 5; ++n) {
			eq("can_undo", m.can_undo(n), im.c.can_undo(n));
			eq("can_redo", m.can_redo(n), im.c.can_redo(n));
		}
		eq("result of go", m.last_result, im.last_result);
	}
	if(k.gc || k.nav) {
		// Live timepoints and their structure.
		std::set<Timepoint*> got;
		for(auto* t : im.c.get_history_root()->cluster(true)) got.insert(t);
		std::size_t live = 0;
		for(size_t i = 0; i < m.parent.size(); ++i) {
			if(!m.alive[i]) continue;
			++live;
			if(!got.contains(im.node[i])) c.fail("timepoint " + std::to_string(i) + " should still exist", "lost timepoint");
			eq("parent", m.parent[i], id_of(im.node[i]->parent()));
		}
		if(k.gc) {
			eq("number of live timepoints", (long)live, (long)got.size());
			eq("number of pins", (long)m.pins.size(), (long)im.c.get_pinned_timepoints().size());
			for(size_t i = 0; i < m.pins.size(); ++i) eq("pin", m.pins[i], id_of(im.c.get_pinned_timepoints()[i]));
			for(size_t i = 0; i < m.parent.size(); ++i)
				if(m.alive[i]) {
					auto* a = im.c.get_annotation(im.node[i]);
					eq("annotation", m.annot[i], a ? static_cast<Tag*>(a)->v : -1);
				}
			for(bool self : { false, true }) {
				eq("find_first_ancestor_with_annotation", m.find(self, -1), id_of(im.c.find_first_ancestor_with_annotation(self)));
				for(int tag : { 0, 1 })
					eq("find_first_ancestor_with_annotation_that", m.find(self, tag), id_of(im.c.find_first_ancestor_with_annotation_that(
						[&](IAnnotation const* a) { return static_cast<Tag const*>(a)->v == tag; }, self)));
			}
			eq("auto_gc", m.auto_gc, im.c.get_auto_gc());
		}
	}
	if(k.val || k.gc)
		for(int i : { 0, 1 }) {
			MOrig const& x = m.o[i];
			if(!x.alive) continue;
			auto check = [&](auto& o) {
				if(k.val) {
					eq(i ? "value of o1" : "value of o0", m.value(x), o.get_current_state());
					eq("timepoint of object", m.value_at(x), id_of(o.get_current_timepoint()));
				}
				auto const av = o.get_available_states();
				eq("number of recorded states", (long)x.states.size(), (long)av.size());
				for(size_t s = 0; s < av.size(); ++s) {
					eq("timepoint of recorded state", x.states[s].first, id_of(av[s].first));
					eq("recorded state", x.states[s].second, av[s].second);
				}
			};
			if(x.constant) check(*im.oc[i]); else check(*im.on[i]);
		}
}

void setup(Model& m, Impl* im, bool constant) {
	m.o[0] = MOrig { true, constant, 0, { { 0, m.nextval } } };
	int v = m.nextval++;
	if(im) {
		if(constant) { im->oc[0] = std::make_shared<OC>(im->c.get_history_root(), v, im->c); im->c.take_care_of(im->oc[0]); }
		else { im->on[0] = std::make_shared<ON>(im->c.get_history_root(), v, im->c); im->c.take_care_of(im->on[0]); }
	}
}

struct Explorer {
	mc::Ctx& c;
	vector<Op> ops;
	int depth;
	Mask mask;
	bool constant, dedupe;
	char const* fam;
	std::map<string, int> seen; // canonical state -> remaining depth already explored
	vector<Op> path;

	string text() const { string s = string(constant ? "" : "(mutable state) "); for(auto const& o : path) s += str(o) + "; "; return s; }

	// Runs path on the real classes and compares at its end only (observing
	// in between would settle lazily-moved objects).
	void execute() {
		c.describe(text());
		++c.traces;
		c.transitions += path.size();
		Model m;
		Impl im;
		setup(m, &im, constant);
		for(auto const& o : path) apply(o, m, &im);
		compare(c, m, im, mask);
	}

	void dfs(Model const& m, int remaining) {
		execute();
		string k = m.key();
		if(dedupe) {
			auto [it, fresh] = seen.emplace(k, remaining);
			if(fresh) ++c.states;
			else { if(it->second >= remaining) return; it->second = remaining; }
		} else {
			++c.states;
		}
		if(!remaining) return;
		for(auto const& o : ops) {
			Model n = m;
			if(!apply(o, n, nullptr)) continue;
			path.push_back(o);
			dfs(n, remaining - 1);
			path.pop_back();
		}
	}

	void all() {
		for(auto const& a : ops)
			for(auto const& b : ops)
				for(auto const& d : ops) {
					Model m;
					setup(m, nullptr, constant);
					bool ok = apply(a, m, nullptr) && apply(b, m, nullptr) && apply(d, m, nullptr);
					if(!c.take(fam)) { if(c.stop) return; continue; }
					if(!ok) { c.describe("inapplicable prefix"); alarm(0); continue; }
					++c.nontrivial;
					c.run([&] {
						for(int l = 1; l <= 2; ++l) { path.assign({ a, b }); path.resize(l); execute(); }
						path = { a, b, d };
						dfs(m, depth - 3);
					});
					c.outcome(m.key());
				}
	}
};

vector<Op> nav_ops() { return { { 'n', 0 }, { 's', 0 }, { 'm', 0 }, { 'u', 1 }, { 'u', 2 }, { 'u', 3 }, { 'r', 1 }, { 'r', 2 }, { 'g', PARENT }, { 'g', OLDEST }, { 'G', ROOT }, { 'G', PARENT }, { 'G', OLDEST }, { 'G', NEWEST }, { 'G', NUL }, { 'G', FOREIGN }, { 'u', 0 }, { 'r', 0 } }; }
vector<Op> val_ops() { return { { 's', 0 }, { 's', 1 }, { 'B', 0 }, { 'S', 0 }, { 'S', 1 }, { 'L', 0 }, { 'm', 0 }, { 'u', 1 }, { 'r', 1 }, { 'g', ROOT }, { 'g', PARENT }, { 'g', OLDEST }, { 'g', NEWEST }, { 'g', SIBLING }, { 'n', 0 }, { 'c', 0 } }; }
vector<Op> gc_ops() { return { { 's', 0 }, { 'n', 0 }, { 'm', 0 }, { 'p', 0 }, { 'q', 0 }, { 'q', 1 }, { 'a', 0 }, { 'a', 1 }, { 'u', 1 }, { 'r', 1 }, { 'g', ROOT }, { 'g', PARENT }, { 'g', NEWEST }, { 'G', OLDEST }, { 'c', 0 }, { 'x', 0 }, { 'z', 0 } }; }

// ------------------------------------------------------------ H04: trees
void trees(mc::Ctx& c) {
	int const N = c.thorough() ? 8 : 7;
	for(int n = 1; n <= N; ++n) {
		vector<int> par(n, -1);
		auto rec = [&](auto&& self, int i) -> void {
			if(c.stop) return;
			if(i == n) {
				if(!c.take("tree")) return;
				string d = "parents:";
				for(int p : par) d += " " + std::to_string(p);
				c.describe(d);
				++c.nontrivial;
				c.run([&] {
					TreeNode root;
					TreeNode other;
					auto& other_child = other.add_child();
					vector<TreeNode*> node { &root };
					for(int k = 1; k < n; ++k) node.push_back(&node[par[k]]->add_child());
					auto id = [&](TreeNode const* t) { for(int k = 0; k < n; ++k) if(node[k] == t) return k; return t ? -9 : -1; };
					auto anc = [&](int a, int b) { for(; b >= 0; b = par[b]) if(a == b) return true; return false; };
					auto kids = [&](int a) { vector<int> v; for(int k = 0; k < n; ++k) if(par[k] == a) v.push_back(k); return v; };
					auto eqv = [&](char const* what, int at, vector<int> e, vector<TreeNode*> const& g) {
						++c.transitions;
						vector<int> gi;
						for(auto* t : g) gi.push_back(id(t));
						if(e != gi) {
							string s = string(what) + " of node " + std::to_string(at) + ": expected";
							for(int x : e) s += " " + std::to_string(x);
							s += ", got";
							for(int x : gi) s += " " + std::to_string(x);
							c.fail(s, what);
						}
					};
					auto eq = [&](char const* what, int a, int b, long e, long g) {
						++c.transitions;
						if(e != g) c.fail(string(what) + " of nodes " + std::to_string(a) + "," + std::to_string(b) + ": expected " + std::to_string(e) + ", got " + std::to_string(g), what);
					};
					for(int a = 0; a < n; ++a) {
						++c.states;
						vector<int> up;
						for(int k = par[a]; k >= 0; k = par[k]) up.push_back(k);
						eqv("ancestors", a, up, node[a]->ancestors());
						up.insert(up.begin(), a);
						eqv("ancestors with itself", a, up, node[a]->ancestors(true));
						// Descendants: as a set (and each once); leaves likewise.
						for(bool self : { false, true }) {
							vector<int> cl, lf;
							for(int k = 0; k < n; ++k) {
								if(!anc(a, k) || (k == a && !self)) continue;
								cl.push_back(k);
								if(kids(k).empty()) lf.push_back(k);
							}
							auto sorted = [&](vector<TreeNode*> v) { std::ranges::sort(v, {}, [&](auto* t) { return id(t); }); return v; };
							eqv("cluster", a, cl, sorted(node[a]->cluster(self)));
							eqv("leafs", a, lf, sorted(node[a]->leafs(self)));
						}
						eq("root", a, a, 0, id(node[a]->root()));
						eq("parent", a, a, par[a], id(node[a]->parent()));
						eq("is_root", a, a, a == 0, node[a]->is_root());
						eq("is_leaf", a, a, kids(a).empty(), node[a]->is_leaf());
						for(int b = 0; b < n; ++b) {
							eq("is_descendant_of", a, b, a != b && anc(b, a), node[a]->is_descendant_of(*node[b]));
							eq("is_ancestor_of", a, b, a != b && anc(a, b), node[a]->is_ancestor_of(*node[b]));
							int ca = a;
							while(!anc(ca, b)) ca = par[ca];
							eq("common_ancestor", a, b, ca, id(node[a]->common_ancestor(*node[b])));
							eq("common_ancestor (free)", a, b, ca, id(common_ancestor(*node[a], *node[b])));
							int cs = par[a];
							while(cs >= 0 && (cs == b || !anc(cs, b))) cs = par[cs];
							eq("strict common_ancestor", a, b, cs, id(node[a]->common_ancestor(*node[b], false)));
							eq("==", a, b, a == b, *node[a] == *node[b]);
							eq("id", a, b, a == b, node[a]->id == node[b]->id);
						}
						eq("common_ancestor across trees", a, -1, 1, node[a]->common_ancestor(other_child) == nullptr);
						eq("is_descendant_of across trees", a, -1, 0, node[a]->is_descendant_of(other));
					}
					// Erasing every descendant-closed set of descendants of the root.
					for(int bits = 0; bits < (1 << n); bits += 2) {
						bool closed = true;
						for(int k = 1; k < n; ++k) if((bits >> par[k] & 1) && !(bits >> k & 1)) closed = false;
						if(!closed) continue;
						TreeNode r;
						vector<TreeNode*> nd { &r };
						for(int k = 1; k < n; ++k) nd.push_back(&nd[par[k]]->add_child());
						std::set<TreeNode*> gone, keep;
						for(int k = 0; k < n; ++k) (bits >> k & 1 ? gone : keep).insert(nd[k]);
						r.erase_from_descendants(gone);
						auto left = r.cluster(true);
						++c.transitions;
						if(std::set<TreeNode*>(left.begin(), left.end()) != keep || left.size() != keep.size())
							c.fail("erase_from_descendants of set " + std::to_string(bits) + " kept the wrong nodes", "erase");
					}
					++c.traces;
				});
				return;
			}
			for(int p = 0; p < i; ++p) { par[i] = p; self(self, i + 1); }
		};
		rec(rec, 1);
	}
}

void body(mc::Ctx& c) {
	if(c.prop == "H04") { trees(c); return; }
	Mask k;
	vector<Op> ops;
	int deep, raw;
	if(c.prop == "H01") { k.nav = true; ops = nav_ops(); deep = c.thorough() ? 12 : 9; raw = c.thorough() ? 7 : 6; }
	else if(c.prop == "H02") { k.val = true; ops = val_ops(); deep = c.thorough() ? 10 : 8; raw = c.thorough() ? 7 : 6; }
	else { k.gc = true; ops = gc_ops(); deep = c.thorough() ? 10 : 8; raw = c.thorough() ? 7 : 6; }
	Explorer { c, ops, deep, k, true, true, "bfs", {}, {} }.all();
	if(c.prop != "H01") Explorer { c, ops, deep - 1, k, false, true, "bfs-mutable", {}, {} }.all();
	Explorer { c, ops, raw, k, true, false, "raw", {}, {} }.all();
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
