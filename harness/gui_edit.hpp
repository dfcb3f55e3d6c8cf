// U02: the edition dialogs. Part of gui.cpp.
#pragma once

namespace {

// One line of an edition dialog.
struct Row {
	enum Type { NUM, NAT, BOOL, POL, NOR } type;
	string name;
	string old;     // what is in effect
	string fresh;   // what is proposed
	std::function<bool (double)> valid = {};
};
using Rows = vector<Row>;

string exact(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }
Row num_row(string n, double v, std::function<bool (double)> ok) { return { Row::NUM, std::move(n), exact(v), exact(v), std::move(ok) }; }
Row nat_row(string n, std::size_t v) { return { Row::NAT, std::move(n), std::to_string(v), std::to_string(v) }; }
Row bool_row(string n, bool v) { return { Row::BOOL, std::move(n), tf(v), tf(v) }; }

bool positive(double v) { return v > 0; }
bool null_or_more(double v) { return v >= 0 && std::isfinite(v); }
bool ratio(double v) { return v >= 1 && std::isfinite(v); }
bool any(double) { return true; }

int const GLOBAL = 100;

Item global_item(Board const& b) { return { (Kind) GLOBAL, 0, nullptr, b.global_params.get(), 0 }; }

Rows rows_of(Item const& i) {
	switch((int) i.kind) {
	case GLOBAL: {
		auto const& s = as<GlobalParams>(i).get_current_state();
		return { num_row("Proximity limit", s.proximity_limit, null_or_more), num_row("Smoothness", s.smoothness, ratio), nat_row("lmin", s.lmin),
			num_row("dmax", s.dmax, positive), num_row("Minimal angle", s.consecutive_diagonal_minimal_angle, any),
			num_row("Diagonal dmax", s.diagonal_dmax, positive), nat_row("Diagonal lmin", s.diagonal_lmin) };
	}
	case EDGE: {
		auto const& s = as<Edge>(i).get_current_state();
		return { bool_row("To mesh", s.to_mesh), bool_row("To reverse", s.to_reverse) };
	}
	case ANGLE: {
		auto const& s = as<Angle>(i).get_current_state();
		return { bool_row("To mesh[H]", s.to_mesh[H]), bool_row("To mesh[V]", s.to_mesh[V]) };
	}
	case TCMLP: return { bool_row("Enabled", as<ConflictTooCloseMeshlinePolicies>(i).get_current_state().is_enabled) };
	case DOCZ: {
		auto const& s = as<ConflictDiagonalOrCircularZone>(i).get_current_state();
		return { nat_row("lmin", s.lmin), num_row("dmax", s.dmax, positive), num_row("Minimal angle", s.minimal_angle, any) };
	}
	case POLICY: {
		auto const& s = as<MeshlinePolicy>(i).get_current_state();
		return { { Row::POL, "Policy", to_text(s.policy), to_text(s.policy) }, { Row::NOR, "Normal", to_text(s.normal), to_text(s.normal) },
			bool_row("Enabled", s.is_enabled), num_row("d", s.d, positive) };
	}
	case INTERVAL: {
		auto const& s = as<Interval>(i).get_current_state();
		Rows r { num_row("dmax", s.dmax, positive), nat_row("Before.lmin", s.before.lmin), num_row("Before.Smoothness", s.before.smoothness, ratio),
			nat_row("After.lmin", s.after.lmin), num_row("After.Smoothness", s.after.smoothness, ratio) };
		r[2].fresh = r[4].fresh = "2"; // The mesher only ever decreases it.
		return r;
	}
	default: return {};
	}
}

// The step each edition is taken into account from.
int from_step(Item const& i, Rows const& before, Rows const& after) {
	switch((int) i.kind) {
	case GLOBAL: return 2;
	case EDGE: case ANGLE: return 4;
	case TCMLP: return 10;
	case DOCZ: return std::strtod(before[2].old.c_str(), nullptr) != std::strtod(after[2].fresh.c_str(), nullptr) ? 3 : 13;
	case POLICY: return 11;
	default: return 14;
	}
}

template<class T> T* writable(Item const& i) { return const_cast<T*>(static_cast<T const*>(i.self)); }

// What is on the board now, with the values of the dialog.
void commit(Item const& i, Rows const& r) {
	auto num = [&](int k) { return std::strtod(r[k].fresh.c_str(), nullptr); };
	auto nat = [&](int k) { return (std::size_t) std::strtoull(r[k].fresh.c_str(), nullptr, 10); };
	auto bit = [&](int k) { return r[k].fresh == "true"; };
	switch((int) i.kind) {
	case GLOBAL: {
		auto* x = writable<GlobalParams>(i);
		auto s = x->get_current_state();
		s.proximity_limit = num(0); s.smoothness = num(1); s.lmin = nat(2); s.dmax = num(3);
		s.consecutive_diagonal_minimal_angle = num(4); s.diagonal_dmax = num(5); s.diagonal_lmin = nat(6);
		x->set_next_state(s);
	} break;
	case EDGE: { auto* x = writable<Edge>(i); auto s = x->get_current_state(); s.to_mesh = bit(0); s.to_reverse = bit(1); x->set_next_state(s); } break;
	case ANGLE: { auto* x = writable<Angle>(i); auto s = x->get_current_state(); s.to_mesh[H] = bit(0); s.to_mesh[V] = bit(1); x->set_next_state(s); } break;
	case TCMLP: { auto* x = writable<ConflictTooCloseMeshlinePolicies>(i); auto s = x->get_current_state(); s.is_enabled = bit(0); x->set_next_state(s); } break;
	case DOCZ: {
		auto* x = writable<ConflictDiagonalOrCircularZone>(i);
		auto s = x->get_current_state();
		s.lmin = nat(0); s.dmax = num(1); s.minimal_angle = num(2);
		x->set_next_state(s);
	} break;
	case POLICY: {
		auto* x = writable<MeshlinePolicy>(i);
		auto s = x->get_current_state();
		for(auto p : { MeshlinePolicy::Policy::ONELINE, MeshlinePolicy::Policy::HALFS, MeshlinePolicy::Policy::THIRDS }) if(to_text(p) == r[0].fresh) s.policy = p;
		for(auto n : { MeshlinePolicy::Normal::NONE, MeshlinePolicy::Normal::MIN, MeshlinePolicy::Normal::MAX }) if(to_text(n) == r[1].fresh) s.normal = n;
		s.is_enabled = bit(2); s.d = num(3);
		x->set_next_state(s);
	} break;
	default: {
		auto* x = writable<Interval>(i);
		auto s = x->get_current_state();
		s.dmax = num(0); s.before.lmin = nat(1); s.before.smoothness = num(2); s.after.lmin = nat(3); s.after.smoothness = num(4);
		x->set_next_state(s);
	} break;
	}
}

// What is typed in a dialog.
struct Change {
	vector<std::pair<int, string>> set; // row, text (or "toggle")
	bool ok = true;
	bool valid = true;
};

string show_rows(QStandardItemModel& m) {
	string s;
	for(int r = 0; r < m.rowCount(); ++r) {
		for(int k = 0; k < m.columnCount(); ++k) {
			auto* x = m.item(r, k);
			s += (k ? "\t" : "") + (x ? (x->isCheckable() ? string(tf(x->checkState() == Qt::Checked)) : x->text().toStdString()) : string("(nothing)"));
		}
		s += "\n";
	}
	return s;
}
vector<vector<string>> cut(string const& s) {
	vector<vector<string>> v;
	std::istringstream i(s);
	for(string l; std::getline(i, l);) {
		v.emplace_back();
		std::istringstream j(l);
		for(string w; std::getline(j, w, '\t');) v.back().push_back(w);
		v.back().resize(3);
	}
	return v;
}
bool same_value(Row const& r, string const& want, string const& got) {
	if(r.type == Row::NUM) {
		char* e;
		double const x = std::strtod(got.c_str(), &e);
		return !got.empty() && !*e && x == std::strtod(want.c_str(), nullptr);
	}
	return want == got;
}

// Invalid texts, by type of row.
vector<string> wrong_texts(Row const& r) {
	vector<string> v;
	if(r.type == Row::NUM) {
		v = { "", "abc", "1.5x", "1,5", "--1" };
		if(r.valid && !r.valid(-1)) { v.push_back("-1"); v.push_back("nan"); v.push_back("-inf"); }
		if(r.valid && !r.valid(0)) v.push_back("0");
		if(r.valid && !r.valid(0.5)) v.push_back("0.999");
		if(r.valid && !r.valid(INFINITY)) v.push_back("inf");
	} else if(r.type == Row::NAT) {
		v = { "", "-1", "2.5", "x", "1e1", "99999999999999999999999" };
	}
	return v;
}
vector<string> right_texts(Row const& r) {
	if(r.type == Row::NUM) return r.valid && !r.valid(0.5) ? vector<string>{ "1.37", "1.0123456789012345" }
		: r.name.find("angle") != string::npos ? vector<string>{ "100.5", "0" }
		: vector<string>{ "0.7123456789012345", "4" };
	if(r.type == Row::NAT) return { "4", "0" };
	if(r.type == Row::BOOL) return { "toggle" };
	return {};
}

struct Scenario {
	string doc;
	int prevs;
	int kind, index;
	Change change;
	int also = -1, also_index = 0; // Selected along.
};

string describe(Scenario const& s) {
	string o = s.doc + ": back " + std::to_string(s.prevs) + " time(s), edit " + (s.kind == GLOBAL ? "global parameters" : string(KIND[s.kind]) + " #" + std::to_string(s.index));
	if(s.also >= 0) o += " among it and " + string(KIND[s.also]) + " #" + std::to_string(s.also_index);
	for(auto const& [r, t] : s.change.set) o += ", row " + std::to_string(r) + " := \"" + t + "\"";
	return o + (s.change.ok ? ", OK" : ", Cancel");
}

void run_scenario(mc::Ctx& c, Scenario const& s, string const& file) {
	auto* o = reference(file);
	auto state = [](OpenEMSH const& o) { return app_flags(o) + "cells " + cells(o.get_board()) + "\n" + dump(o.get_board()); };
	for(int k = 0; k < s.prevs; ++k) { o->go_before_previous_step(); Caretaker::singleton().pin_current_timepoint(); }
	auto get = [&](Board const& b) { return s.kind == GLOBAL ? global_item(b) : *find(b, (Kind) s.kind, s.index); };
	auto const out = in_child([&](auto const& put) {
		fresh();
		User u(params_for(file));
		u.w->parse_and_display();
		u.settle();
		for(int k = 0; k < s.prevs; ++k) u.press("a_mesh_prev");
		auto state = [&] {
			string x = window_flags(u) + "cells " + window_cells(u) + "\n" + dump(u.board());
			vector<string> bad;
			check_processing(u, bad);
			check_structure(u, bad);
			join(bad, x);
			return x;
		};
		put(state());
		auto const it = get(u.board());
		u.ps().clearSelection();
		if(s.kind != GLOBAL) u.select_on_processing(it.entity);
		auto const named = [](Item const& i) { return string(KIND[i.kind]) + " - " + std::to_string(i.id); };
		string a, b;
		if(s.also >= 0) {
			auto const other = *find(u.board(), (Kind) s.also, s.also_index);
			if(!u.ps().index.at(other.entity)->isVisible()) u.press("tb_show_everything");
			u.ps().index.at(it.entity)->setSelected(true);
			u.ps().index.at(other.entity)->setSelected(true);
			a = " [" + named(it) + "]", b = " [" + named(other) + "]";
			u.replies.push_back({ .what = Reply::MENU, .path = named(it) });
		}
		string shown, edited;
		u.replies.push_back({ .what = Reply::EDIT, .edit = [&](QStandardItemModel& m, QTableView& t) {
			shown = show_rows(m);
			for(auto const& [r, text] : s.change.set) {
				bool const done = text == "toggle" ? toggle(t, r) : m.item(r, 2) && m.item(r, 2)->data().isValid() ? choose(t, r, text) : type_in(t, r, text);
				if(!done) edited += "!row " + std::to_string(r) + " cannot be set to " + text + "\n";
			}
			t.grab();
			edited += show_rows(m);
		}, .ok = s.change.ok });
		u.press("a_edit");
		string asked;
		if(s.also >= 0 && !u.seen.empty()) {
			if(u.seen[0] == "menu" + a + b || u.seen[0] == "menu" + b + a) u.seen.erase(u.seen.begin());
		}
		for(auto const& x : u.seen) asked += x + "\n";
		put(asked);
		put(shown);
		put(edited);
		put(state());
		if(u.enabled("a_undo")) { u.press("a_undo"); put(state()); }
		else put("cannot undo");
	});
	auto need = [&](std::size_t n, char const* what) { if(out.records.size() <= n) c.fail(string(what) + ": " + (out.end.empty() ? "nothing was reported" : out.end)); };
	auto match = [&](std::size_t n, string const& want, char const* what) {
		need(n, what);
		if(out.records[n] != want) {
			auto k = out.records[n].find("\n!");
			c.fail(string(what) + ":\n" + (k != string::npos ? out.records[n].substr(k + 1) : diff(want, out.records[n])));
		}
	};
	string const before = state(*o);
	match(0, before, "before editing");
	Item const it = get(o->get_board());
	need(1, "asking for the edition");
	string const title = s.kind == GLOBAL ? "global parameters" : string(KIND[s.kind]) + " - " ;
	if(out.records[1].rfind("edit ", 0) != 0 || out.records[1].find(title) == string::npos || out.records[1].find('\n') + 1 != out.records[1].size())
		c.fail("the edition dialog was expected, instead: " + out.records[1]);
	// What the dialog shows.
	Rows const rows = rows_of(it);
	need(2, "displaying the dialog");
	auto const shown = cut(out.records[2]);
	if(shown.size() != rows.size()) c.fail("the dialog shows " + std::to_string(shown.size()) + " lines:\n" + out.records[2]);
	for(std::size_t r = 0; r < rows.size(); ++r) {
		if(shown[r][0] != rows[r].name) c.fail("line " + std::to_string(r) + " is named " + shown[r][0] + " instead of " + rows[r].name);
		if(!same_value(rows[r], rows[r].old, shown[r][1])) c.fail(rows[r].name + " is " + rows[r].old + ", the dialog says " + shown[r][1]);
		if(!same_value(rows[r], rows[r].fresh, shown[r][2])) c.fail(rows[r].name + ": " + rows[r].fresh + " was to be proposed, the dialog proposes " + shown[r][2]);
	}
	// What it shows once edited.
	need(3, "typing");
	if(out.records[3].rfind("!", 0) == 0) c.fail(out.records[3]);
	auto const edited = cut(out.records[3]);
	Rows after = rows;
	std::set<int> touched;
	for(auto const& [r, t] : s.change.set) {
		after[r].fresh = t == "toggle" ? tf(after[r].fresh != "true") : t;
		touched.insert(r);
	}
	if(s.kind == POLICY) { // The normal follows the policy.
		string const n = edited.size() > 1 ? edited[1][2] : "";
		bool const fits = after[0].fresh == "THIRDS" ? n == "MIN" || n == "MAX" : n == "NONE";
		if(touched.count(0) && !touched.count(1)) {
			if(!fits) c.fail("policy " + after[0].fresh + " is proposed along with normal " + n);
			after[1].fresh = n;
		}
	}
	for(std::size_t r = 0; r < rows.size(); ++r)
		if(r >= edited.size() || (touched.count((int) r) && after[r].type == Row::NUM ? edited[r][2] != after[r].fresh : !same_value(after[r], after[r].fresh, edited[r][2])))
			c.fail(after[r].name + " should show " + after[r].fresh + ":\n" + out.records[3]);
	// What comes out of it.
	if(s.change.ok && s.change.valid) {
		int const pos = NSTEP - s.prevs;
		int const from = from_step(it, rows, after);
		if(from < pos) o->go_before((Step) from);
		commit(it, after);
		o->run_from_step((Step) std::min(from, pos));
		Caretaker::singleton().pin_current_timepoint();
		match(4, state(*o), "once edited");
		Caretaker::singleton().undo();
		match(5, state(*o), "once undone");
	} else {
		match(4, before, s.change.ok ? "invalid values were to be refused" : "once cancelled");
	}
	if(!out.end.empty()) c.fail("at the end: " + out.end);
	c.transitions += s.prevs + 2;
	c.states += 3;
	++c.traces;
	++c.nontrivial;
	c.outcome(out.records[4]);
}

void edition(mc::Ctx& c) {
	string const file = "doc.csx";
	auto docs = corpus();
	// Slanted sides that hardly turn.
	docs.push_back({ "bent", { metal("m", polygon(1, 2, 1, { { 0, 0 }, { 10, 2 }, { 20, 6 }, { 30, 12 }, { 30, 0 } })) } });
	auto run = [&](char const* family, Scenario const& s, Doc const& d) {
		if(!c.take(family)) return;
		c.describe(describe(s) + "\n" + d.str());
		c.run([&] { run_scenario(c, s, file); });
	};
	for(auto const& d : docs) {
		if(!c.thorough() && (d.name == "empty" || d.name == "reversed" || d.name == "inside" || d.name == "polygon")) continue;
		write_file(file, d.doc.str());
		auto* o = reference(file);
		vector<string> displayed; // at each position
		for(int kind : { GLOBAL, (int) EDGE, (int) ANGLE, (int) TCMLP, (int) DOCZ, (int) POLICY, (int) INTERVAL }) {
			vector<int> const prevs = c.thorough() ? vector<int>{ 0, 1, 2, 3, 4, 5, 7, 9, 11, 12, 13, 14, 15 }
				: kind == GLOBAL || kind == EDGE ? vector<int>{ 0, 2, 13, 15 } : vector<int>{ 0, 2, 10 };
			for(int pv : prevs) {
				o = reference(file);
				for(int k = 0; k < pv; ++k) o->go_before_previous_step();
				std::map<int, int> counts;
				for(auto const& i : items(o->get_board())) ++counts[i.kind];
				int count = counts[kind];
				if(kind == GLOBAL) count = 1;
				if(!count) continue;
				std::set<int> ns { 0, count - 1 };
				if(c.thorough()) { ns.insert(count / 2); ns.insert(count / 3); }
				std::map<int, Rows> all_rows;
				for(int n : ns) all_rows[n] = rows_of(kind == GLOBAL ? global_item(o->get_board()) : *find(o->get_board(), (Kind) kind, n));
				for(auto const& [n, rows] : all_rows) {
					Scenario base { d.name, pv, kind, n, {} };
					// As it is.
					if(kind != POLICY || true) run("unchanged", base, d.doc);
					for(int r = 0; r < (int) rows.size(); ++r) {
						for(auto const& t : right_texts(rows[r])) {
							Scenario s = base;
							s.change.set = { { r, t } };
							run("edited", s, d.doc);
							if(pv == 0 && n == 0) {
								s.change.ok = false;
								run("cancelled", s, d.doc);
							}
						}
						if((pv == 0 && n == 0 && (c.thorough() || d.name == "diagonal" || (kind == TCMLP && d.name == "close"))))
							for(auto const& t : wrong_texts(rows[r])) {
								Scenario s = base;
								s.change.set = { { r, t } };
								s.change.valid = false;
								run("refused", s, d.doc);
								// Another valid line does not make it acceptable.
								for(int q = 0; q < (int) rows.size(); ++q)
									if(q != r && !right_texts(rows[q]).empty() && (c.thorough() || q == (r + 1) % (int) rows.size())) {
										Scenario s2 = s;
										s2.change.set.push_back({ q, right_texts(rows[q])[0] });
										run("refused", s2, d.doc);
									}
							}
						for(int q = r + 1; q < (int) rows.size(); ++q) // Two lines at once.
							if(!right_texts(rows[r]).empty() && !right_texts(rows[q]).empty() && (c.thorough() || (pv == 0 && n == 0))) {
								Scenario s = base;
								s.change.set = { { r, right_texts(rows[r])[0] }, { q, right_texts(rows[q])[0] } };
								run("edited", s, d.doc);
							}
					}
					// Several selected: one is chosen.
					if(kind != GLOBAL && (c.thorough() || n == 0))
						for(int also : { (int) EDGE, (int) ANGLE, (int) TCMLP, (int) DOCZ, (int) POLICY, (int) INTERVAL })
							for(int k : { 0, -1 }) {
								int const there = counts[also];
								if(!there || (k && there == 1) || (also == kind && n == (k ? there - 1 : 0))) continue;
								int row = 0;
								while(row < (int) rows.size() && right_texts(rows[row]).empty()) ++row;
								if(row == (int) rows.size()) continue;
								Scenario s = base;
								s.also = also;
								s.also_index = k;
								s.change.set = { { row, right_texts(rows[row])[0] } };
								run("among several", s, d.doc);
							}
					if(kind == POLICY && (c.thorough() || pv == 0)) {
						for(string p1 : { "", "ONELINE", "HALFS", "THIRDS" })
							for(string p2 : { "ONELINE", "HALFS", "THIRDS" })
								for(string nn : { "", "MIN", "MAX" }) {
									if(nn != "" && p2 != "THIRDS") continue;
									if(!c.thorough() && d.name != "overlap" && d.name != "diagonal" && p1 != "") continue;
									Scenario s = base;
									if(p1 != "") s.change.set.push_back({ 0, p1 });
									s.change.set.push_back({ 0, p2 });
									if(nn != "") s.change.set.push_back({ 1, nn });
									run("policy", s, d.doc);
								}
					}
				}
			}
		}
	}
}

} // namespace
