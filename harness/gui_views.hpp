// U04: both views and their selections; U05: what is displayed. Part of gui.cpp.
#pragma once

namespace {

using Put = std::function<void (string const&)>;

// Entities selected in a scene.
std::set<::Entity const*> selected_on_processing(User& u) {
	std::set<::Entity const*> s;
	for(auto const& [e, n] : u.ps().index) if(n->isSelected()) s.insert(e);
	return s;
}
std::set<::Entity const*> selected_on_structure(User& u, Plane p) {
	std::set<::Entity const*> s;
	for(auto const& [e, g] : u.ss(p).index) if(g->isSelected()) s.insert(e);
	return s;
}

bool displayed_on(Item const& i, Plane p) {
	if(i.kind == EIP) return false;
	if(on_plane(i.kind)) return i.space == p;
	return transpose(p, (Axis) i.space).has_value();
}

// Selecting an entity anywhere selects it everywhere, and highlights what it comes from and what comes from it.
void check_selection(User& u, vector<Item> const& list, vector<Item> const& chosen, std::map<::Entity const*, std::set<::Entity const*>> const& ups,
	std::map<::Entity const*, std::set<::Entity const*>> const& downs, string const& how, vector<string>& bad) {
	auto complain = [&](string const& s) { if(bad.size() < 8) bad.push_back("selection: " + how + ": " + s); };
	std::set<::Entity const*> want;
	for(auto const& i : chosen) want.insert(i.entity);
	if(selected_on_processing(u) != want) complain(std::to_string(selected_on_processing(u).size()) + " entities are selected in the processing view");
	for(auto p : AllPlane) {
		std::set<::Entity const*> here;
		for(auto const& i : chosen) if(displayed_on(i, p)) here.insert(i.entity);
		if(selected_on_structure(u, p) != here)
			complain(std::to_string(selected_on_structure(u, p).size()) + " entities are selected in the structure view " + name(p) + ", " + std::to_string(here.size()) + " were expected");
	}
	auto closure = [&](::Entity const* e, auto const& next) {
		std::set<::Entity const*> s;
		vector<::Entity const*> todo{ e };
		while(!todo.empty()) {
			auto* x = todo.back(); todo.pop_back();
			if(auto it = next.find(x); it != next.end())
				for(auto* y : it->second) if(s.insert(y).second) todo.push_back(y);
		}
		return s;
	};
	std::set<::Entity const*> chain;
	for(auto const& i : chosen) {
		chain.merge(closure(i.entity, ups));
		chain.merge(closure(i.entity, downs));
	}
	for(auto const& i : list) {
		if(want.count(i.entity)) continue;
		if(u.ps().index.at(i.entity)->is_highlighted() != (chain.count(i.entity) > 0))
			complain(label(i) + (chain.count(i.entity) ? " is not highlighted" : " is highlighted"));
	}
}

void views(mc::Ctx& c) {
	for(auto const& d : corpus()) {
		string const file = "doc.csx";
		write_file(file, d.doc.str());
		for(int pv = 0; pv <= NSTEP; ++pv) {
			static char const* const modes[] = { "tb_show_selected", "tb_show_everything" };
			for(int m = 0; m < 2; ++m) {
				if(!c.take("selections")) continue;
				c.describe(d.name + ": back " + std::to_string(pv) + " time(s), " + modes[m] + ", every selection\n" + d.doc.str());
				c.run([&] {
					auto out = in_child([&](auto const& put) {
						fresh();
						User u(params_for(file));
						u.w->parse_and_display();
						u.settle();
						for(int k = 0; k < pv; ++k) u.press("a_mesh_prev");
						u.press(modes[m]);
						vector<string> bad;
						check_processing(u, bad);
						check_structure(u, bad);
						check_display(u, bad);
						auto const list = items(u.board());
						std::map<::Entity const*, std::set<::Entity const*>> ups, downs;
						for(auto const& i : list) { ups[i.entity] = sources(i); for(auto* s : sources(i)) downs[s].insert(i.entity); }
						long n = 0;
						auto clear = [&] {
							// As the escape key does.
							QKeyEvent e(QEvent::KeyPress, Qt::Key_Escape, Qt::NoModifier);
							QCoreApplication::sendEvent(u.w.get(), &e);
							u.settle();
						};
						auto check = [&](vector<Item> const& chosen, string const& how) {
							++n;
							check_selection(u, list, chosen, ups, downs, how, bad);
							check_display(u, bad);
						};
						auto on_processing = [&](Item const& i) {
							auto* node = u.ps().index.at(i.entity);
							if(!node->isVisible()) return false;
							node->setSelected(true);
							u.settle();
							return true;
						};
						auto on_structure = [&](Item const& i, Plane p) {
							u.ss(p).index.at(i.entity)->setSelected(true);
							u.settle();
						};
						clear();
						check({}, "nothing");
						for(std::size_t k = 0; k < list.size() && bad.empty(); ++k) {
							auto const& i = list[k];
							if(on_processing(i)) {
								check({ i }, label(i) + " selected in the processing view");
								clear();
								check({}, label(i) + " deselected");
							}
							for(auto p : AllPlane)
								if(displayed_on(i, p) && bad.empty()) {
									on_structure(i, p);
									check({ i }, label(i) + " selected in the structure view " + name(p));
									auto const& j = list[(k * 7 + 3) % list.size()];
									if(&i != &j && displayed_on(j, p)) {
										on_structure(j, p);
										check({ i, j }, label(i) + " then " + label(j) + " selected in the structure view " + name(p));
									}
									clear();
									check({}, label(i) + " deselected");
								}
							auto const& j = list[(k * 5 + 2) % list.size()];
							if(&i != &j && bad.empty() && on_processing(i)) {
								if(on_processing(j)) check({ i, j }, label(i) + " then " + label(j) + " selected in the processing view");
								clear();
								// All at once, instead of what was selected.
								on_processing(i);
								auto* node = u.ps().index.at(j.entity);
								if(node->isVisible() && u.ps().index.at(i.entity)->isVisible()) {
									QPainterPath area;
									area.addRect(node->sceneBoundingRect());
									u.ps().setSelectionArea(area, Qt::ReplaceSelection);
									u.settle();
									auto const s = selected_on_processing(u);
									vector<Item> got;
									for(auto const& x : list) if(s.count(x.entity)) got.push_back(x);
									if(!s.count(j.entity)) bad.push_back("a selection area around " + label(j) + " does not select it");
									check(got, "a selection area around " + label(j) + " replacing " + label(i));
								}
								clear();
							}
						}
						// A click where several entities are lets one choose.
						for(auto p : AllPlane)
							for(auto const& i : list)
								if(i.kind == POLYGON && i.space == p && bad.empty()) {
									auto const& pts = as<Polygon>(i).points;
									QPointF at((pts[0]->x.value() * 2 + pts[1]->x.value() + pts[2]->x.value()) / 4, (pts[0]->y.value() * 2 + pts[1]->y.value() + pts[2]->y.value()) / 4);
									for(int choice = 0; choice < 64 && bad.empty(); ++choice) {
										u.seen.clear();
										u.replies.push_back({ .what = Reply::MENU, .menu = choice });
										QGraphicsSceneMouseEvent e(QEvent::GraphicsSceneMousePress);
										e.setScenePos(at);
										QCoreApplication::sendEvent(&u.ss(p), &e);
										u.replies.clear();
										u.settle();
										auto const s = selected_on_processing(u);
										++n;
										if(u.seen.empty()) { // Only one.
											if(s.size() > 1) bad.push_back("a click selects " + std::to_string(s.size()) + " entities");
											clear();
											break;
										}
										vector<string> entries;
										for(std::size_t b = 0; (b = u.seen[0].find(" [", b)) != string::npos;) { auto f = u.seen[0].find(']', b); entries.push_back(u.seen[0].substr(b + 2, f - b - 2)); b = f; }
										if(choice >= (int) entries.size()) { clear(); break; }
										auto title = [&](Item const& x) { return string(KIND[x.kind]) + " - " + std::to_string(x.id) + (x.kind == POLYGON ? " - " + as<Polygon>(x).name : ""); };
										vector<Item> got;
										for(auto const& x : list) if(s.count(x.entity)) got.push_back(x);
										if(got.size() != 1 || title(got[0]) != entries[choice])
											bad.push_back("choosing \"" + entries[choice] + "\" selects " + (got.empty() ? string("nothing") : title(got[0])));
										else check(got, "chosen in a menu");
										clear();
									}
								}
						// A double click edits the node.
						if(m == 1)
							for(auto const& i : list) {
								if(i.kind != EDGE && i.kind != ANGLE && i.kind != TCMLP && i.kind != DOCZ && i.kind != POLICY && i.kind != INTERVAL) continue;
								if(!bad.empty()) break;
								auto* node = u.ps().index.at(i.entity);
								u.seen.clear();
								u.replies.push_back({ .what = Reply::EDIT, .ok = false });
								QGraphicsSceneMouseEvent e(QEvent::GraphicsSceneMouseDoubleClick);
								e.setScenePos(node->mapToScene(node->boundingRect().center()));
								QCoreApplication::sendEvent(&u.ps(), &e);
								u.replies.clear();
								u.settle();
								++n;
								string const end = string(KIND[i.kind]) + " - " + std::to_string(i.id);
								if(u.seen.size() != 1 || u.seen[0].rfind("edit ", 0) != 0 || u.seen[0].size() < end.size() || u.seen[0].compare(u.seen[0].size() - end.size(), end.size(), end))
									bad.push_back("a double click on " + label(i) + " gives " + (u.seen.empty() ? string("nothing") : u.seen[0]));
							}
						string r = std::to_string(n) + "\n";
						join(bad, r);
						put(r);
					});
					if(out.records.empty()) c.fail(out.end.empty() ? "nothing was reported" : out.end);
					auto const& r = out.records[0];
					if(auto k = r.find("\n!"); k != string::npos) c.fail(r.substr(k + 1));
					if(!out.end.empty()) c.fail("at the end: " + out.end);
					c.states += std::atol(r.c_str());
					c.transitions += std::atol(r.c_str());
					++c.nontrivial;
					++c.traces;
					c.outcome(d.name + std::to_string(pv) + r);
				});
			}
		}
	}
}

// ------------------------------------------------------------- U05: displays
// Every sequence of what changes the display.
struct Op { string name; std::function<bool (User&)> act; }; // False where it cannot be done.

vector<Op> display_ops(string const& other) {
	vector<Op> v;
	for(auto* n : { "tb_plane_xy", "tb_plane_yz", "tb_plane_zx", "tb_show_all_mesh", "tb_show_horizontal_mesh", "tb_show_vertical_mesh", "tb_show_no_mesh",
		"tb_show_everything", "tb_show_displayed", "tb_show_selected", "a_mesh_prev", "a_mesh_next", "a_undo", "a_redo", "a_fit" })
		v.push_back({ n, [n](User& u) { if(!u.enabled(n)) return false; u.press(n); return true; } });
	v.push_back({ "edit nothing", [](User& u) {
		u.ps().clearSelection();
		u.replies.push_back({ .what = Reply::EDIT });
		u.press("a_edit");
		return true;
	} });
	v.push_back({ "select an edge", [](User& u) {
		auto i = find(u.board(), EDGE, -1);
		if(!i) return false;
		auto* n = u.ps().index.at(i->entity);
		if(!n->isVisible()) { // From the other view.
			if(u.checked("tb_show_displayed")) return false;
			u.ss((Plane) i->space).clearSelection();
			u.ss((Plane) i->space).index.at(i->entity)->setSelected(true);
		} else {
			u.ps().clearSelection();
			n->setSelected(true);
		}
		u.settle();
		return true;
	} });
	v.push_back({ "select a line", [](User& u) {
		auto i = find(u.board(), LINE, 1);
		if(!i || u.checked("tb_show_displayed")) return false;
		for(auto p : AllPlane)
			if(transpose(p, (Axis) i->space) && u.ss(p).index.at(i->entity)->isVisible()) {
				u.ss(p).clearSelection();
				u.ss(p).index.at(i->entity)->setSelected(true);
				u.settle();
				return true;
			}
		return false;
	} });
	v.push_back({ "escape", [](User& u) {
		QKeyEvent e(QEvent::KeyPress, Qt::Key_Escape, Qt::NoModifier);
		QCoreApplication::sendEvent(u.w.get(), &e);
		u.settle();
		return true;
	} });
	for(bool down : { true, false })
		v.push_back({ down ? "page down" : "page up", [down](User& u) {
			auto key = [&](bool d) {
				QKeyEvent e(QEvent::KeyPress, d ? Qt::Key_PageDown : Qt::Key_PageUp, Qt::NoModifier);
				QCoreApplication::sendEvent(u.w.get(), &e);
				u.settle();
				return u.checked("tb_plane_xy") ? 0 : u.checked("tb_plane_yz") ? 1 : 2;
			};
			// Each plane in turn, and the other key goes back.
			int const from = key(down);
			std::set<int> const all { from, key(down), key(down) };
			if(all.size() != 3 || key(down) != from) u.wrong.push_back("the keys do not show each plane in turn");
			int const next = key(down);
			if(key(!down) != from || next == from) u.wrong.push_back("the other key does not show the previous plane");
			return true;
		} });
	v.push_back({ "open another document", [other](User& u) {
		u.replies.push_back({ .what = Reply::FILE, .path = other });
		u.press("a_file_open");
		return true;
	} });
	return v;
}

void displays(mc::Ctx& c) {
	string const file = "doc.csx", other = "other.csx";
	auto const docs = corpus();
	for(auto const& d : docs) if(d.name == "box") write_file(other, d.doc.str());
	for(auto const& d : docs) {
		if(c.thorough() ? d.name == "empty" || d.name == "reversed" : d.name != "overlap" && d.name != "diagonal") continue;
		int const full_depth = c.thorough() ? 4 : 3;
		auto const ops = display_ops(other);
		// One case is a prefix of two; what follows is explored in processes forked from there.
		for(char const* start : { "", "tb_show_displayed", "tb_show_everything", "a_mesh_prev" })
		for(std::size_t a = 0; a < ops.size(); ++a)
			for(std::size_t b = 0; b < ops.size(); ++b) {
				if(!c.take("sequences")) continue;
				write_file(file, d.doc.str());
				c.describe(d.name + ": " + start + ", " + ops[a].name + ", " + ops[b].name + ", ...\n" + d.doc.str());
				c.run([&] {
					auto out = in_child([&](auto const& put) {
						fresh();
						User u(params_for(file));
						u.w->parse_and_display();
						u.settle();
						for(int k = start == string("a_mesh_prev") ? 6 : *start ? 1 : 0; k--;) u.press(start);
						int const depth = start == string("a_mesh_prev") && !c.thorough() ? full_depth - 1 : full_depth;
						vector<string> path;
						auto check = [&] {
							vector<string> bad;
							check_display(u, bad);
							if(!u.replies.empty()) bad.push_back("a dialog was expected");
							for(auto const& x : u.wrong) bad.push_back(x);
							string r;
							for(auto const& x : path) r += x + ", ";
							r += "\n";
							join(bad, r);
							put(r);
							return bad.empty();
						};
						std::function<void ()> rec = [&] {
							if((int) path.size() == depth) return;
							for(std::size_t k = 0; k < ops.size(); ++k) {
								if(path.size() == 0 && k != a) continue;
								if(path.size() == 1 && k != b) continue;
								fflush(nullptr);
								pid_t const pid = fork();
								if(!pid) {
									alarm(100);
									path.push_back(ops[k].name);
									if(ops[k].act(u) && check()) rec();
									_exit(0);
								}
								int st = 0;
								waitpid(pid, &st, 0);
								if(st) { string r; for(auto const& x : path) r += x + ", "; put(r + ops[k].name + "\n!" + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "it does not answer any more" : "it crashed") : "it ended abnormally")); }
							}
						};
						if(check()) rec();
					}, 200);
					for(auto const& r : out.records) if(auto k = r.find("\n!"); k != string::npos) c.fail("after " + r);
					if(!out.end.empty()) c.fail("at the end: " + out.end);
					if(out.records.empty()) c.fail("nothing was reported");
					c.states += out.records.size();
					c.transitions += out.records.size() - 1;
					++c.nontrivial;
					++c.traces;
					c.outcome(d.name + std::to_string(out.records.size()));
				});
			}
	}
}

} // namespace
