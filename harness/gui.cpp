// U01..U05: the real main window (offscreen), driven through its own actions,
// buttons, scenes and dialogs, against the application layer driven directly
// and against what the board says. Every case runs in a process of its own.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <deque>
#include <filesystem>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sys/wait.h>

#include <QAction>
#include <QAbstractItemDelegate>
#include <QApplication>
#include <QCloseEvent>
#include <QComboBox>
#include <QDialogButtonBox>
#include <QFileDialog>
#include <QGraphicsSceneMouseEvent>
#include <QKeyEvent>
#include <QLabel>
#include <QLineEdit>
#include <QMenu>
#include <QMessageBox>
#include <QPushButton>
#include <QStandardItemModel>
#include <QStatusBar>
#include <QTableView>
#include <QTimer>
#include <QToolButton>

#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "infra/utils/to_string.hpp"
#include "ui/qt/main_window.hpp"
#include "ui/qt/processing_view/processing_axis.hpp"
#include "ui/qt/processing_view/processing_plane.hpp"
#include "ui/qt/processing_view/processing_polygon.hpp"
#include "ui/qt/processing_view/processing_scene.hpp"
#include "ui/qt/processing_view/processing_view.hpp"
#include "ui/qt/structure_view/structure_angle.hpp"
#include "ui/qt/structure_view/structure_scene.hpp"
#include "ui/qt/structure_view/structure_view.hpp"
#include "ui/qt/utils/nodegraph/container.hpp"
#include "ui/qt/utils/nodegraph/node.hpp"
#include "ui/qt/utils/nodegraph/port.hpp"

using namespace oe;
using namespace ui::qt;
using std::string;
using std::vector;
using app::OpenEMSH;
using app::Step;
using nodegraph::Node;

namespace {

constexpr int NSTEP = 15;

// Meshing time grows with log(smoothness); what is checked here does not depend on it.
void faster(Params& p) { p.smoothness = 1.1; }

OpenEMSH::Params params_for(string const& input, string const& output = {}) {
	OpenEMSH::Params p;
	p.input = input;
	p.output = output;
	p.gui = true;
	p.override_from_cli = faster;
	return p;
}

// ---------------------------------------------------------------- entities
// What can be displayed, named by position so that two runs can be compared.
enum Kind { POLYGON, EDGE, ANGLE, EIP, CE, TCMLP, DOCZ, POLICY, INTERVAL, LINE };
char const* const KIND[] = { "Polygon", "Edge", "Angle", "ConflictEdgeInPolygon", "ConflictColinearEdges", "ConflictTooCloseMeshlinePolicies",
	"ConflictDiagonalOrCircularZone", "MeshlinePolicy", "Interval", "Meshline" };

struct Item {
	Kind kind;
	int space;           // plane or axis
	::Entity const* entity;
	void const* self;    // the object of its own type
	std::size_t id;
	::Entity const* polygon = nullptr; // of an edge
};

template<class T> Item item(Kind k, int space, T* x) { return { k, space, static_cast<::Entity const*>(x), x, x->id }; }

vector<Item> items(Board const& b) {
	vector<Item> v;
	for(auto p : AllPlane) {
		for(auto const& poly : b.get_polygons(p)) {
			v.push_back(item(POLYGON, p, poly.get()));
			for(auto const& e : poly->edges) {
				v.push_back(item(EDGE, p, e.get()));
				v.back().polygon = poly.get();
			}
		}
		for(auto const& x : b.get_angles(p)) v.push_back(item(ANGLE, p, x.get()));
		for(auto const& x : b.get_conflicts_edge_in_polygons(p)) v.push_back(item(EIP, p, x.get()));
	}
	for(auto a : AllAxis) {
		for(auto const& x : b.get_conflicts_colinear_edges(a)) v.push_back(item(CE, a, x.get()));
		for(auto const& x : b.get_conflicts_too_close_meshline_policies(a)) v.push_back(item(TCMLP, a, x.get()));
		for(auto const& x : b.get_conflicts_diagonal_or_circular_zones(a)) v.push_back(item(DOCZ, a, x.get()));
		for(auto const& x : b.get_meshline_policies(a)) v.push_back(item(POLICY, a, x.get()));
		for(auto const& x : b.get_intervals(a)) v.push_back(item(INTERVAL, a, x.get()));
		for(auto const& x : b.get_meshlines(a)) v.push_back(item(LINE, a, x.get()));
	}
	return v;
}
template<class T> T const& as(Item const& i) { return *static_cast<T const*>(i.self); }
bool on_plane(Kind k) { return k <= EIP; }

// Entities of a kind, in order; negative index counts from the end.
std::optional<Item> find(Board const& b, Kind k, int n) {
	vector<Item> v;
	for(auto const& i : items(b)) if(i.kind == k) v.push_back(i);
	if(n < 0) n += (int) v.size();
	if(n < 0 || n >= (int) v.size()) return {};
	return v[n];
}

// ------------------------------------------------------------------ window
// A user in front of the window.
struct Reply {
	enum { BUTTON, FILE, EDIT, MENU } what;
	int button = 0;              // QMessageBox::StandardButton, or 0 to dismiss
	string path;                 // or entry of a menu; empty: cancel
	std::function<void (QStandardItemModel&, QTableView&)> edit;
	bool ok = true;              // edition accepted or cancelled
	int menu = 0;
};

struct User {
	std::unique_ptr<OpenEMSH> oemsh;
	std::unique_ptr<MainWindow> w;
	ProcessingView* pv = nullptr;
	StructureView* sv = nullptr;
	std::deque<Reply> replies;
	vector<string> seen;  // dialogs
	vector<string> wrong; // what this process found wrong by itself

	explicit User(OpenEMSH::Params const& p)
	: oemsh(std::make_unique<OpenEMSH>(p))
	{
		w = std::make_unique<MainWindow>(*oemsh);
		pv = w->findChild<ProcessingView*>("processing_view");
		sv = w->findChild<StructureView*>("structure_view");
		arm();
	}

	void arm() { QTimer::singleShot(0, qApp, [this] { poll(); }); }
	bool armed = true;

	QAction* action(char const* n) { return w->findChild<QAction*>(n); }
	QAbstractButton* button(char const* n) { return w->findChild<QAbstractButton*>(n); }
	bool enabled(char const* n) { if(auto* a = action(n)) return a->isEnabled(); return button(n)->isEnabled(); }
	bool checked(char const* n) { return button(n)->isChecked(); }
	void press(char const* n) {
		if(auto* a = action(n)) a->trigger();
		else button(n)->click();
		settle();
	}
	void settle() {
		for(int i = 0; i < 3; ++i) QCoreApplication::processEvents();
		if(!replies.empty()) { seen.push_back("(not asked)"); replies.clear(); }
	}
	Board const& board() { return oemsh->get_board(); }

	bool ready = false;
	void poll() {
		arm(); // Dialogs nest event loops: the next one needs to be polled from there.
		if(auto* menu = qobject_cast<QMenu*>(QApplication::activePopupWidget())) {
			string s = "menu";
			for(auto* a : menu->actions()) s += " [" + a->text().toStdString() + "]";
			seen.push_back(s);
			if(!replies.empty() && replies.front().what == Reply::MENU) {
				auto const r = replies.front();
				replies.pop_front();
				auto acts = menu->actions();
				if(r.path.empty() && r.menu < acts.size()) acts[r.menu]->trigger();
				for(auto* a : acts)
					if(!r.path.empty() && a->text().toStdString() == r.path) { a->trigger(); break; }
			}
			menu->close();
			return;
		}
		auto* d = qobject_cast<QDialog*>(QApplication::activeModalWidget());
		if(!d) return;
		if(auto* m = qobject_cast<QMessageBox*>(d)) {
			string s = "message <" + m->text().toStdString() + ">";
			vector<string> names;
			for(auto* b : m->buttons()) names.push_back(b->text().remove('&').toStdString());
			std::sort(names.begin(), names.end());
			for(auto const& n : names) s += " [" + n + "]";
			seen.push_back(s);
			if(!replies.empty() && replies.front().what == Reply::BUTTON) {
				auto r = replies.front();
				replies.pop_front();
				if(auto* b = r.button ? m->button((QMessageBox::StandardButton) r.button) : nullptr) b->click();
				else {
					QKeyEvent e(QEvent::KeyPress, Qt::Key_Escape, Qt::NoModifier);
					QCoreApplication::sendEvent(m, &e);
				}
			} else if(m->buttons().size() == 1) {
				m->buttons().front()->click(); // Nothing to choose.
			} else {
				seen.push_back("(unexpected question)");
				m->reject();
			}
		} else if(auto* f = qobject_cast<QFileDialog*>(d)) {
			if(!replies.empty() && replies.front().what == Reply::FILE) {
				auto r = replies.front();
				replies.pop_front();
				if(r.path.empty()) { f->reject(); return; }
				f->selectFile(QString::fromStdString(std::filesystem::absolute(r.path).string()));
				auto before = f->result();
				static_cast<QDialog*>(f)->accept();
				if(f->isVisible() && f->result() == before) f->reject(); // The dialog itself refused.
			} else {
				seen.push_back("(unexpected file dialog)");
				f->reject();
			}
		} else if(auto* t = d->findChild<QTableView*>("tv_properties")) {
			auto* model = qobject_cast<QStandardItemModel*>(t->model());
			if(!replies.empty() && replies.front().what == Reply::EDIT) {
				t->grab(); // Displayed, as for a user.
				auto r = replies.front();
				replies.pop_front();
				seen.push_back("edit " + d->windowTitle().toStdString());
				if(r.edit) r.edit(*model, *t);
				auto* box = d->findChild<QDialogButtonBox*>("dbb_ok");
				if(r.ok) box->button(QDialogButtonBox::Ok)->click();
				else d->reject();
			} else {
				seen.push_back("(unexpected edition dialog)");
				d->reject();
			}
		} else {
			seen.push_back("(unexpected dialog)");
			d->reject();
		}
	}

	ProcessingScene& ps() { return *pv->get_current_state().scene; }
	StructureScene& ss(Plane p) { return *sv->get_current_state().scenes[p]; }

	// Asks for the edition of an entity as a user does: select it, press edit.
	void select_on_processing(::Entity const* e) {
		auto* n = ps().index.at(e);
		if(!n->isVisible()) press("tb_show_everything");
		ps().clearSelection();
		n->setSelected(true);
	}
};

// Types a text into a cell, as a user does: only where the view lets them.
bool type_in(QTableView& t, int row, string const& text) {
	auto const ix = t.model()->index(row, t.model()->columnCount() - 1);
	if(!(t.model()->flags(ix) & Qt::ItemIsEditable)) return false;
	auto* d = t.itemDelegateForIndex(ix);
	auto* e = d->createEditor(t.viewport(), QStyleOptionViewItem(), ix);
	d->setEditorData(e, ix);
	auto* l = qobject_cast<QLineEdit*>(e);
	if(!l) { delete e; return false; }
	l->setText(QString::fromStdString(text));
	d->setModelData(e, t.model(), ix);
	delete e;
	return true;
}
bool toggle(QTableView& t, int row) {
	auto const ix = t.model()->index(row, t.model()->columnCount() - 1);
	if(!(t.model()->flags(ix) & Qt::ItemIsUserCheckable)) return false;
	auto const was = t.model()->data(ix, Qt::CheckStateRole).toInt();
	t.model()->setData(ix, was == Qt::Checked ? Qt::Unchecked : Qt::Checked, Qt::CheckStateRole);
	return true;
}
// Choices the combo box of a cell offers.
vector<string> choices(QTableView& t, int row) {
	vector<string> v;
	auto const ix = t.model()->index(row, t.model()->columnCount() - 1);
	if(!(t.model()->flags(ix) & Qt::ItemIsEditable)) return v;
	auto* e = t.itemDelegateForIndex(ix)->createEditor(t.viewport(), QStyleOptionViewItem(), ix);
	if(auto* c = qobject_cast<QComboBox*>(e))
		for(int i = 0; i < c->count(); ++i)
			if(static_cast<QStandardItemModel*>(c->model())->item(i)->isEnabled()) v.push_back(c->itemText(i).toStdString());
	delete e;
	return v;
}
bool choose(QTableView& t, int row, string const& what) {
	auto const v = choices(t, row);
	if(std::find(v.begin(), v.end(), what) == v.end()) return false;
	auto const ix = t.model()->index(row, t.model()->columnCount() - 1);
	auto* d = t.itemDelegateForIndex(ix);
	auto* e = d->createEditor(t.viewport(), QStyleOptionViewItem(), ix);
	d->setEditorData(e, ix);
	auto* c = qobject_cast<QComboBox*>(e);
	c->setCurrentIndex(c->findText(QString::fromStdString(what)));
	d->setModelData(e, t.model(), ix);
	delete e;
	t.grab();
	return true;
}

// ------------------------------------------------------------------- views
vector<string> texts(QGraphicsItem const* n) {
	vector<string> v;
	for(auto* c : n->childItems())
		if(auto* t = dynamic_cast<QGraphicsSimpleTextItem*>(c)) v.push_back(t->text().toStdString());
	return v;
}
bool shows(vector<string> const& v, string const& s) { return std::find(v.begin(), v.end(), s) != v.end(); }
bool near(double a, double b, double rel = 1e-5) { return std::abs(a - b) <= rel * std::max({ 1e-6, std::abs(a), std::abs(b) }); }
bool shows_number(vector<string> const& v, string const& label, double x, double tol = 0) {
	for(auto const& s : v)
		if(s.rfind(label + ": ", 0) == 0) {
			char* end;
			string const n = s.substr(label.size() + 2);
			double const y = std::strtod(n.c_str(), &end);
			return !n.empty() && !*end && (near(x, y) || std::abs(x - y) <= tol);
		}
	return false;
}
string all(vector<string> const& v) { string s; for(auto const& x : v) s += "\"" + x + "\" "; return s; }

template<class T> ::Entity const* up(T const* x) { return static_cast<::Entity const*>(x); }

::Entity const* origin(IMeshLineOrigin const* o) {
	if(auto* x = dynamic_cast<Edge const*>(o)) return x;
	if(auto* x = dynamic_cast<Angle const*>(o)) return x;
	if(auto* x = dynamic_cast<ConflictColinearEdges const*>(o)) return x;
	if(auto* x = dynamic_cast<ConflictTooCloseMeshlinePolicies const*>(o)) return x;
	return nullptr;
}

// What an entity comes from, according to the board.
std::set<::Entity const*> sources(Item const& i) {
	std::set<::Entity const*> s;
	switch(i.kind) {
	case EDGE: if(auto* c = as<Edge>(i).get_current_state().conflict) s.insert(up(c)); break;
	case ANGLE: s = { up(as<Angle>(i).e0), up(as<Angle>(i).e1) }; break;
	case EIP:
		s.insert(up(as<ConflictEdgeInPolygon>(i).edge));
		for(auto const& o : as<ConflictEdgeInPolygon>(i).get_current_state().overlaps) s.insert(up(std::get<0>(o)));
		break;
	case CE: for(auto* e : as<ConflictColinearEdges>(i).get_current_state().edges) s.insert(up(e)); break;
	case TCMLP: for(auto* p : as<ConflictTooCloseMeshlinePolicies>(i).meshline_policies) s.insert(up(p)); break;
	case DOCZ: for(auto* a : as<ConflictDiagonalOrCircularZone>(i).get_current_state().angles) s.insert(up(a)); break;
	case POLICY: for(auto* o : as<MeshlinePolicy>(i).get_current_state().origins) if(auto* e = origin(o)) s.insert(e); break;
	case INTERVAL: {
		auto const& st = as<Interval>(i).get_current_state();
		for(auto* p : { st.before.meshline_policy, st.after.meshline_policy }) if(p) s.insert(up(p));
		for(auto* c : st.conflicts) if(auto* z = dynamic_cast<ConflictDiagonalOrCircularZone const*>(c)) s.insert(up(z));
	} break;
	case LINE:
		if(auto* x = as<Meshline>(i).interval) s.insert(up(x));
		if(auto* x = as<Meshline>(i).policy) s.insert(up(x));
		break;
	default: break;
	}
	return s;
}

string label(Item const& i) { return string(KIND[i.kind]) + " " + std::to_string(i.id) + " of " + (on_plane(i.kind) ? name((Plane) i.space) : name((Axis) i.space)); }
char const* tf(bool b) { return b ? "true" : "false"; }
string to_text(auto e) { return string(::to_string(e)); }

// The processing view against the board.
void check_processing(User& u, vector<string>& bad) {
	auto& scene = u.ps();
	auto const list = items(u.board());
	auto complain = [&](string const& s) { if(bad.size() < 8) bad.push_back("processing view: " + s); };
	if(scene.index.size() != list.size()) complain(std::to_string(scene.index.size()) + " entities displayed, the board has " + std::to_string(list.size()));
	if((std::size_t) scene.nodes.size() != list.size() + 6) complain(std::to_string(scene.nodes.size()) + " nodes, expected " + std::to_string(list.size() + 6));
	std::map<Node const*, ::Entity const*> of;
	for(auto const& [e, n] : scene.index) of[n] = e;
	for(auto const& i : list) {
		auto it = scene.index.find(i.entity);
		if(it == scene.index.end()) { complain(label(i) + " is not displayed"); continue; }
		Node const* n = it->second;
		auto const t = texts(n);
		auto expect = [&](bool ok, string const& what) { if(!ok) complain(label(i) + " does not show " + what + ": " + all(t)); };
		auto text = [&](string const& s) { expect(shows(t, s), "\"" + s + "\""); };
		auto number = [&](string const& l, double x, double tol = 0) { expect(shows_number(t, l, x, tol), l + ": " + num(x)); };
		// Title
		string title = string(KIND[i.kind]) + " - " + std::to_string(i.id);
		if(i.kind == POLYGON) title += " - " + as<Polygon>(i).name;
		text(title);
		// Place
		Node const* container = on_plane(i.kind) ? (Node const*) scene.planes[(Plane) i.space] : (Node const*) scene.axes[(Axis) i.space];
		if(i.polygon) container = scene.index.count(i.polygon) ? scene.index.at(i.polygon) : nullptr;
		if((Node const*) n->get_surrounding_container() != container) complain(label(i) + " is not in its container");
		// Content
		std::size_t ports = 0;
		switch(i.kind) {
		case POLYGON:
			text("Type: " + (as<Polygon>(i).material ? to_text(as<Polygon>(i).material->type) : ""));
			number("Priority", as<Polygon>(i).priority);
			break;
		case EDGE: {
			auto const& s = as<Edge>(i).get_current_state();
			text("Normal: " + to_text(as<Edge>(i).normal));
			text(string("To mesh: ") + tf(s.to_mesh));
			text(string("To reverse: ") + tf(s.to_reverse));
			ports = 1;
		} break;
		case ANGLE: {
			auto const& s = as<Angle>(i).get_current_state();
			number("Angle (°)", as<Angle>(i).angle.value());
			text(string("To mesh [H]: ") + tf(s.to_mesh[H]));
			text(string("To mesh [V]: ") + tf(s.to_mesh[V]));
			ports = 2;
		} break;
		case EIP: ports = 1 + as<ConflictEdgeInPolygon>(i).get_current_state().overlaps.size(); break;
		case CE: {
			auto const& edges = as<ConflictColinearEdges>(i).get_current_state().edges;
			ports = edges.size();
			for(std::size_t k = 0; k < edges.size() && k < (std::size_t) n->input_ports.size(); ++k) {
				string const s = "Normal: " + to_text(edges[k]->normal) + (edges[k]->get_current_state().to_mesh ? " enabled" : " disabled");
				bool found = false; // On a port that is wired to that edge.
				for(auto* p : n->input_ports)
					if(p->text().toStdString() == s)
						for(auto* m : p->traverse_to_nodes())
							if(scene.index.count(up(edges[k])) && m == scene.index.at(up(edges[k]))) found = true;
				expect(found, "\"" + s + "\" wired to Edge " + std::to_string(edges[k]->id));
			}
		} break;
		case TCMLP: ports = 2; break;
		case DOCZ: {
			auto const& s = as<ConflictDiagonalOrCircularZone>(i).get_current_state();
			number("dmax", s.dmax);
			number("lmin", (double) s.lmin);
			number("Minimal angle (°)", s.minimal_angle);
			ports = 1;
		} break;
		case POLICY: {
			auto const& s = as<MeshlinePolicy>(i).get_current_state();
			text("Policy: " + to_text(s.policy));
			text("Normal: " + to_text(s.normal));
			text(string("Is enabled: ") + tf(s.is_enabled));
			number("d", s.d);
			ports = s.origins.size();
		} break;
		case INTERVAL: {
			auto const& s = as<Interval>(i).get_current_state();
			number("dmax", s.dmax);
			number("Before.lmin", (double) s.before.lmin);
			number("Before.Smoothness", s.before.smoothness);
			number("After.lmin", (double) s.after.lmin);
			number("After.Smoothness", s.after.smoothness);
			bool zone = false;
			for(auto* c : s.conflicts) zone |= dynamic_cast<ConflictDiagonalOrCircularZone const*>(c) != nullptr;
			ports = 2 + zone;
			auto wired = [&](Node const* m, MeshlinePolicy const* p, nodegraph::Port* q) {
				(void) m;
				auto l = q->traverse_to_nodes();
				return p ? l.size() == 1 && scene.index.count(up(p)) && l.front() == scene.index.at(up(p)) : l.isEmpty();
			};
			if(n->input_ports.size() >= 2) {
				expect(wired(n, s.before.meshline_policy, n->input_ports.front()), "its first policy on its first port");
				expect(wired(n, s.after.meshline_policy, n->input_ports.back()), "its last policy on its last port");
			}
		} break;
		case LINE:
			number("Coord", as<Meshline>(i).coord.value(), 5.1e-7);
			ports = 2;
			break;
		}
		if((std::size_t) n->input_ports.size() != ports) complain(label(i) + " has " + std::to_string(n->input_ports.size()) + " input ports, expected " + std::to_string(ports));
		// Relations
		std::set<::Entity const*> got;
		for(auto* m : n->get_input_nodes())
			if(of.count(m)) got.insert(of[m]);
			else complain(label(i) + " is wired to something that is not displayed");
		auto const want = sources(i);
		if(got != want) complain(label(i) + " is wired to " + std::to_string(got.size()) + " nodes, which are not the " + std::to_string(want.size()) + " it comes from");
	}
	for(auto const& [e, n] : u.ps().index)
		for(auto const* q : n->input_ports) {
			std::set<nodegraph::Port const*> once;
			for(auto const* w : q->get_wires())
				if(!once.insert(w->traverse(q)).second) complain("two wires between the same ports");
		}
}

bool same(QPointF const& a, double x, double y) { return std::abs(a.x() - x) < 1e-9 && std::abs(a.y() - y) < 1e-9; }

// The structure view against the board.
void check_structure(User& u, vector<string>& bad) {
	auto const list = items(u.board());
	for(auto plane : AllPlane) {
		auto& scene = u.ss(plane);
		auto complain = [&](string const& s) { if(bad.size() < 8) bad.push_back(string("structure view ") + name(plane) + ": " + s); };
		std::size_t n = 0;
		for(auto const& i : list) {
			if(i.kind == EIP) continue; // Not displayed there.
			std::optional<ViewAxis> va;
			if(on_plane(i.kind)) { if(i.space != plane) continue; }
			else { va = transpose(plane, (Axis) i.space); if(!va) continue; }
			++n;
			auto it = scene.index.find(i.entity);
			if(it == scene.index.end()) { complain(label(i) + " is not displayed"); continue; }
			auto* g = it->second;
			auto check = [&](bool ok) { if(!ok) complain(label(i) + " is misplaced"); };
			// A coordinate of axis H is a vertical line, at that x.
			auto is_line = [&](QLineF const& l, double c) {
				bool const vertical = *va == H;
				double const length = vertical ? std::abs(l.dy()) : std::abs(l.dx());
				QRectF const r = scene.polygons->childrenBoundingRect();
				if(scene.polygons->childItems().isEmpty()) // Nothing to be compared to.
					return vertical ? std::abs(l.x1() - c) < 1e-9 : std::abs(l.y1() - c) < 1e-9;
				return (vertical ? std::abs(l.x1() - c) < 1e-9 && std::abs(l.x2() - c) < 1e-9 : std::abs(l.y1() - c) < 1e-9 && std::abs(l.y2() - c) < 1e-9)
					&& length > 0 && (vertical ? std::min(l.y1(), l.y2()) <= r.top() + 1e-9 && std::max(l.y1(), l.y2()) >= r.bottom() - 1e-9
					                           : std::min(l.x1(), l.x2()) <= r.left() + 1e-9 && std::max(l.x1(), l.x2()) >= r.right() - 1e-9);
			};
			auto is_band = [&](QRectF const& q, double a, double b) {
				auto const r = q.normalized();
				if(a > b) std::swap(a, b);
				return *va == H ? std::abs(r.left() - a) < 1e-9 && std::abs(r.right() - b) < 1e-9 : std::abs(r.top() - a) < 1e-9 && std::abs(r.bottom() - b) < 1e-9;
			};
			auto line = [&] { auto* l = dynamic_cast<QGraphicsLineItem*>(g); return l ? l->line() : QLineF(); };
			auto rect = [&] { auto* l = dynamic_cast<QGraphicsRectItem*>(g); return l ? l->rect() : QRectF(); };
			switch(i.kind) {
			case POLYGON: {
				auto* q = dynamic_cast<QGraphicsPolygonItem*>(g);
				auto const& pts = as<Polygon>(i).points;
				bool ok = q && (std::size_t) q->polygon().size() == pts.size() + 1;
				for(std::size_t k = 0; ok && k <= pts.size(); ++k) ok = same(q->polygon()[k], pts[k % pts.size()]->x.value(), pts[k % pts.size()]->y.value());
				check(ok);
			} break;
			case EDGE: check(same(line().p1(), as<Edge>(i).p0().x.value(), as<Edge>(i).p0().y.value()) && same(line().p2(), as<Edge>(i).p1().x.value(), as<Edge>(i).p1().y.value())); break;
			case ANGLE: {
				auto* q = dynamic_cast<QGraphicsEllipseItem*>(g);
				check(q && same(q->rect().center(), as<Angle>(i).p.x.value(), as<Angle>(i).p.y.value()));
			} break;
			case CE: {
				// They all share the coordinate, along the axis of the conflict.
				auto* e = as<ConflictColinearEdges>(i).get_current_state().edges.front();
				check(is_line(line(), coord(e->p0(), *transpose(e->plane, (Axis) i.space)).value()));
			} break;
			case TCMLP: {
				auto const& c = as<ConflictTooCloseMeshlinePolicies>(i);
				auto* s = dynamic_cast<MeshlinePolicy const*>(c.get_current_state().solution);
				check(s && is_line(line(), s->coord.value()));
			} break;
			case DOCZ: {
				auto const bounds = as<ConflictDiagonalOrCircularZone>(i).bounding();
				check(is_band(rect(), bounds[XMIN].value(), bounds[XMAX].value()));
			} break;
			case POLICY: check(is_line(line(), as<MeshlinePolicy>(i).coord.value())); break;
			case INTERVAL: {
				auto const& s = as<Interval>(i).get_current_state();
				check(is_band(rect(), s.before.meshline_policy->coord.value(), s.after.meshline_policy->coord.value()));
			} break;
			case LINE: check(is_line(line(), as<Meshline>(i).coord.value())); break;
			default: break;
			}
		}
		if(scene.index.size() != n) complain(std::to_string(scene.index.size()) + " entities displayed, expected " + std::to_string(n));
	}
}

// What the checked buttons announce is what both views show.
void check_display(User& u, vector<string>& bad) {
	auto complain = [&](string const& s) { if(bad.size() < 8) bad.push_back("display: " + s); };
	auto one = [&](std::initializer_list<char const*> l) {
		int n = -1, k = 0, count = 0;
		for(auto* x : l) { if(u.checked(x)) { n = k; ++count; } ++k; }
		if(count != 1) complain("not exactly one button of a group is checked");
		return n;
	};
	Plane const planes[] = { XY, YZ, ZX };
	int const ip = one({ "tb_plane_xy", "tb_plane_yz", "tb_plane_zx" });
	int const im = one({ "tb_show_all_mesh", "tb_show_horizontal_mesh", "tb_show_vertical_mesh", "tb_show_no_mesh" });
	int const id = one({ "tb_show_everything", "tb_show_displayed", "tb_show_selected" });
	if(ip < 0 || im < 0 || id < 0) return;
	Plane const plane = planes[ip];
	bool const horizontal = im == 0 || im == 1, vertical = im == 0 || im == 2;
	if(u.sv->scene() != &u.ss(plane)) complain(string("plane ") + name(plane) + " is announced, another scene is displayed");
	if(u.pv->scene() != &u.ps()) complain("the processing view does not display the scene of the current state");
	auto const list = items(u.board());
	for(auto p : AllPlane)
		for(auto const& i : list)
			if(i.kind == LINE)
				if(auto va = transpose(p, (Axis) i.space)) {
					auto it = u.ss(p).index.find(i.entity);
					if(it == u.ss(p).index.end()) continue;
					bool const want = *va == V ? horizontal : vertical;
					if(it->second->isVisible() != want) { complain(label(i) + (want ? " is hidden" : " is visible") + " on the structure view " + name(p)); break; }
				}
	auto& scene = u.ps();
	std::set<Node const*> want;
	auto add = [&](Node const* n) {
		for(; n; n = n->get_surrounding_container()) want.insert(n);
	};
	auto place_visible = [&](Item const& i) {
		if(on_plane(i.kind)) return i.space == plane;
		auto va = transpose(plane, (Axis) i.space);
		return va && (*va == V ? horizontal : vertical);
	};
	if(id == 0) {
		for(auto* n : scene.nodes) want.insert(n);
	} else if(id == 1) {
		want.insert(scene.planes[plane]);
		for(auto a : AllAxis)
			if(auto va = transpose(plane, a); va && (*va == V ? horizontal : vertical)) want.insert(scene.axes[a]);
		for(auto const& i : list) if(place_visible(i) && scene.index.count(i.entity)) want.insert(scene.index.at(i.entity));
	} else {
		// The selection, what it comes from, what comes from it, and what contains them.
		std::map<::Entity const*, Item> by;
		for(auto const& i : list) by.emplace(i.entity, i);
		std::map<::Entity const*, std::set<::Entity const*>> down;
		for(auto const& i : list) for(auto* s : sources(i)) down[s].insert(i.entity);
		for(auto* n : scene.nodes) if(n->isSelected()) add(n);
		for(auto const& [e, n] : scene.index) {
			if(!n->isSelected()) continue;
			std::set<::Entity const*> seen_up{ e }, seen_down{ e };
			vector<::Entity const*> todo{ e };
			while(!todo.empty()) {
				auto* x = todo.back(); todo.pop_back();
				if(!by.count(x)) continue;
				for(auto* s : sources(by.at(x))) if(seen_up.insert(s).second) todo.push_back(s);
			}
			todo = { e };
			while(!todo.empty()) {
				auto* x = todo.back(); todo.pop_back();
				for(auto* s : down[x]) if(seen_down.insert(s).second) todo.push_back(s);
			}
			for(auto const& set : { seen_up, seen_down })
				for(auto* s : set)
					if(scene.index.count(s)) add(scene.index.at(s));
		}
	}
	static char const* const mode[] = { "everything", "displayed on the structure view", "selected chain" };
	for(auto* n : scene.nodes)
		if(n->isVisible() != (want.count(n) > 0)) {
			auto t = texts(n);
			complain("node " + (t.empty() ? string("?") : t.front()) + (n->isVisible() ? " is visible" : " is hidden") + " while showing " + mode[id]);
		}
}

// ---------------------------------------------------------------- processes
// Runs f in a child process, which reports one record per step.
struct Outcome {
	vector<string> records;
	string end; // empty when it went to its end
};

Outcome in_child(std::function<void (std::function<void (string const&)> const&)> const& f, unsigned timeout = 40) {
	int fd[2];
	if(pipe(fd)) std::abort();
	fflush(nullptr);
	pid_t const pid = fork();
	if(!pid) {
		close(fd[0]);
		std::signal(SIGALRM, SIG_DFL);
		alarm(timeout);
		auto put = [&](string const& s) {
			string r = s + '\x1e';
			for(std::size_t k = 0; k < r.size();) { auto n = ::write(fd[1], r.data() + k, r.size() - k); if(n <= 0) _exit(99); k += n; }
		};
		try { f(put); }
		catch(std::exception const& e) { put(string("!exception: ") + e.what()); _exit(98); }
		_exit(0);
	}
	close(fd[1]);
	string all;
	char buf[65536];
	for(ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) all.append(buf, n);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	Outcome o;
	for(std::size_t k = 0, e; (e = all.find('\x1e', k)) != string::npos; k = e + 1) o.records.push_back(all.substr(k, e - k));
	if(WIFSIGNALED(st)) o.end = WTERMSIG(st) == SIGALRM ? "it does not answer any more" : string("it crashed (") + strsignal(WTERMSIG(st)) + ")";
	else if(WEXITSTATUS(st)) o.end = "it ended abnormally (" + std::to_string(WEXITSTATUS(st)) + ")";
	return o;
}

string flags(bool undo, bool redo, bool prev, bool next) {
	return string("undo ") + (undo ? "on" : "off") + ", redo " + (redo ? "on" : "off") + ", back " + (prev ? "on" : "off") + ", next " + (next ? "on" : "off") + "\n";
}
string window_flags(User& u) { return flags(u.enabled("a_undo"), u.enabled("a_redo"), u.enabled("a_mesh_prev"), u.enabled("a_mesh_next")); }
string app_flags(OpenEMSH const& o) {
	auto& c = Caretaker::singleton();
	return flags(c.can_undo(), c.can_redo(), o.can_go_before(), o.can_run_a_next_step());
}
// As openEMS counts them: lines, on each axis.
string cells(Board const& b) {
	std::size_t n = 1;
	for(auto a : AllAxis) n *= b.get_meshlines(a).size();
	return std::to_string(n);
}
string window_cells(User& u) {
	string s = u.w->findChild<QLabel*>("l_cell_number")->text().toStdString();
	auto k = s.find_last_of(' ');
	return k == string::npos ? s : s.substr(k + 1);
}

OpenEMSH* reference(string const& input, string const& output = {}) {
	fresh();
	static std::unique_ptr<OpenEMSH> o;
	o = std::make_unique<OpenEMSH>(params_for(input, output));
	auto r = o->parse();
	if(!r) throw mc::Failure { "the document cannot be parsed: " + r.error(), "" };
	o->run_all_steps();
	Caretaker::singleton().pin_current_timepoint(); // What is displayed is kept.
	return o.get();
}

void join(vector<string> const& v, string& s) { for(auto const& x : v) s += "!" + x + "\n"; }

// Compares the records of the window with what is expected.
void compare(mc::Ctx& c, Outcome const& o, vector<string> const& want, vector<string> const& names) {
	for(std::size_t i = 0; i < want.size(); ++i) {
		if(i >= o.records.size()) c.fail("after " + names[i] + ": " + (o.end.empty() ? "nothing was reported" : o.end));
		if(o.records[i] != want[i]) {
			auto k = o.records[i].find('!');
			c.fail("after " + names[i] + ":\n" + (k != string::npos && (k == 0 || o.records[i][k - 1] == '\n') ? o.records[i].substr(k) : diff(want[i], o.records[i])));
		}
	}
	if(!o.end.empty()) c.fail("at the end: " + o.end);
}

// ----------------------------------------------------- U01: navigation
// Every sequence of back / next / undo / redo that the buttons allow.
void navigation(mc::Ctx& c) {
	for(auto const& d : corpus()) {
		int const depth = c.thorough() ? 7 : d.name == "diagonal" || d.name == "close" ? 5 : 4;
		static char const* const act[] = { "a_mesh_prev", "a_mesh_next", "a_undo", "a_redo" };
		static char const* const say[] = { "back", "next", "undo", "redo" };
		vector<int> path;
		auto apply = [](OpenEMSH& o, int a) {
			auto& k = Caretaker::singleton();
			switch(a) {
			case 0: o.go_before_previous_step(); break;
			case 1: o.run_next_step(); break;
			case 2: k.undo(); break;
			case 3: k.redo(); break;
			}
			k.pin_current_timepoint();
		};
		string const file = "doc.csx";
		write_file(file, d.doc.str());
		auto replay = [&] { auto* o = reference(file); for(int a : path) apply(*o, a); return o; };
		auto allowed = [&](OpenEMSH& o) {
			auto& k = Caretaker::singleton();
			vector<int> v;
			if(o.can_go_before()) v.push_back(0);
			if(o.can_run_a_next_step()) v.push_back(1);
			if(k.can_undo()) v.push_back(2);
			if(k.can_redo()) v.push_back(3);
			return v;
		};
		std::function<void ()> rec = [&] {
			if(c.stop) return;
			if((int) path.size() == depth) {
				if(!c.take("navigation")) return;
				string s = d.name + ":";
				vector<string> names{ "opening" };
				for(int a : path) { s += string(" ") + say[a]; names.push_back(s); }
				c.describe(s + "\n" + d.doc.str());
				c.run([&] {
					auto* o = reference(file);
					auto state = [&] { return app_flags(*o) + "cells " + cells(o->get_board()) + "\n" + dump(o->get_board()); };
					vector<string> want{ state() };
					for(int a : path) { apply(*o, a); want.push_back(state()); }
					auto out = in_child([&](auto const& put) {
						fresh();
						User u(params_for(file));
						u.w->parse_and_display();
						u.settle();
						auto state = [&] {
							string s = window_flags(u) + "cells " + window_cells(u) + "\n" + dump(u.board());
							vector<string> bad = u.wrong;
							check_processing(u, bad);
							for(auto const& x : u.seen) bad.push_back("dialog " + x);
							join(bad, s);
							return s;
						};
						put(state());
						for(int a : path) { u.press(act[a]); put(state()); }
					});
					compare(c, out, want, names);
					c.transitions += path.size();
					c.states += want.size();
					++c.nontrivial;
					++c.traces;
					c.outcome(d.name + want.back());
				});
				return;
			}
			for(int a : allowed(*replay())) {
				path.push_back(a);
				rec();
				path.pop_back();
			}
		};
		rec();
	}
}

} // namespace

#include "gui_edit.hpp"
#include "gui_files.hpp"
#include "gui_views.hpp"

namespace {

void body(mc::Ctx& c) {
	if(c.prop == "U01") navigation(c);
	else if(c.prop == "U02") edition(c);
	else if(c.prop == "U03") files(c);
	else if(c.prop == "U04") views(c);
	else if(c.prop == "U05") displays(c);
}

} // namespace

int main(int argc, char** argv) {
	qInstallMessageHandler([](QtMsgType, QMessageLogContext const&, QString const&) {});
	int n = 1;
	QApplication a(n, argv);
	setlocale(LC_ALL, "C");
	return mc::main(argc, argv, body);
}
