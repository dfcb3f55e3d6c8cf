#pragma once
// ---------------------------------------------------------------- U03: files
// Every sequence of opening, editing, saving and closing, with every answer to
// what is asked, from several ways of starting, against a model of what the
// files, the title and the questions have to be. Effects on the disk are
// undone between branches. The directory is a scratch one.

namespace {

namespace fs = std::filesystem;

struct Desk {
	std::map<string, string> files;      // name -> contents
	string doc, input, output;           // as named
	bool has_doc = false, unsaved = false, force = false, closed = false, grid = false;
};

struct Expected { vector<string> words; string buttons; }; // A dialog

string absolute_name(string const& n) { return fs::absolute(n).lexically_normal().string(); }
string base_name(string const& n) { return fs::path(n).lexically_proximate(fs::current_path()).generic_string(); }

std::map<string, string> on_disk() {
	std::map<string, string> m;
	for(auto const& e : fs::recursive_directory_iterator("."))
		if(e.is_regular_file()) m[base_name(e.path().lexically_normal().string())] = read_file(e.path().string());
	return m;
}
void put_back(std::map<string, string> const& m) {
	for(auto const& [n, _] : on_disk()) if(!m.count(n)) fs::remove(n);
	for(auto const& [n, s] : m) if(!fs::exists(n) || read_file(n) != s) write_file(n, s);
}

struct FileOp {
	string name;
	std::function<bool (User&, Desk&, vector<Expected>&)> act;
};

bool has_grid(string const& s) { return s.find("<XLines>") != string::npos; }

// What would be written. The writer has its own properties.
string would_write(User& u, string const& input) {
	string const f = "../expected.csx";
	fs::remove(f);
	auto p = static_cast<SerializerToCsx::Params const&>(u.oemsh->get_params());
	auto r = SerializerToCsx::run(const_cast<Board&>(u.board()), input, f, p);
	string s = r && fs::exists(f) ? read_file(f) : string("!");
	fs::remove(f);
	return s;
}

// Saving to a target, once it is known. yes: answer to the overwriting question.
bool model_write(User& u, Desk& m, string const& target, bool yes, vector<Expected>& want) {
	bool const asks = !m.force && (m.files.count(base_name(target)) || (m.input == target && m.grid));
	if(asks) {
		want.push_back({ { "overwrit", "\"" + target + "\"" }, " [Cancel] [Save]" });
		u.replies.push_back({ .what = Reply::BUTTON, .button = yes ? QMessageBox::Save : QMessageBox::Cancel });
		if(!yes) return false;
	}
	string const s = would_write(u, m.input);
	if(s == "!" || !fs::exists(fs::absolute(target).parent_path())) {
		want.push_back({ { "Failed", "\"" + target + "\"" }, " [OK]" });
		return false;
	}
	m.files[base_name(target)] = s;
	m.output = m.doc = target;
	m.unsaved = false;
	return true;
}

// first: answer to saving elsewhere than what is displayed; second: to overwriting.
bool model_save(User& u, Desk& m, bool first, bool second, vector<Expected>& want) {
	string const target = m.output.empty() ? m.doc : m.output;
	if(target != m.doc) {
		want.push_back({ { "different", "\"" + target + "\"", "\"" + m.input + "\"" }, " [Cancel] [Save]" });
		u.replies.push_back({ .what = Reply::BUTTON, .button = first ? QMessageBox::Save : QMessageBox::Cancel });
		if(!first) return false;
	}
	return model_write(u, m, target, second, want);
}

void model_open(Desk& m, string const& path, vector<Expected>& want, std::map<string, bool> const& readable) {
	m.input = path;
	auto it = m.files.find(base_name(path));
	m.has_doc = it != m.files.end() && readable.at(base_name(path));
	if(!m.has_doc) {
		m.unsaved = false;
		want.push_back({ { "Failed", "\"" + path + "\"" }, " [OK]" });
		return;
	}
	m.doc = path;
	m.grid = has_grid(it->second);
	m.unsaved = true;
}

vector<FileOp> file_ops() {
	vector<FileOp> v;
	static std::map<string, bool> const readable { { "in.csx", true }, { "in2.csx", true }, { "bad.csx", false }, { "existing.csx", true }, { "out.csx", true }, { "new.csx", true } };
	for(int k = 0; k < 3; ++k)
		v.push_back({ string("save") + (k == 0 ? "" : k == 1 ? " (refusing at first)" : " (refusing to overwrite)"), [k](User& u, Desk& m, vector<Expected>& want) {
			if(!m.has_doc) return false;
			auto const before = want.size();
			auto const r = u.replies.size();
			model_save(u, m, k != 1, k == 0, want);
			// The same as another one when nothing is refused.
			if(k && (want.size() == before || u.replies.size() == r || u.replies.back().button == QMessageBox::Save)) { u.replies.clear(); return false; }
			u.press("a_file_save");
			return true;
		} });
	for(char const* target : { "new.csx", "existing.csx", "in.csx", "in2.csx", "" })
		for(bool yes : { true, false })
			v.push_back({ string("save as ") + (*target ? target : "(cancelled)") + (yes ? "" : " (refusing to overwrite)"), [target, yes](User& u, Desk& m, vector<Expected>& want) {
				if(!m.has_doc) return false;
				bool const exists = *target && m.files.count(target);
				if(!yes && (!exists || m.force)) return false;
				u.replies.push_back({ .what = Reply::FILE, .path = target });
				if(exists) { // The file dialog also asks.
					u.replies.push_back({ .what = Reply::BUTTON, .button = QMessageBox::Yes });
					want.push_back({ { target }, " [No] [Yes]" });
				}
				if(*target) model_write(u, m, absolute_name(target), yes, want);
				u.press("a_file_save_as");
				return true;
			} });
	for(char const* path : { "in.csx", "in2.csx", "bad.csx", "new.csx", "" })
		v.push_back({ string("open ") + (*path ? path : "(cancelled)"), [path](User& u, Desk& m, vector<Expected>& want) {
			if(*path && !m.files.count(path)) return false;
			u.replies.push_back({ .what = Reply::FILE, .path = path });
			if(*path) model_open(m, absolute_name(path), want, readable);
			u.press("a_file_open");
			return true;
		} });
	v.push_back({ "edit", [](User& u, Desk& m, vector<Expected>& want) {
		if(!m.has_doc) return false;
		u.ps().clearSelection();
		u.replies.push_back({ .what = Reply::EDIT, .edit = [&u](QStandardItemModel& model, QTableView& t) {
			for(int i = 0; i < model.rowCount(); ++i)
				if(model.index(i, 0).data().toString().contains("dmax") && !model.index(i, 0).data().toString().contains("iag"))
					if(!type_in(t, i, num(model.index(i, model.columnCount() - 1).data().toDouble() * 1.25))) u.wrong.push_back("dmax cannot be edited");
		} });
		auto const before = would_write(u, m.input);
		u.press("a_edit");
		if(would_write(u, m.input) == before && before != "!") u.wrong.push_back("the edition changed nothing");
		m.unsaved = true;
		want.push_back({ { "edit" }, "" });
		return true;
	} });
	v.push_back({ "back", [](User& u, Desk& m, vector<Expected>&) {
		if(!m.has_doc || !u.enabled("a_mesh_prev")) return false;
		u.press("a_mesh_prev");
		m.unsaved = true;
		return true;
	} });
	v.push_back({ "show in another program", [](User& u, Desk& m, vector<Expected>& want) {
		if(!m.has_doc) return false;
		fs::remove("../viewed.csx");
		string const s = would_write(u, m.input);
		if(s == "!") want.push_back({ { "Failed" }, " [OK]" });
		u.press("a_appcsxcad");
		for(int k = 0; k < 500 && s != "!" && !fs::exists("../viewed.csx"); ++k) { QCoreApplication::processEvents(); usleep(10000); }
		string const shown = fs::exists("../viewed.csx") ? read_file("../viewed.csx") : string("!");
		if(shown != s) u.wrong.push_back("what another program shows is not what would be saved:\n" + diff(s, shown));
		fs::remove("../viewed.csx");
		return true;
	} });
	v.push_back({ "(the file that was read vanishes)", [](User&, Desk& m, vector<Expected>&) {
		if(!m.has_doc || !m.files.count(base_name(m.input))) return false;
		fs::remove(m.input);
		m.files.erase(base_name(m.input));
		return true;
	} });
	for(int k = 0; k < 6; ++k)
		v.push_back({ string("close") + (k == 0 ? " (cancel)" : k == 1 ? " (close)" : k == 2 ? " (escape)" : k == 3 ? " (save)" : k == 4 ? " (save, refusing at first)" : " (save, refusing to overwrite)"), [k](User& u, Desk& m, vector<Expected>& want) {
			if(m.unsaved) {
				want.push_back({ { "unsaved" }, " [Cancel] [Close] [Save]" });
				u.replies.push_back({ .what = Reply::BUTTON, .button = k == 0 ? QMessageBox::Cancel : k == 1 ? QMessageBox::Close : k == 2 ? 0 : QMessageBox::Save });
				if(k == 1) m.closed = true;
				if(k >= 3) {
					auto const r = u.replies.size();
					m.closed = model_save(u, m, k != 4, k == 3, want);
					if(k > 3 && (u.replies.size() == r || u.replies.back().button == QMessageBox::Save)) { u.replies.clear(); return false; }
				}
			} else if(k) return false;
			else m.closed = true;
			bool const r = u.w->close();
			u.settle();
			if(r != m.closed) u.wrong.push_back(r ? "the window closed" : "the window did not close");
			return true;
		} });
	return v;
}

void check_files(User& u, Desk const& m, vector<Expected> const& want, string const& base_title, std::map<string, string> const& pristine, string const& op, vector<string>& bad) {
	auto const now = on_disk();
	for(auto const& [n, s] : now) if(!m.files.count(n)) bad.push_back("file " + n + " was written");
	for(auto const& [n, s] : m.files) {
		auto it = now.find(n);
		if(it == now.end()) bad.push_back("there is no file " + n);
		else if(it->second != s) bad.push_back("file " + n + " is not what it should be:\n" + diff(s, it->second));
	}
	// Dialogs
	vector<string> seen;
	for(auto const& s : u.seen) seen.push_back(s);
	for(std::size_t i = 0; i < std::max(seen.size(), want.size()); ++i) {
		if(i >= want.size()) { bad.push_back("not expected: " + seen[i]); continue; }
		string w;
		for(auto const& x : want[i].words) w += x + " ";
		w += want[i].buttons;
		if(i >= seen.size()) { bad.push_back("not asked: " + w); continue; }
		bool ok = seen[i].find(want[i].buttons) != string::npos;
		if(want[i].buttons.size()) ok = ok && seen[i].size() >= want[i].buttons.size() && seen[i].compare(seen[i].size() - want[i].buttons.size(), string::npos, want[i].buttons) == 0
			&& seen[i][seen[i].size() - want[i].buttons.size() - 1] == '>';
		for(auto const& x : want[i].words) ok = ok && seen[i].find(x) != string::npos;
		if(!ok) bad.push_back("asked: " + seen[i] + "\n    expected: " + w);
	}
	u.seen.clear();
	for(auto const& s : u.wrong) bad.push_back(s);
	u.wrong.clear();
	if(m.closed) return;
	if(m.has_doc) {
		string const t = u.w->windowTitle().toStdString();
		if(t != m.doc + " - " + base_title) bad.push_back("the title is \"" + t + "\" while the document is " + m.doc);
		if(op.rfind("open ", 0) == 0 && op != "open (cancelled)") {
			auto const s = would_write(u, m.input);
			auto it = pristine.find(s);
			if(it == pristine.end()) bad.push_back("the document opened is meshed differently than from the application");
		}
	}
	for(auto* n : { "a_file_save", "a_file_save_as", "a_edit", "a_fit", "a_appcsxcad" })
		if(u.enabled(n) != m.has_doc) bad.push_back(string(n) + (m.has_doc ? " is disabled" : " is enabled without document"));
	for(auto* n : { "a_mesh_prev", "a_mesh_next", "a_undo", "a_redo" })
		if(u.enabled(n) && !m.has_doc) bad.push_back(string(n) + " is enabled without document");
	if(!u.enabled("a_file_open")) bad.push_back("no file can be opened");
}

// Nothing is drawn: what draws uses threads, which do not survive a fork.
struct NoPaint : QObject {
	bool eventFilter(QObject*, QEvent* e) override {
		return e->type() == QEvent::Paint || e->type() == QEvent::UpdateRequest || e->type() == QEvent::Expose;
	}
};

void files(mc::Ctx& c) {
	NoPaint no_paint;
	qApp->installEventFilter(&no_paint);
	string a, b;
	for(auto const& d : corpus()) { if(d.name == "box") a = d.doc.str(); if(d.name == "overlap") b = d.doc.str(); }
	struct Start { char const* input; char const* output; bool force; };
	static Start const starts[] = { { "in.csx", "", false }, { "in.csx", "out.csx", false }, { "in.csx", "existing.csx", false }, { "in.csx", "nodir/x.csx", false },
		{ "", "", false },
		{ "in.csx", "existing.csx", true }, { "bad.csx", "", false }, { "in.csx", "in.csx", false } };
	// A program that shows what it is given.
	fs::create_directory("bin");
	write_file("bin/AppCSXCAD", "#!/bin/sh\ncp \"$2\" \"" + fs::current_path().string() + "/viewing.csx\" && mv \"" + fs::current_path().string() + "/viewing.csx\" \"" + fs::current_path().string() + "/viewed.csx\"\n");
	fs::permissions("bin/AppCSXCAD", fs::perms::owner_all);
	fs::create_directory("tmp");
	setenv("TMPDIR", (fs::current_path().string() + "/tmp").c_str(), 1);
	setenv("PATH", (fs::current_path().string() + "/bin:" + getenv("PATH")).c_str(), 1);
	auto const ops = file_ops();
	string const home = fs::current_path().string();
	for(auto const& start : starts) {
		int const depth = c.thorough() ? 4 : &start - starts < 5 ? 3 : 2;
		for(std::size_t first = 0; first < ops.size(); ++first)
		for(std::size_t second = 0; second < (c.thorough() ? ops.size() : 1); ++second) {
			if(!c.take("sequences")) continue;
			string const from = string("started on \"") + start.input + "\" with output \"" + start.output + "\"" + (start.force ? " (force)" : "");
			c.describe(from + ", " + ops[first].name + (c.thorough() ? ", " + ops[second].name : "") + ", ...\nin.csx:\n" + a + "\nin2.csx:\n" + b);
			c.run([&] {
				auto out = in_child([&](auto const& put) {
					fs::remove_all(home + "/w");
					fs::create_directory(home + "/w");
					fs::current_path(home + "/w");
					Desk m;
					m.files = { { "in.csx", a }, { "in2.csx", b }, { "bad.csx", "<openEMS><Continuous" }, { "existing.csx", b + "<!-- existing -->\n" } };
					put_back(m.files);
					// What opening gives.
					std::map<string, string> pristine;
					for(auto* f : { "in.csx", "in2.csx" }) {
						auto* o = reference(f, "../expected.csx");
						auto p = static_cast<SerializerToCsx::Params const&>(o->get_params());
						if(!SerializerToCsx::run(const_cast<Board&>(o->get_board()), f, "../expected.csx", p)) put("\n!reference");
						pristine[read_file("../expected.csx")] = f;
						fs::remove("../expected.csx");
					}
					fresh();
					auto params = params_for(start.input, start.output);
					params.force = start.force;
					User u(params);
					string const title = u.w->windowTitle().toStdString();
					m.doc = m.input = start.input;
					m.output = start.output;
					m.force = start.force;
					vector<Expected> want;
					if(*start.input) {
						m.has_doc = m.unsaved = m.input == "in.csx";
						if(!m.has_doc) want.push_back({ { "Failed", "\"bad.csx\"" }, " [OK]" });
					}
					u.w->parse_and_display();
					u.settle();
					vector<string> path;
					auto check = [&](string const& op) {
						vector<string> bad;
						check_files(u, m, want, title, pristine, op, bad);
						want.clear();
						string r = from + ", ";
						for(auto const& x : path) r += x + ", ";
						r += "\n";
						join(bad, r);
						put(r);
						return bad.empty();
					};
					std::function<void ()> rec = [&] {
						if((int) path.size() == depth || m.closed) return;
						auto const before = m.files;
						for(std::size_t k = 0; k < ops.size(); ++k) {
							if(path.size() == 0 && k != first) continue;
							if(!c.thorough() && path.size() && (ops[k].name.find("cancelled") != string::npos || ops[k].name.find("as in2") != string::npos)) continue;
							if(path.size() == 1 && c.thorough() && k != second) continue;
							fflush(nullptr);
							pid_t const pid = fork();
							if(!pid) {
								alarm(100);
								path.push_back(ops[k].name);
								if(ops[k].act(u, m, want) && check(ops[k].name)) rec();
								_exit(0);
							}
							int st = 0;
							waitpid(pid, &st, 0);
							put_back(before);
							if(st) { string r; for(auto const& x : path) r += x + ", "; put(from + ", " + r + ops[k].name + "\n!" + (WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "it does not answer any more" : "it crashed") : "it ended abnormally")); }
						}
					};
					if(check("")) rec();
				}, 300);
				for(auto const& e : fs::directory_iterator(home + "/tmp")) fs::remove(e.path());
				for(auto const& r : out.records) if(auto k = r.find("\n!"); k != string::npos) c.fail("after " + r);
				if(!out.end.empty()) c.fail("at the end: " + out.end);
				if(out.records.empty()) c.fail("nothing was reported");
				c.states += out.records.size();
				c.transitions += out.records.size() - 1;
				if(out.records.size() > 1) ++c.nontrivial;
				++c.traces;
				c.outcome(std::to_string(out.records.size()));
			});
		}
	}
}

} // namespace
