// W01..W07: what is written, against the board, the input document and faults.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <array>
#include <csignal>
#include <filesystem>
#include <iostream>
#include <optional>
#include <pugixml.hpp>
#include <sys/resource.h>
#include <sys/stat.h>

#include "infra/serializers/serializer_to_csx.hpp"
#include "infra/serializers/serializer_to_plantuml.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"

using namespace oe;
using std::string;
using std::vector;
namespace fs = std::filesystem;
using Format = app::OpenEMSH::Params::OutputFormat;

namespace {

app::OpenEMSH::Params params(string const& in, string const& out) {
	app::OpenEMSH::Params p;
	p.input = in;
	p.output = out;
	p.override_from_cli = [](domain::Params&) {};
	return p;
}

string n17(double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return b; }

// ---- reading back, on our own ----------------------------------------------
std::optional<vector<double>> numbers(string const& s) {
	vector<double> v;
	if(s.empty()) return v;
	size_t i = 0;
	while(true) {
		size_t e = s.find(',', i);
		string w = s.substr(i, e == string::npos ? e : e - i);
		char* end;
		double x = std::strtod(w.c_str(), &end);
		if(w.empty() || end != w.c_str() + w.size() || !std::isfinite(x)) return std::nullopt;
		v.push_back(x);
		if(e == string::npos) return v;
		i = e + 1;
	}
}
pugi::xml_node csx_node(pugi::xml_document const& d) {
	auto n = d.child("openEMS").child("ContinuousStructure");
	return n ? n : d.child("ContinuousStructure");
}
constexpr unsigned FULL = pugi::parse_default | pugi::parse_comments | pugi::parse_pi | pugi::parse_doctype;
void canon(pugi::xml_node const& n, string& o, int depth) {
	for(auto const& k : n.children()) {
		if(depth == 0 && k.name() == string("OpenEMSH")) continue;
		o += string(depth + 1, ' ') + std::to_string((int)k.type()) + k.name();
		for(auto const& a : k.attributes()) o += string(" ") + a.name() + "='" + a.value() + "'";
		o += string(":") + k.value() + "\n";
		if(k.name() == string("RectilinearGrid") && n.name() == string("ContinuousStructure")) continue; // rewritten
		canon(k, o, depth + 1);
	}
}
string rest(pugi::xml_document const& d) { string o; canon(d, o, 0); return o; }
// Elements only, once and for all named alike.
string load(pugi::xml_document& d, string const& f) {
	auto r = d.load_file(f.c_str(), FULL);
	return r ? "" : r.description();
}
string grid_lines(mc::Ctx& c, pugi::xml_document const& d, Axis a, vector<double>& v) {
	auto g = csx_node(d).child("RectilinearGrid");
	string n = string(name(a)) + "Lines";
	int k = 0;
	for(auto const& x : g.children()) k += x.name() == n;
	if(k == 0) return "none";
	if(k > 1) c.fail("several " + n);
	auto p = numbers(g.child(n.c_str()).text().get());
	if(!p) c.fail("not a list of numbers: " + string(g.child(n.c_str()).text().get()));
	v = *p;
	return "some";
}

std::set<string> ls() {
	std::set<string> s;
	for(auto const& e : fs::directory_iterator(".")) s.insert(e.path().filename().string());
	return s;
}
void clean() { for(auto const& e : fs::directory_iterator(".")) fs::remove_all(e.path()); }

// A document of the corpus at another scale.
string scaled(string const& s, double k) {
	if(k == 1) return s;
	static char const* const names[] = { " X=\"", " Y=\"", " Z=\"", " X1=\"", " X2=\"", " Elevation=\"", " Length=\"", " Radius=\"" };
	string o;
	for(size_t i = 0; i < s.size();) {
		bool hit = false;
		for(auto const* n : names) if(s.compare(i, std::strlen(n), n) == 0) {
			size_t b = i + std::strlen(n), e = s.find('"', b);
			o += n + n17(std::atof(s.substr(b, e - b).c_str()) * k);
			i = e;
			hit = true;
			break;
		}
		if(!hit) o += s[i++];
	}
	return o;
}

// ---- W01 ---------------------------------------------------------------------
void written_lines(mc::Ctx& c) {
	double const scales[] = { 1, 1. / 3, 1e-3, 1e-6 / 7, 12345.678, 1e5 / 3 };
	auto docs = corpus();
	for(size_t d = 0; d < docs.size(); ++d) for(double k : scales) for(int f = 0; f < 32; ++f) for(int old = 0; old < 3; ++old) for(int where = 0; where < 3; ++where) {
		if(!c.thorough() && where == 2 && f % 3) continue;
		if(!c.take("lines")) { if(c.stop) return; continue; }
		c.describe(docs[d].name + " x" + n17(k) + " flags " + std::to_string(f) + " old grid " + std::to_string(old) + (where == 0 ? " new file" : where == 1 ? " same file" : " over another file"));
		c.run([&] {
			clean();
			Doc doc = docs[d].doc;
			doc.grid = old == 0 ? "" : old == 1 ? "<XLines>1,2,3</XLines><YLines>4</YLines><ZLines>5,6</ZLines>" : "<ZLines>9</ZLines><Other/><XLines/>";
			string text = scaled(doc.str(), k);
			if(old == 0 && f % 2) text.replace(text.find("<RectilinearGrid></RectilinearGrid>"), 35, "");
			write_file("in.csx", text);
			if(where == 2) write_file("out.csx", "something that was there before, longer than anything else? no, but long enough to show through");
			auto p = params("in.csx", where == 1 ? "in.csx" : "out.csx");
			p.with_meshlines = f & 1;
			p.with_meshline_policies = f & 2;
			p.with_axis_x = f & 4; p.with_axis_y = f & 8; p.with_axis_z = f & 16;
			p.override_from_cli = [&](domain::Params& q) { q.dmax *= k; q.proximity_limit *= k; q.diagonal_dmax *= k; };
			app::OpenEMSH e(p);
			if(auto r = e.parse(); !r) c.fail("refused: " + r.error());
			e.run_all_steps();
			if(auto r = e.write(); !r) c.fail("not written: " + r.error());
			++c.traces; c.transitions += 17;
			pugi::xml_document o;
			if(string r = load(o, p.output.string()); !r.empty()) c.fail("cannot be read back: " + r);
			int grids = 0;
			for(auto const& g : csx_node(o).children("RectilinearGrid")) { (void)g; ++grids; }
			if(grids != 1) c.fail(std::to_string(grids) + " grids");
			string sig;
			for(auto a : AllAxis) {
				bool on = f & (4 << (int)a);
				vector<double> got, want;
				string s = grid_lines(c, o, a, got);
				if(s == "some" && !on) c.fail(string(name(a)) + " lines are written");
				if(s == "none" && on) c.fail(string(name(a)) + " lines are not written");
				if(!on) continue;
				auto const& b = e.get_board();
				if(p.with_meshlines) for(auto const& l : b.get_meshlines(a)) want.push_back(l->coord.value());
				if(p.with_meshline_policies) for(auto const& l : b.get_meshline_policies_meshlines(a)) want.push_back(l->coord.value());
				// Lines and policies are two groups, their order is not the point.
				if(p.with_meshlines != p.with_meshline_policies && !std::is_sorted(got.begin(), got.end()) && std::is_sorted(want.begin(), want.end())) c.fail("lines are not sorted");
				std::sort(got.begin(), got.end());
				std::sort(want.begin(), want.end());
				if(got.size() != want.size()) c.fail(string(name(a)) + ": " + std::to_string(got.size()) + " lines written, " + std::to_string(want.size()) + " in the mesh");
				for(size_t i = 0; i < got.size(); ++i)
					if(std::fabs(got[i] - want[i]) > 1e-14 * std::fabs(want[i])) c.fail(string(name(a)) + ": line " + n17(want[i]) + " is written " + n17(got[i]));
				// And it makes a mesh: distinct lines.
				if(p.with_meshlines && !p.with_meshline_policies)
					for(size_t i = 1; i < got.size(); ++i) if(!(got[i - 1] < got[i])) c.fail("the same line is written twice: " + n17(got[i]));
				if(!want.empty()) ++c.nontrivial;
				for(double v : got) sig += num(v) + ",";
				sig += ";";
			}
			int kids = 0;
			for(auto const& g : csx_node(o).child("RectilinearGrid").children()) { (void)g; ++kids; }
			int want_kids = (f >> 2 & 1) + (f >> 3 & 1) + (f >> 4 & 1);
			if(kids != want_kids) c.fail("something of the old grid remains");
			c.outcome(sig);
		});
	}
}

// ---- W02, W06 ------------------------------------------------------------------
struct Frag { string text; bool root_ok, in_text_ok; };
vector<Frag> const FRAGS {
	{ "<!-- a comment -->", true, true },
	{ "<?tool keep this?>", true, true },
	{ "<Extra a=\"1\" b='2'/>", true, true },
	{ "<Extra>text &lt;&amp;&gt; &quot;q&quot; &#233;\xc3\xa9\xe7\x8b\x97</Extra>", true, true },
	{ "<Extra><![CDATA[ <not> & parsed ]]></Extra>", true, true },
	{ "<ns:Extra xmlns:ns=\"urn:x\" ns:a=\"&quot;'&lt;&#10;&amp;\"><ns:Sub/></ns:Extra>", true, true },
	{ "<Extra>1e-300,-0.1234567890123456789</Extra>", true, true },
	{ "<XLines>1,2</XLines>", true, true },
	{ "<RectilinearGridX><XLines>1</XLines></RectilinearGridX>", true, true },
	{ "<Extra>mixed <b>content</b> here</Extra>", true, true },
};
vector<string> bases() {
	vector<string> v;
	for(auto const& n : corpus()) if(n.name == "box" || n.name == "diagonal" || n.name == "reversed") v.push_back(n.doc.str());
	Doc d;
	d.grid = "<XLines>0,1</XLines><YLines/><ZLines>2</ZLines>";
	d.csx_attr = "CoordSystem=\"0\" Other=\"kept\"";
	d.background = "<BackgroundMaterial Epsilon=\"1\"/><ParameterSet><Parameter name=\"p\" value=\"1\"/></ParameterSet>\n";
	d.props = prop("Metal", "a &amp; b \xc3\xa9", box(1, 0, 0, 0, 8, 8, 8), "<FillColor R=\"1\" G=\"2\" B=\"3\" a=\"255\"/><EdgeColor R=\"9\"/>\n", "ID=\"0\" Unknown=\"x\"")
		+ prop("DumpBox", "Et", box(0, 0, 0, 0, 1, 1, 1), "", "DumpType=\"0\"") + prop("Excitation", "exc", box(5, 1, 1, 1, 1, 1, 3), "<Weight X=\"1\" Y=\"0\" Z=\"0\"/>", "Excite=\"0,0,1\"");
	string s = d.str();
	s.replace(s.find("<FDTD/>"), 7, "<FDTD NumberOfTimesteps=\"1000\" endCriteria=\"1e-05\"><Excitation Type=\"0\" f0=\"1e9\"/><BoundaryCond xmin=\"PML_8\"/></FDTD>");
	s.replace(s.find("<RectilinearGrid>"), 17, "<RectilinearGrid DeltaUnit=\"0.001\" CoordSystem=\"0\">");
	v.push_back(s);
	v.push_back("<ContinuousStructure CoordSystem=\"0\">" + s.substr(s.find("<RectilinearGrid"), s.find("</openEMS>") - s.find("<RectilinearGrid")));
	v.push_back("<openEMS><ContinuousStructure CoordSystem=\"0\"><Properties>" + metal("m", box(1, 0, 0, 0, 4, 4, 4)) + "</Properties></ContinuousStructure></openEMS>");
	return v;
}
vector<size_t> gaps(string const& s) { // between two tags, outside of grids and saved parameters
	vector<size_t> v;
	bool skip = false;
	size_t start = s.starts_with("<?xml") ? s.find("?>") + 2 : 0;
	v.push_back(start);
	for(size_t i = start; i < s.size(); ++i) {
		if(s.compare(i, 16, "<RectilinearGrid") == 0) skip = s[s.find('>', i) - 1] != '/';
		if(s.compare(i, 18, "</RectilinearGrid>") == 0) skip = false;
		if(s[i] == '>' && !skip) v.push_back(i + 1);
	}
	return v;
}
bool at_root(string const& s, size_t at) {
	size_t b = std::min(s.find("<openEMS"), s.find("<ContinuousStructure"));
	size_t e = s.rfind("</");
	return at <= b || at > e;
}
void same_rest(mc::Ctx& c, string const& in, string const& out) {
	pugi::xml_document a, b;
	if(string r = load(a, in); !r.empty()) c.fail("bad test document: " + r);
	if(string r = load(b, out); !r.empty()) c.fail("cannot be read back: " + r);
	// A grid is added when there is none.
	if(auto n = csx_node(a); !n.child("RectilinearGrid")) n.append_child("RectilinearGrid");
	string x = rest(a), y = rest(b);
	c.outcome(size_sig(y));
	if(x != y) c.fail("the rest of the document changes:\n" + diff(x, y));
}
string mesh(mc::Ctx& c, string const& in, string const& out, bool save = false, bool read = false) {
	auto p = params(in, out);
	p.with_oemsh_params = save;
	p.read_oemsh_params = read;
	app::OpenEMSH e(p);
	if(auto r = e.parse(); !r) c.fail("refused: " + r.error());
	e.run_all_steps();
	if(auto r = e.write(); !r) c.fail("not written: " + r.error());
	++c.traces; c.transitions += 17;
	return dump_lines(e.get_board());
}
void preserved(mc::Ctx& c) {
	auto bs = bases();
	for(size_t b = 0; b < bs.size(); ++b) {
		auto g = gaps(bs[b]);
		for(size_t i = 0; i < g.size(); ++i) for(size_t f = 0; f <= FRAGS.size(); ++f) for(int inplace = 0; inplace < 2; ++inplace) {
			if(f == FRAGS.size() && i) continue;
			if(!c.take("fragment")) { if(c.stop) return; continue; }
			string s = bs[b];
			if(f < FRAGS.size()) s.insert(g[i], FRAGS[f].text);
			c.describe(s + (inplace ? "\nsame file" : ""));
			c.run([&] {
				clean();
				write_file("in.csx", s);
				write_file("copy.csx", s);
				mesh(c, "in.csx", inplace ? "in.csx" : "out.csx", (i + f) % 2);
				++c.nontrivial;
				same_rest(c, "copy.csx", inplace ? "in.csx" : "out.csx");
				if(!inplace && read_file("in.csx") != s) c.fail("the input file is modified");
			});
		}
	}
	// Two fragments, in two places.
	for(size_t b = 3; b < bs.size(); ++b) {
		auto g = gaps(bs[b]);
		for(size_t i = 0; i < g.size(); ++i) for(size_t j = i; j < g.size(); ++j) for(size_t f = 0; f < FRAGS.size(); ++f) for(size_t h = 0; h < FRAGS.size(); ++h) {
			if(!c.thorough() && (i + j + f + h) % 11) continue;
			if(!c.take("fragments")) { if(c.stop) return; continue; }
			string s = bs[b];
			s.insert(g[j], FRAGS[h].text);
			s.insert(g[i], FRAGS[f].text);
			c.describe(s);
			c.run([&] {
				clean();
				write_file("in.csx", s);
				mesh(c, "in.csx", "out.csx", (i + h) % 2);
				++c.nontrivial;
				same_rest(c, "in.csx", "out.csx");
			});
		}
	}
	// Encodings and what stands before the root element.
	vector<std::pair<string, string>> heads {
		{ "no declaration", "" }, { "utf-8", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" }, { "bom", "\xef\xbb\xbf<?xml version=\"1.0\"?>" },
		{ "doctype", "<?xml version=\"1.0\"?><!DOCTYPE openEMS SYSTEM \"oems.dtd\">" }, { "standalone", "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>\n" },
		{ "latin1", "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" }, { "utf-16", "" },
	};
	for(auto const& [what, head] : heads) for(size_t b = 0; b < bs.size(); ++b) for(int save = 0; save < 2; ++save) {
		if(!c.take("head")) { if(c.stop) return; continue; }
		string s = bs[b].starts_with("<?xml") ? bs[b].substr(bs[b].find("?>") + 2) : bs[b];
		if(what == "latin1") for(size_t i; (i = s.find("\xc3\xa9")) != string::npos;) s.replace(i, 2, "\xe9");
		if(what == "utf-16") {
			string u = "\xff\xfe";
			for(size_t i = 0; i < s.size(); ++i) {
				if((unsigned char)s[i] == 0xc3) { u += "\xe9"; ++i; } else u += s[i];
				u += '\0';
			}
			s = u;
		}
		c.describe(what + " base " + std::to_string(b));
		c.run([&] {
			clean();
			write_file("in.csx", head + s);
			mesh(c, "in.csx", "out.csx", save);
			++c.nontrivial;
			same_rest(c, "in.csx", "out.csx");
		});
	}
}
void again(mc::Ctx& c) {
	vector<string> docs = bases();
	for(auto const& n : corpus()) docs.push_back(n.doc.str());
	for(size_t d = 0; d < docs.size(); ++d) for(size_t f = 0; f <= FRAGS.size(); ++f) for(int save = 0; save < 2; ++save) {
		auto g = gaps(docs[d]);
		for(size_t at = 0; at < (f == FRAGS.size() ? 1 : g.size()); ++at) {
			if(!c.thorough() && (at + f) % 3 && f < FRAGS.size()) continue;
			if(!c.take("again")) { if(c.stop) return; continue; }
			string s = docs[d];
			if(f < FRAGS.size()) s.insert(g[at], FRAGS[f].text);
			c.describe(s);
			c.run([&] {
				clean();
				write_file("in.csx", s);
				string l1 = mesh(c, "in.csx", "one.csx", save);
				string l2 = mesh(c, "one.csx", "two.csx", save, save);
				++c.nontrivial;
				if(l1 != l2) c.fail("meshing the output again gives another mesh:\n" + diff(l1, l2));
				if(read_file("one.csx") != read_file("two.csx")) c.fail("meshing the output again gives another file:\n" + diff(read_file("one.csx"), read_file("two.csx")));
				string l3 = mesh(c, "two.csx", "two.csx", save, save);
				if(l3 != l2 || read_file("one.csx") != read_file("two.csx")) c.fail("meshing the output in place gives another file");
				// Another file or the same one.
				mesh(c, "in.csx", "in.csx", save);
				if(read_file("in.csx") != read_file("one.csx")) c.fail("meshing in place gives another file:\n" + diff(read_file("one.csx"), read_file("in.csx")));
				c.outcome(l1);
			});
		}
	}
}

// ---- W03 -----------------------------------------------------------------------
void overwrite(mc::Ctx& c) {
	char const* const outs[] = { "in.csx", "./in.csx", "sub/../in.csx", "link.csx", "other.csx", "new.csx", "empty.csx", "sub", "dangling", "sub/new.csx", "hard.csx" };
	bool const exists[] = { true, true, true, true, true, false, true, true, false, false, true };
	for(int o = 0; o < 11; ++o) for(int fmt = 0; fmt < 3; ++fmt) for(int force = 0; force < 2; ++force) for(int grid = 0; grid < 2; ++grid) for(int gui = 0; gui < 2; ++gui) for(int late = 0; late < 2; ++late) for(int abs = 0; abs < 2; ++abs) {
		if(!c.take("overwrite")) { if(c.stop) return; continue; }
		c.describe(string("output ") + outs[o] + (abs ? " absolute" : "") + " format " + std::to_string(fmt) + (force ? " force" : "") + (grid ? " with a mesh" : "") + (gui ? " gui" : "") + (late ? " set late" : ""));
		c.run([&] {
			clean();
			Doc d;
			d.props = metal("m", box(1, 0, 0, 0, 8, 8, 8));
			if(grid) d.grid = "<XLines>1</XLines>";
			write_file("in.csx", d.str());
			write_file("other.csx", "precious");
			write_file("empty.csx", "");
			fs::create_directory("sub");
			fs::create_symlink("in.csx", "link.csx");
			fs::create_symlink("nowhere", "dangling");
			fs::create_hard_link("in.csx", "hard.csx");
			fs::path out = abs ? fs::current_path() / outs[o] : fs::path(outs[o]);
			auto p = params("in.csx", late ? "new.csx" : out.string());
			Format const formats[] = { Format::CSX, Format::PLANTUML, Format::PRETTYPRINT };
			if(!late) p.output_format = formats[fmt];
			p.force = force;
			p.gui = gui;
			app::OpenEMSH e(p);
			if(auto r = e.parse(); !r) c.fail("refused: " + r.error());
			if(late) { e.set_output(out); e.set_output_format(formats[fmt]); }
			++c.traces; c.transitions += 2; ++c.nontrivial;
			bool want = !force && fmt != 2 && exists[o];
			bool got = e.is_about_overwriting();
			c.outcome(std::to_string(got) + outs[o]);
			if(want != got) c.fail(want ? "the file would be overwritten" : "refused for no reason");
			if(got || exists[o]) return;
			// Nothing else than the output changes.
			auto before = ls();
			string in = read_file("in.csx");
			e.run_all_steps();
			std::ostringstream err; // where the pretty print goes
			auto* old = std::cerr.rdbuf(err.rdbuf());
			auto* old2 = std::cout.rdbuf(err.rdbuf());
			auto r = e.write();
			std::cerr.rdbuf(old);
			std::cout.rdbuf(old2);
			c.transitions += 16;
			if(!r) c.fail("not written: " + r.error());
			auto after = ls();
			if(fmt != 2 && o == 5) before.insert("new.csx");
			if(fmt != 2 && o == 8) before.insert("nowhere");
			if(before != after) c.fail("files appeared or disappeared");
			if(fmt != 2 && fs::file_size(out) == 0) c.fail("the output is empty");
			if(fmt == 2 && (fs::exists(out) || err.str().empty())) c.fail("not printed");
			if(read_file("in.csx") != in || read_file("other.csx") != "precious" || fs::file_size("empty.csx")) c.fail("another file is modified");
		});
	}
}

// ---- W04 -----------------------------------------------------------------------
void faults(mc::Ctx& c) {
	std::signal(SIGXFSZ, SIG_IGN);
	vector<string> docs;
	for(auto const& n : corpus()) if(n.name == "box" || n.name == "cross" || n.name == "empty") docs.push_back(n.doc.str());
	for(size_t d = 0; d < docs.size(); ++d) for(int fmt = 0; fmt < 2; ++fmt) for(int where = 0; where < 3; ++where) {
		// Full size, to know where the faults can be.
		size_t size;
		string full;
		auto prepare = [&] {
			clean();
			write_file("in.csx", docs[d]);
			if(where == 1) write_file("out", "previous content");
			auto p = params("in.csx", where == 2 ? "in.csx" : "out");
			p.output_format = fmt ? Format::PLANTUML : Format::CSX;
			p.force = true;
			return p;
		};
		{
			auto p = prepare();
			app::OpenEMSH e(p);
			if(!e.parse()) { std::fputs("bad document\n", stderr); std::_Exit(2); }
			e.run_all_steps();
			if(!e.write()) { std::fputs("cannot write\n", stderr); std::_Exit(2); }
			full = read_file(p.output.string());
			size = full.size();
		}
		int const step = c.thorough() ? 1 : size > 4000 ? 13 : 3;
		for(size_t k = 0; k <= size + 1; k += (k + 40 < size && k > 20 ? step : 1)) {
			if(!c.take("full")) { if(c.stop) return; continue; }
			c.describe("document " + std::to_string(d) + (fmt ? " plantuml" : " csx") + " place " + std::to_string(where) + ": no room after byte " + std::to_string(k) + " of " + std::to_string(size));
			c.run([&] {
				auto p = prepare();
				app::OpenEMSH e(p);
				if(!e.parse()) c.fail("refused");
				e.run_all_steps();
				string want = full; // Identifiers vary, not what is displayed.
				if(fmt) want = SerializerToPlantuml::run(const_cast<Board&>(e.get_board()));
				rlimit old, lim;
				getrlimit(RLIMIT_FSIZE, &old);
				lim = old;
				lim.rlim_cur = k;
				setrlimit(RLIMIT_FSIZE, &lim);
				auto r = e.write();
				setrlimit(RLIMIT_FSIZE, &old);
				++c.traces; c.transitions += 17;
				if(k < want.size()) ++c.nontrivial;
				size_t got = read_file(p.output.string()).size();
				bool complete = read_file(p.output.string()) == want;
				c.outcome(std::to_string(r.has_value()) + std::to_string(got));
				if(r && !complete) c.fail("said to be written, " + std::to_string(got) + " bytes are there");
				if(!r && k >= want.size()) c.fail("there is room, but: " + r.error());
				if(!r && r.error().empty()) c.fail("no reason given");
			});
		}
	}
	// Places where nothing can be written, inputs that are gone.
	for(int k = 0; k < 7; ++k) for(int fmt = 0; fmt < 2; ++fmt) {
		if(!c.take("place")) { if(c.stop) return; continue; }
		string const outs[] = { "missing/out.csx", ".", "sub", "in.csx/out.csx", "/dev/full", "", string(300, 'x') };
		c.describe("output '" + outs[k] + "' " + (fmt ? "plantuml" : "csx"));
		c.run([&] {
			clean();
			fs::create_directory("sub");
			write_file("in.csx", docs[1]);
			auto p = params("in.csx", outs[k]);
			p.output_format = fmt ? Format::PLANTUML : Format::CSX;
			app::OpenEMSH e(p);
			if(!e.parse()) c.fail("refused");
			e.run_all_steps();
			auto before = ls();
			auto r = e.write();
			++c.traces; c.transitions += 17; ++c.nontrivial;
			if(r) c.fail("said to be written");
			if(ls() != before) c.fail("files appeared");
			if(read_file("in.csx") != docs[1]) c.fail("the input is modified");
			c.outcome(r.error());
		});
	}
	for(int k = 0; k < 6; ++k) for(int where = 0; where < 3; ++where) {
		if(!c.take("gone")) { if(c.stop) return; continue; }
		c.describe("input lost " + std::to_string(k) + " place " + std::to_string(where));
		c.run([&] {
			clean();
			write_file("in.csx", docs[1]);
			if(where == 1) write_file("out.csx", "previous content");
			auto p = params("in.csx", where == 2 ? "in.csx" : "out.csx");
			app::OpenEMSH e(p);
			if(!e.parse()) c.fail("refused");
			e.run_all_steps();
			string const damaged[] = { "", docs[1].substr(0, docs[1].size() / 2), "<a>", "\x01\x02", docs[1] + "<" };
			if(k < 5) write_file("in.csx", damaged[k]); else fs::remove("in.csx");
			auto before = ls();
			auto r = e.write();
			++c.traces; c.transitions += 17; ++c.nontrivial;
			if(r) c.fail("said to be written");
			if(ls() != before) c.fail("files appeared");
			if(where == 1 && read_file("out.csx") != "previous content") c.fail("the previous output is lost");
			if(k < 5 && read_file("in.csx") != damaged[k]) c.fail("the input is modified");
			c.outcome(r.error());
		});
	}
}

// ---- W05 -----------------------------------------------------------------------
void saved(mc::Ctx& c) {
	auto docs = corpus();
	double const prox[] = { 1, 0.1, 1. / 3 }, sm[] = { 2, 1.1, 5. / 3 }, dmax[] = { 2.5, 1. / 7, 1e6 }, ang[] = { 20, 45.5, 0 }, ddmax[] = { 0.2, 1e-9, 2. / 3 };
	size_t const lmin[] = { 2, 0, 17 }, dlmin[] = { 2, 5, 1 };
	for(int i = 0; i < 2187; ++i) for(int old = 0; old < 3; ++old) for(int hist = 0; hist < 2; ++hist) {
		if(!c.take("saved")) { if(c.stop) return; continue; }
		int t[7], x = i;
		for(int& k : t) { k = x % 3; x /= 3; }
		string const olds[] = { "", "<OpenEMSH><GlobalParams ProximityLimit=\"77\" Smoothness=\"1.7\" dmax=\"70\" lmin=\"7\" Other=\"7\"/><FixedMeshlines><XLines>1.5,2</XLines><ZLines>3</ZLines></FixedMeshlines><More/></OpenEMSH>\n", "<OpenEMSH/>\n" };
		c.describe("params " + std::to_string(i) + " before: " + olds[old] + (hist ? " edited" : ""));
		c.run([&] {
			clean();
			Doc d = docs[1].doc;
			d.oemsh = olds[old];
			write_file("in.csx", d.str());
			auto p = params("in.csx", "out.csx");
			p.with_oemsh_params = true;
			p.read_oemsh_params = true;
			auto set = [&](domain::Params& q) {
				q.proximity_limit = prox[t[0]]; q.smoothness = sm[t[1]]; q.dmax = dmax[t[2]]; q.lmin = lmin[t[3]];
				q.consecutive_diagonal_minimal_angle = ang[t[4]]; q.diagonal_dmax = ddmax[t[5]]; q.diagonal_lmin = dlmin[t[6]];
			};
			if(!hist) p.override_from_cli = set;
			app::OpenEMSH e(p);
			if(auto r = e.parse(); !r) c.fail("refused: " + r.error());
			if(hist) { // Changed after reading.
				auto q = e.get_board().global_params->get_current_state();
				set(q);
				e.get_board().global_params->set_next_state(q);
			}
			if(auto r = e.write(); !r) c.fail("not written: " + r.error());
			auto p2 = params("out.csx", "two.csx");
			p2.read_oemsh_params = true;
			app::OpenEMSH f(p2);
			auto const want = e.get_board().global_params->get_current_state();
			if(auto r = f.parse(); !r) c.fail("the output is refused: " + r.error());
			c.traces += 2; c.transitions += 3; ++c.nontrivial;
			auto const& got = f.get_board().global_params->get_current_state();
			auto flat = [](domain::Params const& q) { return std::array<double, 7> { q.proximity_limit, q.smoothness, q.dmax, (double)q.lmin, q.consecutive_diagonal_minimal_angle, q.diagonal_dmax, (double)q.diagonal_lmin }; };
			char const* const names[] = { "proximity limit", "smoothness", "dmax", "lmin", "minimal angle", "diagonal dmax", "diagonal lmin" };
			auto a = flat(want), b = flat(got);
			string sig;
			for(int k = 0; k < 7; ++k) {
				if(a[k] != b[k]) c.fail(string(names[k]) + " " + n17(a[k]) + " is read back as " + n17(b[k]));
				sig += num(b[k]) + " ";
			}
			c.outcome(sig);
			pugi::xml_document o;
			if(string r = load(o, "out.csx"); !r.empty()) c.fail("cannot be read back: " + r);
			int n = 0, m = 0;
			for(auto const& k : o.children("OpenEMSH")) { ++n; for(auto const& l : k.children("GlobalParams")) { (void)l; ++m; } }
			if(n != 1 || m != 1) c.fail("saved several times");
			if(old == 1) {
				auto q = o.child("OpenEMSH");
				if(q.child("FixedMeshlines").child_value("XLines") != string("1.5,2") || q.child("FixedMeshlines").child_value("ZLines") != string("3")) c.fail("saved fixed lines are lost");
			}
			// Lines that were saved are still taken into account.
			Board &x = const_cast<Board&>(e.get_board()), &y = const_cast<Board&>(f.get_board());
			x.add_fixed_meshline_policies();
			y.add_fixed_meshline_policies();
			if(dump_policies(x) != dump_policies(y)) c.fail("fixed lines differ:\n" + diff(dump_policies(x), dump_policies(y)));
			// Not asked: parameters of another mesh would be misleading.
			if(i % 27 == 0) {
				auto p3 = params("out.csx", "three.csx");
				app::OpenEMSH g(p3);
				if(!g.parse() || !g.write()) c.fail("not written again");
				pugi::xml_document o3;
				load(o3, "three.csx");
				if(o3.child("OpenEMSH").child("GlobalParams")) c.fail("parameters are saved without being asked to");
			}
		});
	}
	// The mesh itself, from the saved parameters.
	for(size_t d = 0; d < docs.size(); ++d) for(int i = 0; i < 243; ++i) {
		if(!c.take("mesh")) { if(c.stop) return; continue; }
		c.describe(docs[d].name + " params " + std::to_string(i));
		c.run([&] {
			clean();
			write_file("in.csx", docs[d].doc.str());
			auto p = params("in.csx", "out.csx");
			p.with_oemsh_params = true;
			int t[5], x = i;
			for(int& k : t) { k = x % 3; x /= 3; }
			double const dm[] = { 2.5, 1, 3.3333333333 }, dd[] = { 0.2, 0.7, 0.05 };
			p.override_from_cli = [&](domain::Params& q) { q.proximity_limit = prox[t[0]]; q.dmax = dm[t[1]]; q.smoothness = sm[t[2]]; q.consecutive_diagonal_minimal_angle = ang[t[3]]; q.diagonal_dmax = dd[t[4]]; q.diagonal_lmin = dlmin[t[4]]; };
			app::OpenEMSH e(p);
			if(!e.parse()) c.fail("refused");
			e.run_all_steps();
			if(auto r = e.write(); !r) c.fail("not written: " + r.error());
			string l1 = dump_lines(e.get_board());
			string l2 = mesh(c, "out.csx", "two.csx", true, true);
			++c.nontrivial;
			c.outcome(l1);
			if(l1 != l2) c.fail("the mesh made from saved parameters differs:\n" + diff(l1, l2));
			if(read_file("out.csx") != read_file("two.csx")) c.fail("the file made from saved parameters differs");
		});
	}
}

// ---- W07 -----------------------------------------------------------------------
size_t count(string const& s, string const& w) { size_t n = 0; for(size_t i = 0; (i = s.find(w, i)) != string::npos; i += w.size()) ++n; return n; }
void diagrams(mc::Ctx& c) {
	auto docs = corpus();
	// After every prefix of the processing, with every set of options.
	for(size_t d = 0; d < docs.size(); ++d) for(int k = 0; k <= 15; ++k) for(int opt = 0; opt < 32; ++opt) for(int prm = 0; prm < 3; ++prm) {
		if(!c.take("diagram")) { if(c.stop) return; continue; }
		c.describe(docs[d].name + " after " + std::to_string(k) + " steps, options " + std::to_string(opt) + " params " + std::to_string(prm));
		c.run([&] {
			write_file("in.csx", docs[d].doc.str());
			auto p = params("in.csx", "out");
			p.override_from_cli = [&](domain::Params& q) { if(prm == 1) { q.dmax = 0.8; q.proximity_limit = 3; } if(prm == 2) q.lmin = 5; };
			app::OpenEMSH e(p);
			if(!e.parse()) c.fail("refused");
			Board& b = const_cast<Board&>(e.get_board());
			for(int i = 0; i < k; ++i) step(b, i);
			++c.traces; c.transitions += k + 2;
			string const before = dump(b);
			SerializerToPlantuml::Params o { (opt & 1) != 0, (opt & 2) != 0, (opt & 4) != 0, (opt & 8) != 0, (opt & 16) != 0 };
			string s = SerializerToPlantuml::run(b, o);
			if(opt == 0) {
				string q = SerializerToPrettyprint::run(b);
				size_t eip = 0, ce = 0, tc = 0;
				for(auto pl : AllPlane) eip += b.get_conflicts_edge_in_polygons(pl).size();
				for(auto a : AllAxis) { ce += b.get_conflicts_colinear_edges(a).size(); tc += b.get_conflicts_too_close_meshline_policies(a).size(); }
				if(count(q, "Conflict EdgeInPolygon between") != eip) c.fail("pretty print does not list each edge covered by polygons");
				if(count(q, "Conflict ColinearEdges between") != ce) c.fail("pretty print does not list each set of colinear edges");
				if(SerializerToPrettyprint::run(b) != q) c.fail("pretty printing twice gives two results");
			}
			if(dump(b) != before) c.fail("drawing changes the board:\n" + diff(before, dump(b)));
			if(SerializerToPlantuml::run(b, o) != s) c.fail("drawing twice gives two results");
			if(!s.starts_with("@startuml\n") || !s.ends_with("@enduml\n") || count(s, "@startuml") != 1 || count(s, "@enduml") != 1) c.fail("not one diagram");
			// Each displayed object is declared once; each arrow joins declared ones, or parts that are not displayed.
			std::map<string, string> declared; // id -> what
			std::istringstream in(s);
			int depth = 0;
			vector<std::pair<string, string>> arrows;
			for(string l; std::getline(in, l);) {
				if(l.ends_with("{")) ++depth;
				if(l == "}") --depth;
				if(depth < 0) c.fail("unbalanced braces");
				if(l.starts_with("state \"")) {
					size_t q = l.find("\" as ");
					if(q == string::npos) c.fail("not a state: " + l);
					string what = l.substr(7, q - 7), id = l.substr(q + 5, l.find_first_of(" ", q + 5) - q - 5);
					if(!declared.emplace(id, what).second) c.fail("declared twice: " + l);
				} else if(size_t q = l.find("-> "); q != string::npos) {
					string from = l.substr(0, l.find(' ')), to = l.substr(q + 3);
					if(to.ends_with(" ")) to.pop_back();
					arrows.emplace_back(from, to);
				}
			}
			if(depth) c.fail("unbalanced braces");
			size_t want_edges = 0, want_poly = 0, want_pol = 0, want_int = 0, want_lines = 0, want_eip = 0, want_ce = 0, want_tc = 0;
			auto is = [&](std::size_t id, string const& what) {
				auto it = declared.find(std::to_string(id));
				if(it == declared.end() || !it->second.starts_with(what)) c.fail(what + " " + std::to_string(id) + " is not drawn");
			};
			for(auto pl : AllPlane) {
				if(o.with_geometric_part) for(auto const& q : b.get_polygons(pl)) {
					++want_poly; want_edges += q->edges.size();
					is(q->id, "Polygon " + q->name);
					for(auto const& x : q->edges) is(x->id, "Edge");
				}
				if(o.with_conflict_edge_in_polygon) for(auto const& q : b.get_conflicts_edge_in_polygons(pl)) { ++want_eip; is(q->id, "Conflict EdgeInPolygon"); }
			}
			if(o.with_axis_part) for(auto a : AllAxis) {
				for(auto const& q : b.get_meshline_policies(a)) { ++want_pol; is(q->id, "MeshlinePolicy"); }
				for(auto const& q : b.get_intervals(a)) { ++want_int; is(q->id, "Interval"); }
				for(auto const& q : b.get_meshlines(a)) { ++want_lines; is(q->id, "Meshline"); }
				if(o.with_conflict_colinear_edges) for(auto const& q : b.get_conflicts_colinear_edges(a)) { ++want_ce; is(q->id, "Conflict ColinearEdges"); }
				if(o.with_conflict_too_close_meshline_policies) for(auto const& q : b.get_conflicts_too_close_meshline_policies(a)) { ++want_tc; is(q->id, "Conflict TooCloseMeshlinePolicies"); }
			}
			std::map<string, size_t> kinds;
			for(auto const& [id, w] : declared) ++kinds[w.starts_with("Polygon") ? "Polygon" : w];
			auto n = [&](string const& w, size_t want) { if(kinds[w] != want) c.fail(std::to_string(kinds[w]) + " " + w + " drawn, " + std::to_string(want) + " on the board"); };
			n("Edge", want_edges); n("Polygon", want_poly); n("MeshlinePolicy", want_pol); n("Interval", want_int); n("Meshline", want_lines);
			n("Conflict EdgeInPolygon", want_eip); n("Conflict ColinearEdges", want_ce); n("Conflict TooCloseMeshlinePolicies", want_tc);
			if(want_edges + want_pol) ++c.nontrivial;
			if(opt == 31) for(auto const& [f, t] : arrows) {
				if(!declared.count(f)) c.fail("an arrow starts from nothing: " + f + " -> " + t);
				if(!declared.count(t)) c.fail("an arrow leads to nothing: " + f + " -> " + t);
			}
			c.outcome(size_sig(s));
		});
	}
}

void body(mc::Ctx& c) {
	string const& id = c.prop;
	if(id == "W01") written_lines(c);
	else if(id == "W02") preserved(c);
	else if(id == "W03") overwrite(c);
	else if(id == "W04") faults(c);
	else if(id == "W05") saved(c);
	else if(id == "W06") again(c);
	else if(id == "W07") diagrams(c);
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
