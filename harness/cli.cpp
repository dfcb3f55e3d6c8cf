#undef main
// C01..C03: the command line program, run as a process of its own for every
// command line, against the library driven directly.
#include "mc.hpp"
#include "corpus.hpp"
#include <algorithm>
#include <array>
#include <filesystem>
#include <iostream>
#include <sys/resource.h>
#include <sys/wait.h>

int oemsh_main(int argc, char* argv[]);

using namespace oe;
using std::string;
using std::vector;
namespace fs = std::filesystem;
using AppParams = app::OpenEMSH::Params;

namespace {

void clean() { for(auto const& e : fs::directory_iterator(".")) fs::remove_all(e.path()); }

struct Ran { int code = -1; string out, err; std::map<string, string> files; };

// In a process of its own, from the same starting point every time.
template<class F> Ran forked(F const& f, string const& input = {}) {
	std::fflush(nullptr);
	write_file(".stdin", input);
	pid_t pid = fork();
	if(pid < 0) { std::perror("fork"); std::_Exit(2); }
	if(pid == 0) {
		int i = open(".stdin", O_RDONLY), o = open(".stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(".stderr", O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(i, 0); dup2(o, 1); dup2(e, 2);
		rlimit const mem { 3ul << 30, 3ul << 30 }; // What never ends is to end here.
		setrlimit(RLIMIT_AS, &mem);
		alarm(15);
		std::signal(SIGALRM, SIG_DFL);
		std::exit(f()); // Streams are flushed, as they are for a program.
	}
	int st = 0;
	waitpid(pid, &st, 0);
	Ran r;
	r.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	r.out = read_file(".stdout");
	r.err = read_file(".stderr");
	for(auto n : { ".stdin", ".stdout", ".stderr" }) fs::remove(n);
	for(auto const& e : fs::recursive_directory_iterator(".")) r.files[e.path().string()] = e.is_regular_file() ? read_file(e.path().string()) : "(other)";
	return r;
}
Ran program(vector<string> args, string const& input = {}) {
	return forked([&] {
		args.insert(args.begin(), "openemsh");
		vector<char*> argv;
		for(auto& a : args) argv.push_back(a.data());
		argv.push_back(nullptr);
		return oemsh_main((int)args.size(), argv.data());
	}, input);
}
Ran library(AppParams p, vector<std::function<void (domain::Params&)>> const& over) {
	p.override_from_cli = [&](domain::Params& q) { for(auto const& f : over) f(q); };
	return forked([&] {
		app::OpenEMSH e(p);
		if(!e.parse()) return 1;
		if(e.is_about_overwriting()) return 1;
		e.run_all_steps();
		if(!e.write()) return 1;
		return 0;
	});
}
string show(vector<string> const& a) { string s = "openemsh"; for(auto const& x : a) s += " " + (x.empty() ? string("''") : x); return s; }

struct Opt {
	vector<string> args;
	std::function<void (AppParams&)> p;
	std::function<void (domain::Params&)> d;
	int group; // at most one of a group
};
vector<Opt> options() {
	vector<Opt> v;
	int g = 0;
	auto flag = [&](vector<string> a, auto f) { v.push_back({ a, f, {}, g++ }); };
	auto param = [&](vector<string> a, auto f) { v.push_back({ a, {}, f, g++ }); };
	flag({ "-v" }, [](AppParams& p) { p.verbose = true; });
	v.push_back({ { "--verbose" }, [](AppParams& p) { p.verbose = true; }, {}, g - 1 });
	flag({ "-f" }, [](AppParams& p) { p.force = true; });
	v.push_back({ { "--force" }, [](AppParams& p) { p.force = true; }, {}, g - 1 });
	for(auto [w, f] : { std::pair { "csx", AppParams::OutputFormat::CSX }, { "plantuml", AppParams::OutputFormat::PLANTUML }, { "prettyprint", AppParams::OutputFormat::PRETTYPRINT }, { "PlantUML", AppParams::OutputFormat::PLANTUML } })
		v.push_back({ { "--output-format", w }, [f](AppParams& p) { p.output_format = f; }, {}, g });
	++g;
	flag({ "--no-yz" }, [](AppParams& p) { p.with_yz = false; });
	flag({ "--no-zx" }, [](AppParams& p) { p.with_zx = false; });
	flag({ "--no-xy" }, [](AppParams& p) { p.with_xy = false; });
	for(bool b : { true, false }) {
		string w = b ? "true" : "false";
		v.push_back({ { "--read-oemsh-params", w }, [b](AppParams& p) { p.read_oemsh_params = b; }, {}, g });
		v.push_back({ { "--integrate-old-mesh=" + w }, [b](AppParams& p) { p.keep_old_mesh = b; }, {}, g + 1 });
		v.push_back({ { "--meshlines", w }, [b](AppParams& p) { p.with_meshlines = b; }, {}, g + 2 });
		v.push_back({ { "--policy-lines", w }, [b](AppParams& p) { p.with_meshline_policies = b; }, {}, g + 3 });
	}
	g += 4;
	param({ "--add-fixed-meshline", "x,1.5" }, [](domain::Params& q) { q.input_fixed_meshlines = { { X, 1.5 } }; });
	v.push_back({ { "--add-fixed-meshline", "Y,-3.25", "--add-fixed-meshline", "z,7" }, {}, [](domain::Params& q) { q.input_fixed_meshlines = { { Y, -3.25 }, { Z, 7 } }; }, g - 1 });
	param({ "--proximity-limit", "0.25" }, [](domain::Params& q) { q.proximity_limit = 0.25; });
	v.push_back({ { "--proximity-limit", "6" }, {}, [](domain::Params& q) { q.proximity_limit = 6; }, g - 1 });
	param({ "--dmax", "1.125" }, [](domain::Params& q) { q.dmax = 1.125; });
	v.push_back({ { "--dmax=9" }, {}, [](domain::Params& q) { q.dmax = 9; }, g - 1 });
	param({ "--lmin", "5" }, [](domain::Params& q) { q.lmin = 5; });
	v.push_back({ { "--lmin", "0" }, {}, [](domain::Params& q) { q.lmin = 0; }, g - 1 });
	param({ "--smoothness", "1.25" }, [](domain::Params& q) { q.smoothness = 1.25; });
	v.push_back({ { "--smoothness", "2" }, {}, [](domain::Params& q) { q.smoothness = 2; }, g - 1 });
	param({ "--diag-dmax", "0.5" }, [](domain::Params& q) { q.diagonal_dmax = 0.5; });
	param({ "--diag-lmin", "4" }, [](domain::Params& q) { q.diagonal_lmin = 4; });
	param({ "--diag-minimal-angle", "50" }, [](domain::Params& q) { q.consecutive_diagonal_minimal_angle = 50; });
	flag({ "--no-x" }, [](AppParams& p) { p.with_axis_x = false; });
	flag({ "--no-y" }, [](AppParams& p) { p.with_axis_y = false; });
	flag({ "--no-z" }, [](AppParams& p) { p.with_axis_z = false; });
	flag({ "--save-oemsh-params" }, [](AppParams& p) { p.with_oemsh_params = true; });
	return v;
}

// One document where every option matters.
string document() {
	Doc d;
	d.grid = "<XLines>0.75,33</XLines><YLines>-4</YLines><ZLines/>";
	d.oemsh = "<OpenEMSH><GlobalParams ProximityLimit=\"1.5\" Smoothness=\"1.75\" dmax=\"3.5\" lmin=\"3\" /><FixedMeshlines><XLines>22.5</XLines></FixedMeshlines></OpenEMSH>\n";
	d.props = metal("m", box(1, 0, 0, 0, 10, 10, 5) + box(1, 11.3, 0, 0, 20, 10, 5) + linpoly(1, 2, 0, 3, { { 0, 20 }, { 10, 20 }, { 15, 30 }, { 14, 36 }, { 0, 26 } }) + point(5, 5, 9))
		+ dielectric("d", box(0, -5, -5, -5, 40, 40, 0));
	return d.str();
}
void setup(int existing) {
	clean();
	write_file("in.csx", document());
	if(existing) write_file("out.csx", "precious");
}

void same(mc::Ctx& c, vector<string> const& args, Ran const& r, Ran const& w, bool verbose, AppParams const& p) {
	if(r.code >= 1000) c.fail("killed by signal " + std::to_string(r.code - 1000) + "\n" + r.err);
	if(r.code != w.code) c.fail("exit code " + std::to_string(r.code) + " instead of " + std::to_string(w.code) + "\n" + r.err);
	for(auto const& [n, s] : w.files) {
		auto it = r.files.find(n);
		if(it == r.files.end()) c.fail(n + " is missing");
		if(it->second != s) c.fail(n + " is not what is asked for:\n" + diff(s, it->second));
	}
	for(auto const& [n, s] : r.files) if(!w.files.count(n)) c.fail(n + " appeared");
	if(w.code == 0) {
		if(p.output_format == AppParams::OutputFormat::PRETTYPRINT && r.err.find(w.err) == string::npos && r.out.find(w.out) == string::npos) c.fail("the pretty print differs");
		bool saved = r.err.find("Saved") != string::npos || r.out.find("Saved") != string::npos;
		if(verbose && !saved) c.fail("verbose, but silent");
		if(!verbose && saved) c.fail("not verbose, but talks: " + r.err);
	} else if(r.err.empty()) c.fail("fails without a word");
	c.outcome(size_sig(r.files.count("./out.csx") ? r.files.at("./out.csx") : "-") + size_sig(r.files.at("./in.csx")) + std::to_string(r.code));
	(void)args;
}

void one(mc::Ctx& c, vector<Opt const*> const& os, int input, int output, int existing, bool reverse = false) {
	vector<string> args;
	vector<string> in = input == 0 ? vector<string> { "in.csx" } : input == 1 ? vector<string> { "-i", "in.csx" } : vector<string> { "--input=in.csx" };
	AppParams p;
	p.input = p.output = "in.csx";
	if(output) { p.output = "out.csx"; }
	vector<vector<string>> parts;
	parts.push_back(in);
	if(output == 1) parts.push_back({ "-o", "out.csx" });
	if(output == 2) parts.push_back({ "--output=out.csx" });
	vector<std::function<void (domain::Params&)>> over;
	for(auto* o : os) {
		parts.push_back(o->args);
		if(o->p) o->p(p);
		if(o->d) over.push_back(o->d);
	}
	if(reverse) std::reverse(parts.begin(), parts.end());
	for(auto const& x : parts) for(auto const& a : x) args.push_back(a);
	c.describe(show(args) + (existing ? "  (out.csx exists)" : ""));
	c.run([&] {
		setup(existing);
		Ran w = library(p, over);
		setup(existing);
		Ran r = program(args);
		++c.nontrivial; ++c.traces; c.transitions += 2;
		bool refused = !p.force && p.output_format != AppParams::OutputFormat::PRETTYPRINT && (!output || existing);
		if((w.code != 0) != refused) c.fail("the library says otherwise");
		if(refused && (r.err.find("--force") == string::npos)) c.fail("refused without telling about --force: " + r.err);
		same(c, args, r, w, p.verbose, p);
	});
}

void valid(mc::Ctx& c) {
	auto v = options();
	Opt const force { { "-f" }, [](AppParams& p) { p.force = true; }, {}, -1 };
	vector<vector<int>> sets { {} };
	int n = (int)v.size();
	for(int i = 0; i < n; ++i) sets.push_back({ i });
	for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) if(v[i].group != v[j].group) sets.push_back({ i, j });
	size_t const pairs = sets.size();
	for(int i = 0; i < n; ++i) for(int j = i + 1; j < n; ++j) for(int k = j + 1; k < n; ++k)
		if(v[i].group != v[j].group && v[i].group != v[k].group && v[j].group != v[k].group && (c.thorough() || (i + j + k) % 4 == 0)) sets.push_back({ i, j, k });
	for(size_t s = 0; s < sets.size(); ++s) for(int output = 0; output < 3; ++output) for(int existing = 0; existing < 2; ++existing) for(int input = 0; input < 3; ++input) for(int rev = 0; rev < 2; ++rev) {
		bool const full = c.thorough() ? s < pairs : sets[s].size() < 2;
		if(!full && (input != (int)(s % 3) || rev != (int)(s / 3 % 2) || existing != (int)(s / 6 % 2) || output == 1 + (int)(s / 7 % 2) || (output == 0 && sets[s].size() == 3))) continue;
		if(!output && existing) continue;
		if(!c.take("options")) { if(c.stop) return; continue; }
		vector<Opt const*> os;
		bool has_force = false;
		for(int i : sets[s]) { os.push_back(&v[i]); has_force |= v[i].args[0] == "-f" || v[i].args[0] == "--force"; }
		if(s > 40 && (!output || existing) && !has_force && s % 5) os.push_back(&force);
		one(c, os, input, output, existing, rev);
	}
}

// ---- C02 -------------------------------------------------------------------
void invalid(mc::Ctx& c) {
	auto v = options();
	vector<vector<string>> const bad {
		{ "--unknown" }, { "-x" }, { "--smoothness", "1" }, { "--smoothness", "0.5" }, { "--smoothness", "2.0001" }, { "--smoothness", "abc" }, { "--smoothness", "-1" }, { "--smoothness" },
		{ "--lmin", "-1" }, { "--lmin", "abc" }, { "--lmin", "1.5" }, { "--lmin" }, { "--dmax", "abc" }, { "--dmax", "0" }, { "--dmax", "-2.5" }, { "--diag-dmax", "0" }, { "--diag-dmax=-1" }, { "--proximity-limit=-1" }, { "--proximity-limit", "inf" }, { "--smoothness", "nan" }, { "--dmax", "nan" }, { "--add-fixed-meshline", "x,inf" }, { "--dmax" }, { "--proximity-limit", "1mm" }, { "--diag-dmax", "x" }, { "--diag-lmin", "-2" }, { "--diag-minimal-angle", "right" },
		{ "--output-format", "pdf" }, { "--output-format" }, { "--meshlines", "maybe" }, { "--policy-lines", "7.5" }, { "--read-oemsh-params", "what" },
		{ "--add-fixed-meshline", "w,1" }, { "--add-fixed-meshline", "x" }, { "--add-fixed-meshline", "x,abc" }, { "--add-fixed-meshline", "1,x" },
		{ "second.csx" }, { "-i", "second.csx" }, { "-o" },
	};
	auto refused = [&](vector<string> const& args, bool with_help = false) {
		c.describe(show(args));
		c.run([&] {
			setup(1);
			write_file("second.csx", document());
			auto before = forked([] { return 0; });
			Ran r = program(args);
			++c.nontrivial; ++c.traces; ++c.transitions;
			c.outcome(r.err);
			if(r.code != 1) c.fail("exit code " + std::to_string(r.code) + "\n" + r.err);
			if(r.err.empty()) c.fail("refused without a word");
			if(r.files != before.files) c.fail("files are modified");
			(void)with_help;
		});
	};
	for(auto const& b : bad) for(size_t i = 0; i <= v.size(); ++i) for(int first = 0; first < 2; ++first) {
		if(first && b[0][0] == '-' && b.size() == 1 && b[0] != "--unknown" && b[0] != "-x") continue; // takes what follows
		if(!c.take("bad")) { if(c.stop) return; continue; }
		vector<string> args { "in.csx", "-f", "-o", "out.csx" };
		if(b[0] == "-o") args.resize(2);
		if(i < v.size()) args.insert(args.end(), v[i].args.begin(), v[i].args.end());
		if(i < v.size() && v[i].args[0] == b[0] && b.size() > 1) args.resize(args.size() - v[i].args.size());
		args.insert(first ? args.begin() + (b[0] == "-o" ? 2 : 4) : args.end(), b.begin(), b.end());
		refused(args);
	}
	// No input, or one that is not there or not a CSX file.
	for(size_t i = 0; i <= v.size(); ++i) for(int k = 0; k < 9; ++k) {
		if(!c.take("input")) { if(c.stop) return; continue; }
		vector<vector<string>> const in { {}, { "missing.csx" }, { "-i", "missing.csx" }, { "." }, { "empty.csx" }, { "text.csx" }, { "cut.csx" }, { "other.xml" }, { "" } };
		vector<string> args = in[k];
		args.insert(args.end(), { "-o", "out.csx" });
		if(i < v.size()) args.insert(args.end(), v[i].args.begin(), v[i].args.end());
		c.describe(show(args));
		c.run([&] {
			auto prep = [&] {
				clean();
				write_file("empty.csx", "");
				write_file("text.csx", "hello\n");
				write_file("cut.csx", document().substr(0, 300));
				write_file("other.xml", "<?xml version=\"1.0\"?><html/>");
			};
			prep();
			auto before = forked([] { return 0; });
			Ran r = program(args);
			++c.nontrivial; ++c.traces; ++c.transitions;
			c.outcome(r.err);
			if(r.code != 1) c.fail("exit code " + std::to_string(r.code) + "\n" + r.err);
			if(r.err.empty()) c.fail("refused without a word");
			if(r.files != before.files) c.fail("files appeared or are modified");
		});
	}
	// An output that cannot be written.
	for(string fmt : { "csx", "plantuml" }) for(string o : { "missing/out.csx", ".", "in.csx/out", "/dev/full" }) for(int force = 0; force < 2; ++force) for(int vb = 0; vb < 2; ++vb) {
		if(!c.take("output")) { if(c.stop) return; continue; }
		vector<string> args { "in.csx", "-o", o, "--output-format", fmt };
		if(force) args.push_back("-f");
		if(vb) args.push_back("-v");
		refused(args);
	}
}

// ---- C03 -------------------------------------------------------------------
void other(mc::Ctx& c) {
	auto v = options();
	// Help and version: on standard output, nothing else happens.
	for(vector<string> h : { vector<string> { "-h" }, { "--help" }, { "--version" } }) for(size_t i = 0; i <= v.size(); ++i) for(int input = 0; input < 2; ++input) for(int last = 0; last < 2; ++last) {
		if(!c.take("help")) { if(c.stop) return; continue; }
		vector<string> args = input ? vector<string> { "in.csx", "-f" } : vector<string> {};
		if(i < v.size()) args.insert(args.end(), v[i].args.begin(), v[i].args.end());
		args.insert(last ? args.end() : args.begin(), h.begin(), h.end());
		c.describe(show(args));
		c.run([&] {
			setup(1);
			auto before = forked([] { return 0; });
			Ran r = program(args);
			++c.nontrivial; ++c.traces; ++c.transitions;
			c.outcome(r.out);
			if(r.code != 0) c.fail("exit code " + std::to_string(r.code) + "\n" + r.err);
			if(r.out.empty()) c.fail("nothing is displayed");
			if(h[0] == "--version" && r.out.find("1.2.3-mc") == string::npos) c.fail("the version is not displayed: " + r.out);
			if(h[0] != "--version") for(auto const& o : v) {
				string n = o.args[0].substr(0, o.args[0].find('='));
				if(r.out.find(n) == string::npos) c.fail("the help does not tell about " + n);
			}
			if(r.files != before.files) c.fail("files are modified");
		});
	}
	// The graphical mode.
	for(int k = 0; k < 8; ++k) for(size_t i = 0; i <= v.size(); ++i) {
		if(k == 0 && i < v.size()) continue;
		if(!c.take("gui")) { if(c.stop) return; continue; }
		vector<vector<string>> const base { {}, { "-G" }, { "-G", "in.csx" }, { "in.csx", "-G" }, { "-i", "in.csx", "-G", "-o", "out.csx" }, { "-G", "-o", "new.csx" }, { "-o", "new.csx", "in.csx", "-G" }, { "-G", "--input", "in.csx" } };
		char const* const ins[] = { "", "", "in.csx", "in.csx", "in.csx", "", "in.csx", "in.csx" };
		char const* const outs[] = { "", "", "in.csx", "in.csx", "out.csx", "new.csx", "new.csx", "in.csx" };
		vector<string> args = base[k];
		if(i < v.size()) args.insert(args.end(), v[i].args.begin(), v[i].args.end());
		c.describe(show(args));
		c.run([&] {
			setup(1);
			auto before = forked([] { return 0; });
			Ran r = program(args);
			++c.nontrivial; ++c.traces; ++c.transitions;
			c.outcome(r.out);
			if(r.code != 42) c.fail("the exit code of the window is not transmitted: " + std::to_string(r.code) + "\n" + r.err);
			string want = string("GUI input=") + ins[k] + " output=" + outs[k] + "\nEXEC\n";
			if(r.out != want) c.fail("expected " + want + "observed " + r.out);
			if(r.files != before.files) c.fail("files are modified");
		});
	}
}

void body(mc::Ctx& c) {
	if(c.prop == "C01") valid(c);
	else if(c.prop == "C02") invalid(c);
	else if(c.prop == "C03") other(c);
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
