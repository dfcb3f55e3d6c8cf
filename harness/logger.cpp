// L01: messages and progress reach who they have to. L02: what the command line asks and prints.
#include "mc.hpp"
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "ui/cli/logger.hpp"
#include "utils/logger.hpp"
#include "utils/progress.hpp"

using std::string;
using std::vector;
using Action = Logger::UserAction;
using Level = Logger::Level;

namespace {

// ------------------------------------------------------------------ L01
struct Seen { int sink; string text; bool interactive; };
struct Spy final : Logger::ISink {
	int n;
	vector<Seen>& seen;
	Spy(int n, vector<Seen>& seen) : n(n), seen(seen) {}
	Action log(Logger::LogEvent const& e) const override {
		seen.push_back({ n, std::to_string((int) e.level) + e.message + "|" + e.informative + "|" + e.details + "|" + std::to_string(e.user_actions.size())
			+ (e.default_user_action ? std::to_string((int) *e.default_user_action) : "-"), is_interactive });
		return (Action) (n + 1); // Each its own answer.
	}
};

struct Op { char k; int n; string text() const { return k == 'r' ? "register " + std::to_string(n) : k == 'i' ? "register " + std::to_string(n) + " as the interactive" : k == 's' ? (n ? "make " + std::to_string(n) + " the interactive" : "no interactive") : n ? "message to " + std::to_string(n) : "message"; } };

void routing(mc::Ctx& c) {
	int const depth = c.thorough() ? 7 : 6, nsink = 3;
	vector<Op> ops;
	for(int n = 1; n <= nsink; ++n) { ops.push_back({ 'r', n }); ops.push_back({ 'i', n }); }
	for(int n = 0; n <= nsink; ++n) ops.push_back({ 's', n });
	for(int n = 0; n <= nsink; ++n) ops.push_back({ 'l', n });
	vector<Op> path;
	auto id = [](int n) { return n ? Logger::id("sink" + std::to_string(n)) : Logger::Id(0); };
	auto execute = [&] {
		if(!c.take("routing")) return;
		c.run([&] {
			string s;
			for(auto const& o : path) s += o.text() + "; ";
			c.describe(s);
			vector<Seen> seen;
			Logger logger;
			std::set<int> model;
			int interactive = 0;
			for(std::size_t k = 0; k < path.size(); ++k) {
				auto const& o = path[k];
				++c.transitions;
				switch(o.k) {
				case 'r': case 'i':
					logger.register_sink(id(o.n), std::make_unique<Spy>(o.n, seen), o.k == 'i');
					model.insert(o.n);
					if(o.k == 'i') interactive = o.n;
					break;
				case 's':
					logger.set_as_the_interactive(id(o.n));
					if(!o.n || model.count(o.n)) interactive = o.n;
					break;
				case 'l': {
					Logger::LogEvent e { .destination = id(o.n), .level = (Level) (k % 4), .user_actions = { Action::OK, Action::CANCEL }, .default_user_action = Action::OK, .message = "m" + std::to_string(k), .informative = "i", .details = "d" };
					seen.clear();
					auto const r = logger.log(e);
					bool const only = o.n && model.count(o.n);
					auto const want = only ? std::set<int> { o.n } : model;
					std::set<int> got;
					for(auto const& x : seen) {
						if(!got.insert(x.sink).second) c.fail("sink " + std::to_string(x.sink) + " got the message twice");
						if(x.text != std::to_string((int) (k % 4)) + "m" + std::to_string(k) + "|i|d|2" + std::to_string((int) Action::OK)) c.fail("sink " + std::to_string(x.sink) + " got another message: " + x.text);
						if(x.interactive != (x.sink == interactive)) c.fail("sink " + std::to_string(x.sink) + (x.interactive ? " believes to be" : " does not know to be") + " the interactive one");
					}
					if(got != want) c.fail("the message reached " + std::to_string(got.size()) + " sinks instead of " + std::to_string(want.size()) + ", or others");
					Action const answer = only ? (Action) (o.n + 1) : interactive ? (Action) (interactive + 1) : Action::NOTHING;
					if(r != answer) c.fail("the answer is " + std::to_string((int) r) + " instead of " + std::to_string((int) answer));
					++c.states;
				} break;
				}
			}
			++c.nontrivial;
			++c.traces;
			c.outcome(std::to_string(interactive) + std::to_string(model.size()) + std::to_string(seen.size()));
		});
	};
	std::function<void (std::set<int>)> rec = [&](std::set<int> known) {
		if(c.stop) return;
		if(!path.empty() && path.back().k == 'l') execute();
		if((int) path.size() == depth) return;
		for(auto const& o : ops) {
			if((o.k == 'r' || o.k == 'i') && known.count(o.n)) continue; // Once each.
			if(o.k == 'l' && !path.empty() && path.back().k == 'l' && o.n <= path.back().n) continue; // Messages change nothing: in one order.
			path.push_back(o);
			auto k = known;
			if(o.k == 'r' || o.k == 'i') k.insert(o.n);
			rec(k);
			path.pop_back();
		}
	};
	rec({});
}

struct SpyBar final : Progress::IBar {
	int n;
	vector<string>& seen;
	SpyBar(int n, vector<string>& seen) : n(n), seen(seen) {}
	void tick(std::size_t i) override { seen.push_back(std::to_string(n) + " tick " + std::to_string(i)); }
	void tick(std::size_t i, std::size_t j) override { seen.push_back(std::to_string(n) + " tick " + std::to_string(i) + "/" + std::to_string(j)); }
	void complete() override { seen.push_back(std::to_string(n) + " complete"); }
};

void progress(mc::Ctx& c) {
	// Bars are built from who is registered at that time, and each of them follows.
	// The registry only grows: one process, in order.
	if(!c.take("progress")) return;
	c.run([&] {
		vector<string> seen;
		std::size_t const sizes[] = { 0, 1, 7 };
		for(int n = 0; n < 4; ++n) {
			c.describe(std::to_string(n) + " displays of progress");
			for(auto max : sizes)
				for(int word = 0; word < 4 * 4 * 4; ++word) { // Every sequence of three calls.
					seen.clear();
					vector<string> want;
					for(int k = 1; k <= n; ++k) want.push_back(std::to_string(k) + " build " + std::to_string(max) + " title");
					auto [bar, i, j] = Progress::Bar::build(max, "title");
					if(i || j) c.fail("counters do not start from zero");
					for(int w = word, k = 0; k < 3; ++k, w /= 4) {
						string what;
						switch(w % 4) {
						case 0: bar.tick(++i); what = " tick " + std::to_string(i); break;
						case 1: bar.tick(++i, j += 2); what = " tick " + std::to_string(i) + "/" + std::to_string(j); break;
						case 2: bar.complete(); what = " complete"; break;
						case 3: continue;
						}
						for(int b = 1; b <= n; ++b) want.push_back(std::to_string(b) + what);
					}
					++c.states;
					c.transitions += 3;
					if(seen != want) {
						string s = "displayed:\n";
						for(auto const& x : seen) s += "  " + x + "\n";
						s += "expected:\n";
						for(auto const& x : want) s += "  " + x + "\n";
						c.fail(s);
					}
				}
			int const k = n + 1;
			Progress::singleton().register_impl_builder([k, &seen](std::size_t max, string const& t) {
				seen.push_back(std::to_string(k) + " build " + std::to_string(max) + " " + t);
				return std::make_unique<SpyBar>(k, seen);
			});
		}
		++c.nontrivial;
		++c.traces;
		c.outcome("progress");
	});
}

// ------------------------------------------------------------------ L02
struct Redirect {
	std::istringstream in;
	std::ostringstream err, out;
	std::streambuf *i, *e, *o;
	explicit Redirect(string const& s) : in(s), i(std::cin.rdbuf(in.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())), o(std::cout.rdbuf(out.rdbuf())) { std::cin.clear(); }
	~Redirect() { std::cin.rdbuf(i); std::cerr.rdbuf(e); std::cout.rdbuf(o); std::cin.clear(); }
};

std::size_t count(string const& s, string const& w) {
	std::size_t n = 0;
	for(auto k = s.find(w); k != string::npos; k = s.find(w, k + 1)) ++n;
	return n;
}

void asking(mc::Ctx& c) {
	static std::pair<char const*, Action> const keys[] = { { "n", Action::CANCEL }, { "y", Action::OK }, { "s", Action::SAVE }, { "c", Action::CLOSE }, { "a", Action::ABORT } };
	static char const* const lines[] = { "n", "y", "s", "c", "a", "", "N", "yes", " s", "?" };
	char const* const names[] = { "Question", "Info", "Warning", "Error" };
	int const len = c.thorough() ? 4 : 3;
	for(int level = 0; level < 4; ++level)
		for(int verbose = 0; verbose < 2; ++verbose)
			for(int interactive = 0; interactive < 2; ++interactive)
				for(int set = 0; set < 32; ++set)
					for(int extra = 0; extra < 4; ++extra) {
						bool const asks = interactive && level == 0 && set;
						if(!c.take("answers")) continue;
						c.run([&] {
							Logger logger;
							logger.register_sink(7, std::make_unique<ui::cli::LoggerSink>(verbose), interactive);
							Logger::LogEvent e { .level = (Level) level, .message = "some message" };
							string offered;
							for(int k = 0; k < 5; ++k) if(set >> k & 1) { e.user_actions.insert(keys[k].second); offered += (offered.empty() ? "" : "/") + string(keys[k].first); }
							if(extra & 1) e.informative = "more about it";
							if(extra & 2) e.details = "every detail";
							bool const printed = level != 1 || verbose;
							vector<int> word;
							auto one = [&] {
								string in, d = string(names[level]) + (verbose ? ", verbose" : "") + (interactive ? ", interactive" : "") + ", offering [" + offered + "], extra " + std::to_string(extra) + ", answers:";
								for(int w : word) { in += string(lines[w]) + "\n"; d += string(" \"") + lines[w] + "\""; }
								c.describe(d);
								Action want = Action::NOTHING;
								std::size_t asked = asks ? word.size() + 1 : 0, left = asks ? 0 : word.size();
								if(asks)
									for(std::size_t k = 0; k < word.size() && want == Action::NOTHING; ++k)
										for(auto const& [key, a] : keys)
											if(string(key) == lines[word[k]] && e.user_actions.count(a)) { want = a; asked = k + 1; left = word.size() - k - 1; break; }
								Action got;
								string err, out;
								std::size_t rest = 0;
								{
									Redirect r(in);
									got = logger.log(e);
									err = r.err.str();
									out = r.out.str();
									std::cin.clear();
									for(string l; std::getline(std::cin, l);) ++rest;
								}
								if(got != want) c.fail("the answer is " + std::to_string((int) got) + " instead of " + std::to_string((int) want));
								if(rest != left) c.fail(std::to_string(rest) + " answers were left instead of " + std::to_string(left));
								if(!out.empty()) c.fail("printed on the standard output: " + out);
								if(count(err, "some message") != (printed ? 1 : 0)) c.fail("the message is printed " + std::to_string(count(err, "some message")) + " time(s)");
								if(printed && count(err, names[level]) != 1) c.fail("the level is not told: " + err);
								if(count(err, "more about it") != (printed && extra & 1 ? 1 : 0)) c.fail("information: " + err);
								if(count(err, "every detail") != (printed && extra & 2 ? 1 : 0)) c.fail("details: " + err);
								if(asks && count(err, "[" ) != asked) c.fail("asked " + std::to_string(count(err, "[")) + " times instead of " + std::to_string(asked) + ": " + err);
								if(!printed && !err.empty()) c.fail("printed: " + err);
								if(printed && !asks && (err.empty() || err.back() != '\n')) c.fail("the line is not ended");
								if(asks) { // Each offer, once.
									auto const b = err.find('['), z = err.find(']');
									std::set<string> o1, o2;
									std::istringstream s1(err.substr(b + 1, z - b - 1)), s2(offered);
									for(string w; std::getline(s1, w, '/');) if(!o1.insert(w).second) c.fail("offered twice: " + err);
									for(string w; std::getline(s2, w, '/');) o2.insert(w);
									if(o1 != o2) c.fail("offers are not told: " + err);
								}
								++c.states;
								++c.transitions;
							};
							std::function<void ()> rec = [&] {
								one();
								if((int) word.size() == (asks ? len : 1)) return;
								for(int w = 0; w < 10; ++w) { word.push_back(w); rec(); word.pop_back(); }
							};
							rec();
							++c.nontrivial;
							++c.traces;
							c.outcome(std::to_string(level) + std::to_string(printed) + std::to_string(asks) + offered);
						});
					}
}

void body(mc::Ctx& c) {
	if(c.prop == "L01") { routing(c); progress(c); }
	else if(c.prop == "L02") asking(c);
}

} // namespace

int main(int argc, char** argv) { return mc::main(argc, argv, body); }
