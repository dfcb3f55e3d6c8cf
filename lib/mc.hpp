// Common part of every model-checking harness: case enumeration, sharding,
// crash/hang attribution, statistics, replay. Standalone (does not depend on
// the code under test).
#pragma once
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace mc {

struct Failure { std::string what; std::string key; };

struct Shared { // mmapped so that the driver can read it after a crash
	char id[256];
	char desc[65536 - 256];
};

struct Ctx {
	std::string tier = "quick";
	std::string prop;      // property id (one harness may decide several)
	long seed = 1;
	long shard = 0, nshards = 1;
	std::string only;      // run only this case id
	std::string upto;      // run everything of this shard up to and including this id
	std::string family;    // restrict to a family (prefix of case id)
	std::string outfile;   // result file
	double deadline = 1e18;
	unsigned case_timeout = 30;
	bool thorough() const { return tier == "thorough"; }

	// Statistics
	std::uint64_t cases = 0, nontrivial = 0, states = 0, transitions = 0, traces = 0;
	std::map<std::string, std::uint64_t> counters;
	std::unordered_set<std::uint64_t> outcomes; // distinct observed outcomes (hashes, capped)
	std::vector<std::string> samples;
	std::vector<std::pair<std::string, std::string>> failures; // id, text
	std::vector<std::string> failure_keys;
	std::set<std::string> known;                 // keys of recorded findings
	std::map<std::string, std::uint64_t> known_hits;
	bool capped = false;
	std::string capped_at;

	Shared* shm = nullptr;
	std::uint64_t seq = 0;
	std::string cur_id, cur_desc;
	bool stop = false;
	std::size_t max_failures = 25;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

	double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

	// Decides whether the next case of the enumeration belongs to this shard.
	// Cheap: no description is built yet.
	bool take(char const* fam) {
		if(stop) return false;
		std::uint64_t n = seq++;
		if(!family.empty() && family != fam) return false;
		if(!only.empty()) {
			if(only != std::string(fam) + ":" + std::to_string(n)) return false;
		} else if((long)(n % nshards) != shard) {
			return false;
		} else if(elapsed() > deadline) {
			capped = true;
			if(capped_at.empty()) capped_at = std::string(fam) + ":" + std::to_string(n);
			stop = true;
			return false;
		}
		cur_id = std::string(fam) + ":" + std::to_string(n);
		cur_desc.clear();
		++cases;
		if(shm) { std::snprintf(shm->id, sizeof shm->id, "%s", cur_id.c_str()); shm->desc[0] = 0; }
		alarm(case_timeout);
		return true;
	}

	void describe(std::string const& d) {
		cur_desc = d;
		if(shm) std::snprintf(shm->desc, sizeof shm->desc, "%s", d.c_str());
	}

	void fail(std::string const& what, std::string const& key = {}) {
		throw Failure { what, key };
	}

	// Runs one case body, capturing its failure.
	template<class F> void run(F&& f) {
		try {
			f();
		} catch(Failure const& e) {
			if(only.empty() && !e.key.empty() && known.count(e.key)) { // counted, does not hide others
				++known_hits[e.key];
				alarm(0);
				return;
			}
			failures.emplace_back(cur_id, cur_desc + "\n" + e.what);
			failure_keys.push_back(e.key);
			if(failures.size() >= max_failures) stop = true;
		} catch(std::exception const& e) {
			failures.emplace_back(cur_id, cur_desc + "\nunexpected exception: " + e.what());
			failure_keys.push_back("exception");
			if(failures.size() >= max_failures) stop = true;
		}
		alarm(0);
		if(samples.size() < 4 && !cur_desc.empty() && (cases % 97) == 1) samples.push_back(cur_id + " " + cur_desc);
		if(!upto.empty() && cur_id == upto) stop = true;
	}

	void outcome(std::string const& o) {
		if(outcomes.size() >= 4000000) return;
		std::uint64_t h = 1469598103934665603ull;
		for(unsigned char ch : o) h = (h ^ ch) * 1099511628211ull;
		outcomes.insert(h);
	}
};

inline std::string jesc(std::string const& s) {
	std::string o;
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c == '\n') o += "\\n";
		else if(c == '\t') o += "\\t";
		else if(c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}

inline Ctx*& current() { static Ctx* c = nullptr; return c; }

inline void write_result(Ctx const& c) {
	std::ostringstream o;
	o << "{\"cases\":" << c.cases << ",\"nontrivial\":" << c.nontrivial << ",\"states\":" << c.states
	  << ",\"transitions\":" << c.transitions << ",\"traces\":" << c.traces
	  << ",\"enumerated\":" << c.seq
	  << ",\"outcomes\":" << c.outcomes.size()
	  << ",\"capped\":" << (c.capped ? "true" : "false")
	  << ",\"capped_at\":\"" << jesc(c.capped_at) << "\",\"counters\":{";
	bool first = true;
	for(auto const& [k, v] : c.counters) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
	o << "},\"known\":{";
	first = true;
	for(auto const& [k, v] : c.known_hits) { o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v; first = false; }
	o << "},\"samples\":[";
	for(std::size_t i = 0; i < c.samples.size(); ++i) o << (i ? "," : "") << "\"" << jesc(c.samples[i]) << "\"";
	o << "],\"failures\":[";
	for(std::size_t i = 0; i < c.failures.size(); ++i)
		o << (i ? "," : "") << "{\"id\":\"" << jesc(c.failures[i].first) << "\",\"text\":\"" << jesc(c.failures[i].second)
		  << "\",\"key\":\"" << jesc(c.failure_keys[i]) << "\"}";
	o << "]}\n";
	if(!c.outfile.empty()) { // The driver merges those of every shard.
		FILE* h = std::fopen((c.outfile + ".hash").c_str(), "wb");
		if(!h) { std::perror("result"); std::_Exit(2); }
		for(std::uint64_t x : c.outcomes) std::fwrite(&x, sizeof x, 1, h);
		std::fclose(h);
	}
	FILE* f = c.outfile.empty() ? stdout : std::fopen(c.outfile.c_str(), "w");
	if(!f) { std::perror("result"); std::_Exit(2); }
	std::fputs(o.str().c_str(), f);
	if(f != stdout) std::fclose(f);
}

inline void on_alarm(int) {
	static char const m[] = "MC-TIMEOUT\n";
	if(write(2, m, sizeof m - 1)) {}
	_exit(97);
}

inline int main(int argc, char** argv, void (*body)(Ctx&)) {
	static Ctx c;
	current() = &c;
	std::string shmfile;
	for(int i = 1; i + 1 < argc; i += 2) {
		std::string k = argv[i], v = argv[i + 1];
		if(k == "--tier") c.tier = v;
		else if(k == "--prop") c.prop = v;
		else if(k == "--seed") c.seed = std::stol(v);
		else if(k == "--shard") { c.shard = std::stol(v); c.nshards = std::stol(v.substr(v.find('/') + 1)); }
		else if(k == "--only") c.only = v;
		else if(k == "--upto") c.upto = v;
		else if(k == "--family") c.family = v;
		else if(k == "--out") c.outfile = v;
		else if(k == "--deadline") c.deadline = std::stod(v);
		else if(k == "--case-timeout") c.case_timeout = std::stoul(v);
		else if(k == "--shm") shmfile = v;
		else if(k == "--known") { std::istringstream i(v); for(std::string w; std::getline(i, w, ',');) c.known.insert(w); }
		else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); return 2; }
	}
	if(!shmfile.empty()) {
		int fd = open(shmfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if(fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { std::perror("shm"); return 2; }
		void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if(p == MAP_FAILED) { std::perror("mmap"); return 2; }
		c.shm = static_cast<Shared*>(p);
	}
	std::signal(SIGALRM, on_alarm);
	body(c);
	alarm(0);
	write_result(c);
	return 0;
}

} // namespace mc
