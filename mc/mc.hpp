// Bounded exhaustive explorer (stateless model checking by choice sequences).
//
// A scenario is a function of a Ctx.  Every nondeterministic decision of the scenario (the next API call, its
// arguments, the configuration, the answer of the environment) is made with Ctx::pick(n).  The explorer runs the
// scenario again and again on the real code and enumerates *all* sequences of decisions, depth first, in lexicographic
// order.  There is no sampling and no cap: a run either finishes the whole tree or fails.
// The tree is split over worker processes by the rank of its first `split` decisions.
#ifndef MC_HPP
#define MC_HPP
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof buf, f, ap);
	va_end(ap);
	return buf;
}

struct Fail { std::string key, msg; };
struct Skip {};
struct Diverged { std::string msg; };

inline bool thorough()
{
	const char* t = getenv("VERIF_TIER");
	return t && !strcmp(t, "thorough");
}

struct Stats
{
	uint64_t executions = 0, transitions = 0, checks = 0;
	std::unordered_set<uint64_t> states;
	std::unordered_set<uint64_t> outcomes;
};

struct Ctx
{
	std::vector<int> prefix, choices, widths;
	int split = 0, shard = 0, shards = 1;
	uint64_t rank = 0;
	bool split_done = false;
	bool recording = false;
	std::string log;
	Stats* st = nullptr;
	int* shm = nullptr; // current choices, readable by the parent after a crash
	const std::set<std::string>* known = nullptr;
	std::set<std::string>* known_hit = nullptr;

	// one decision among n
	int pick(int n)
	{
		if(n <= 0) throw Diverged{fmt("pick(%d)", n)};
		size_t p = choices.size();
		int c = 0;
		if(p < prefix.size())
		{
			c = prefix[p];
			if(c >= n) throw Diverged{fmt("decision %zu is %d of %d while replaying", p, c, n)};
		}
		choices.push_back(c);
		widths.push_back(n);
		if(shm)
		{
			if(p + 2 < 1000) { shm[2 + p] = c; shm[1] = int(p + 1); }
		}
		rank = rank * uint64_t(n) + uint64_t(c);
		if(int(choices.size()) == split) check_shard();
		return c;
	}
	bool flip() { return pick(2) == 1; }
	template <class T> const T& of(const std::vector<T>& v) { return v[size_t(pick(int(v.size())))]; }
	void check_shard()
	{
		if(split_done) return;
		split_done = true;
		if(int(rank % uint64_t(shards)) != shard) throw Skip{};
	}
	void transition(uint64_t n = 1) { st->transitions += n; }
	void state(uint64_t h) { st->states.insert(h); }
	void outcome(uint64_t h) { st->outcomes.insert(h); }
	void note(const std::string& s) { if(recording) { log += s; log += "; "; } }
	void note(const char* f, ...)
	{
		if(!recording) return;
		char buf[4096];
		va_list ap;
		va_start(ap, f);
		vsnprintf(buf, sizeof buf, f, ap);
		va_end(ap);
		log += buf;
		log += "; ";
	}
	// the property check; key identifies a call site or history for the known findings file
	template <class F> void check(bool ok, const char* key, F&& describe)
	{
		++st->checks;
		if(ok) return;
		fail(key, describe());
	}
	void check(bool ok, const char* key) { ++st->checks; if(!ok) fail(key, ""); }
	void fail(const std::string& key, const std::string& msg)
	{
		if(known && known->count(key)) { if(known_hit) known_hit->insert(key); return; }
		throw Fail{key, msg};
	}
};

// FNV style hash of doubles (quantised to absorb rounding) and other values
struct Hash
{
	uint64_t h = 1469598103934665603ull;
	Hash& u(uint64_t v) { for(int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } return *this; }
	Hash& d(double v)
	{
		if(std::isnan(v)) return u(0x7ff8dead);
		double q = v * 1e6;
		if(std::fabs(q) < 9e15) return u(uint64_t(llround(q)));
		uint64_t b;
		memcpy(&b, &v, 8);
		return u(b);
	}
	Hash& s(const std::string& v) { for(char c : v) u(uint64_t((unsigned char)c)); return u(0xabcdef); }
	template <class V> Hash& v(const V& x) { for(int i = 0; i < int(x.size()); ++i) d(x(i)); return *this; }
	operator uint64_t() const { return h; }
};

struct Scenario
{
	std::string name;
	std::function<void(Ctx&)> run;
	int split = 2;
};

inline std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for(unsigned char c : s)
	{
		if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
		else if(c < 32 || c > 126) o += fmt("\\u%04x", c);
		else o += char(c);
	}
	return o + "\"";
}
inline std::string jints(const std::vector<int>& v)
{
	std::string o = "[";
	for(size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
	return o + "]";
}

struct WorkerResult
{
	bool failed = false;
	std::string key, msg, log;
	int scenario = -1;
	std::vector<int> choices;
	std::vector<uint64_t> per_scenario;
};

// explore all executions of shard `shard`; returns at the first failure
inline WorkerResult explore(const std::vector<Scenario>& sc, int shard, int shards, Stats& st, int* shm,
	const std::set<std::string>& known, std::set<std::string>& known_hit, std::vector<std::string>& samples, int exec_limit)
{
	WorkerResult r;
	for(size_t s = 0; s < sc.size(); ++s)
	{
		uint64_t n = 0;
		std::vector<int> prefix;
		for(;;)
		{
			Ctx c;
			c.prefix = prefix;
			c.split = sc[s].split;
			c.shard = shard;
			c.shards = shards;
			c.st = &st;
			c.shm = shm;
			c.known = &known;
			c.known_hit = &known_hit;
			// the first executions of every scenario and shard are written out as samples
			c.recording = (n < 1);
			if(shm) { shm[0] = int(s); shm[1] = 0; }
			bool mine = true;
			alarm(unsigned(exec_limit));
			try
			{
				sc[s].run(c);
				if(!c.split_done) c.check_shard();
			}
			catch(Skip&) { mine = false; }
			catch(Fail& f)
			{
				r.failed = true;
				r.key = f.key;
				r.msg = f.msg;
			}
			catch(Diverged& d)
			{
				r.failed = true;
				r.key = "harness-diverged";
				r.msg = d.msg;
			}
			catch(std::exception& e)
			{
				r.failed = true;
				r.key = "unexpected-exception";
				r.msg = e.what();
			}
			catch(...)
			{
				r.failed = true;
				r.key = "unexpected-exception";
				r.msg = "not a std::exception";
			}
			if(mine) { ++n; ++st.executions; }
			if(r.failed)
			{
				r.scenario = int(s);
				r.choices = c.choices;
				r.log = c.log;
				r.per_scenario.push_back(n);
				alarm(0);
				return r;
			}
			if(c.recording && mine && !c.log.empty() && samples.size() < 40) samples.push_back(sc[s].name + ": " + c.log);
			// next sequence of decisions
			size_t i = c.choices.size();
			while(i > 0 && c.choices[i - 1] + 1 >= c.widths[i - 1]) --i;
			if(i == 0) break;
			prefix.assign(c.choices.begin(), c.choices.begin() + long(i));
			++prefix[i - 1];
		}
		r.per_scenario.push_back(n);
	}
	alarm(0);
	return r;
}

inline void quiet()
{
	if(getenv("MC_LOUD")) return;
	std::cerr.setstate(std::ios::failbit);
	std::cout.setstate(std::ios::failbit);
	int fd = open("/dev/null", O_WRONLY);
	if(fd >= 0) dup2(fd, 2);
}

template <class T> inline void put(FILE* f, const T& v) { fwrite(&v, sizeof v, 1, f); }
template <class T> inline bool get(FILE* f, T& v) { return fread(&v, sizeof v, 1, f) == 1; }
inline void puts_(FILE* f, const std::string& s) { put(f, s.size()); fwrite(s.data(), 1, s.size(), f); }
inline bool gets_(FILE* f, std::string& s) { size_t n; if(!get(f, n)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }

// run one choice sequence in a child process; returns "" or a description of the failure
inline std::string run_single(const std::vector<Scenario>& sc, int s, const std::vector<int>& choices, int limit, const std::set<std::string>& known, bool loud, std::string* logout)
{
	FILE* tmp = tmpfile();
	fflush(stdout);
	pid_t p = fork();
	if(p == 0)
	{
		if(!loud) quiet();
		Stats st;
		Ctx c;
		c.prefix = choices;
		c.st = &st;
		c.known = &known;
		c.recording = true;
		alarm(unsigned(limit));
		std::string res;
		try { sc[size_t(s)].run(c); }
		catch(Fail& f) { res = f.key + ": " + f.msg; }
		catch(Diverged& d) { res = "harness-diverged: " + d.msg; }
		catch(std::exception& e) { res = std::string("unexpected-exception: ") + e.what(); }
		catch(...) { res = "unexpected-exception"; }
		puts_(tmp, res);
		puts_(tmp, c.log);
		fflush(tmp);
		_exit(0);
	}
	int stt = 0;
	waitpid(p, &stt, 0);
	std::string res, log;
	if(WIFSIGNALED(stt)) res = fmt("%s: killed by signal %d", WTERMSIG(stt) == SIGALRM ? "hang" : "crash", WTERMSIG(stt));
	else if(WEXITSTATUS(stt) != 0) res = fmt("crash: exit status %d", WEXITSTATUS(stt));
	else { rewind(tmp); gets_(tmp, res); gets_(tmp, log); }
	fclose(tmp);
	if(logout) *logout = log;
	return res;
}

// usage: <check> OUT.json KNOWN          explore everything
//        <check> --replay scenario c0,c1,...
//        <check> --shard shard shards KNOWN   explore one shard in this process (replay of a history dependent failure)
inline int main_(int argc, char** argv, const std::string& id, const std::vector<Scenario>& sc)
{
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::set<std::string> known;
	auto load_known = [&](const char* f)
	{
		std::ifstream in(f);
		std::string l;
		while(std::getline(in, l)) if(!l.empty()) known.insert(l);
	};
	if(argc >= 3 && !strcmp(argv[1], "--replay"))
	{
		int s = -1;
		for(size_t i = 0; i < sc.size(); ++i) if(sc[i].name == argv[2]) s = int(i);
		if(s < 0) { printf("no scenario %s\n", argv[2]); return 2; }
		std::vector<int> ch;
		if(argc > 3) { std::stringstream ss(argv[3]); std::string t; while(std::getline(ss, t, ',')) ch.push_back(atoi(t.c_str())); }
		std::string log;
		std::string r = run_single(sc, s, ch, 600, known, true, &log);
		printf("trace: %s\n", log.c_str());
		if(r.empty()) { printf("held\n"); return 0; }
		printf("failed: %s\n", r.c_str());
		return 1;
	}
	if(argc >= 5 && !strcmp(argv[1], "--shard"))
	{
		load_known(argv[4]);
		quiet();
		Stats st;
		std::set<std::string> hit;
		std::vector<std::string> samples;
		WorkerResult r = explore(sc, atoi(argv[2]), atoi(argv[3]), st, nullptr, known, hit, samples, 600);
		if(!r.failed) { printf("held\n"); return 0; }
		printf("failed: %s: %s\n  scenario %s choices %s\n  %s\n", r.key.c_str(), r.msg.c_str(), sc[size_t(r.scenario)].name.c_str(), jints(r.choices).c_str(), r.log.c_str());
		return 1;
	}
	if(argc < 3) { printf("usage\n"); return 2; }
	load_known(argv[2]);
	auto t0 = std::chrono::steady_clock::now();
	long cpus = sysconf(_SC_NPROCESSORS_ONLN);
	int W = int(cpus < 1 ? 1 : cpus > 8 ? 8 : cpus);
	if(getenv("MC_WORKERS")) W = atoi(getenv("MC_WORKERS"));
	int* shm = static_cast<int*>(mmap(nullptr, size_t(W) * 1024 * sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<FILE*> out;
	std::vector<pid_t> pid;
	for(int w = 0; w < W; ++w)
	{
		out.push_back(tmpfile());
		pid_t p = fork();
		if(p == 0)
		{
			quiet();
			Stats st;
			std::set<std::string> hit;
			std::vector<std::string> samples;
			WorkerResult r = explore(sc, w, W, st, shm + w * 1024, known, hit, samples, 60);
			FILE* f = out.back();
			put(f, st.executions);
			put(f, st.transitions);
			put(f, st.checks);
			put(f, st.states.size());
			for(uint64_t h : st.states) put(f, h);
			put(f, st.outcomes.size());
			for(uint64_t h : st.outcomes) put(f, h);
			put(f, r.per_scenario.size());
			for(uint64_t h : r.per_scenario) put(f, h);
			put(f, samples.size());
			for(auto& s : samples) puts_(f, s);
			put(f, hit.size());
			for(auto& s : hit) puts_(f, s);
			put(f, int(r.failed));
			put(f, r.scenario);
			put(f, r.choices.size());
			for(int c : r.choices) put(f, c);
			puts_(f, r.key);
			puts_(f, r.msg);
			puts_(f, r.log);
			fflush(f);
			_exit(0);
		}
		pid.push_back(p);
	}
	Stats tot;
	std::vector<uint64_t> per(sc.size(), 0);
	std::vector<std::string> samples;
	std::set<std::string> hit;
	struct V { int scenario; std::vector<int> choices; std::string what, log; int worker; };
	std::vector<V> viol;
	std::string error;
	for(int w = 0; w < W; ++w)
	{
		int stt = 0;
		waitpid(pid[size_t(w)], &stt, 0);
		FILE* f = out[size_t(w)];
		if(WIFSIGNALED(stt) || WEXITSTATUS(stt) != 0)
		{
			int* s = shm + w * 1024;
			V v;
			v.scenario = s[0];
			v.choices.assign(s + 2, s + 2 + s[1]);
			v.worker = w;
			v.what = WIFSIGNALED(stt) ? fmt("%s: worker ended by signal %d", WTERMSIG(stt) == SIGALRM ? "hang" : "crash", WTERMSIG(stt)) : fmt("crash: exit status %d", WEXITSTATUS(stt));
			if(WIFSIGNALED(stt) && WTERMSIG(stt) == SIGKILL) error = "worker killed (memory?)";
			else viol.push_back(v);
			continue;
		}
		rewind(f);
		uint64_t e = 0, t = 0, c = 0;
		size_t n = 0;
		get(f, e); get(f, t); get(f, c);
		tot.executions += e; tot.transitions += t; tot.checks += c;
		get(f, n);
		for(size_t i = 0; i < n; ++i) { uint64_t h; get(f, h); tot.states.insert(h); }
		get(f, n);
		for(size_t i = 0; i < n; ++i) { uint64_t h; get(f, h); tot.outcomes.insert(h); }
		get(f, n);
		for(size_t i = 0; i < n; ++i) { uint64_t h; get(f, h); per[i] += h; }
		get(f, n);
		for(size_t i = 0; i < n; ++i) { std::string s; gets_(f, s); if(w == 0 || i == 0) samples.push_back(s); }
		get(f, n);
		for(size_t i = 0; i < n; ++i) { std::string s; gets_(f, s); hit.insert(s); }
		int failed = 0;
		V v;
		get(f, failed);
		get(f, v.scenario);
		get(f, n);
		v.choices.resize(n);
		for(size_t i = 0; i < n; ++i) get(f, v.choices[i]);
		std::string key, msg;
		gets_(f, key);
		gets_(f, msg);
		gets_(f, v.log);
		v.worker = w;
		v.what = key + ": " + msg;
		if(failed) viol.push_back(v);
		fclose(f);
	}
	// report the simplest failure: earliest scenario, then smallest choices
	V* best = nullptr;
	for(auto& v : viol)
		if(!best || v.scenario < best->scenario || (v.scenario == best->scenario && v.choices < best->choices)) best = &v;
	std::string confirmed = "";
	if(best)
	{
		std::string log;
		std::string r = run_single(sc, best->scenario, best->choices, 300, known, false, &log);
		if(!r.empty()) { confirmed = "single"; best->what = r; if(!log.empty()) best->log = log; }
		else
		{
			// the failure depends on earlier executions in the same process (hidden global state): replay the shard
			fflush(stdout);
			pid_t p = fork();
			if(p == 0)
			{
				quiet();
				Stats st;
				std::set<std::string> h2;
				std::vector<std::string> s2;
				WorkerResult rr = explore(sc, best->worker, W, st, nullptr, known, h2, s2, 300);
				_exit(rr.failed ? 1 : 0);
			}
			int stt = 0;
			waitpid(p, &stt, 0);
			if(WIFSIGNALED(stt) || WEXITSTATUS(stt) == 1) confirmed = "shard";
		}
		if(best->what.compare(0, 17, "harness-diverged:") == 0) { error = best->what; }
		else if(confirmed.empty()) error = "failure not reproducible: " + best->what;
	}
	double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	std::ofstream o(argv[1]);
	o << "{\"id\":" << jstr(id) << ",\"executions\":" << tot.executions << ",\"transitions\":" << tot.transitions << ",\"checks\":" << tot.checks
	  << ",\"states\":" << tot.states.size() << ",\"outcomes\":" << tot.outcomes.size() << ",\"workers\":" << W << ",\"wall\":" << wall << ",\"scenarios\":{";
	for(size_t i = 0; i < sc.size(); ++i) o << (i ? "," : "") << jstr(sc[i].name) << ":" << per[i];
	o << "},\"samples\":[";
	for(size_t i = 0; i < samples.size() && i < 24; ++i) o << (i ? "," : "") << jstr(samples[i].substr(0, 1500));
	o << "],\"known_hit\":[";
	size_t k = 0;
	for(auto& h : hit) o << (k++ ? "," : "") << jstr(h);
	o << "],\"error\":" << jstr(error) << ",\"violation\":";
	if(best && error.empty())
		o << "{\"scenario\":" << jstr(sc[size_t(best->scenario)].name) << ",\"choices\":" << jints(best->choices) << ",\"what\":" << jstr(best->what) << ",\"trace\":" << jstr(best->log.substr(0, 4000))
		  << ",\"confirmed\":" << jstr(confirmed) << ",\"shard\":" << best->worker << ",\"shards\":" << W << "}";
	else o << "null";
	o << "}\n";
	o.close();
	return error.empty() ? (best ? 1 : 0) : 3;
}
} // namespace mc

#define MC_MAIN(ID, ...) int main(int argc, char** argv) { return mc::main_(argc, argv, ID, std::vector<mc::Scenario> __VA_ARGS__); }
#endif
