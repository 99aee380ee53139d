// Shared by the native drivers: seeded randomness, time budget, reporting.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <set>
#include <map>
#include <vector>
#include <sstream>
#include <algorithm>
#include <functional>
#include <chrono>
#include <random>
#include <new>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
namespace drv {
inline std::mt19937_64 rng;
inline double secs = 5;
inline std::chrono::steady_clock::time_point t0;
inline uint64_t evals = 0, distinct = 0, samples = 0;
inline std::set<std::string> failed;
inline std::map<std::string, std::pair<double, double>> budgets;
inline void init(int argc, char** argv) {
	uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	secs = argc > 2 ? atof(argv[2]) : 5;
	rng.seed(seed * 7919 + 17);
	t0 = std::chrono::steady_clock::now();
}
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline uint64_t R(uint64_t n) { return n ? rng() % n : 0; }
inline bool P(double p) { return (rng() >> 11) * 0x1.0p-53 < p; }
template<typename T> const T& pick(const std::vector<T>& v) { return v[R(v.size())]; }
inline std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '\n') o += "\\n";
		else if (c == '\t') o += "\\t";
		else if (c == '\r') o += "\\r";
		else if (c < 32) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
		else o += c;
	}
	return o;
}
inline void fail(const std::string& key, const std::string& text) {
	if (failed.insert(key).second) {
		printf("FAIL key=%s %s\n", key.c_str(), esc(text).substr(0, 6000).c_str());
		fflush(stdout);
	}
}
inline void sample(const std::string& t) {
	if (samples < 6) { ++samples; printf("SAMPLE %s\n", esc(t).substr(0, 400).c_str()); }
}
struct Shared {
	volatile unsigned long long evals, distinct, given_up;
	char last[64][4000];
};
inline Shared* shared = nullptr;
// what the code under test had to say last, for reports
inline std::function<std::string()> said;
inline int worker = 0;
// the case being worked on, for reports about crashes
inline void cur(const std::string& t) {
	if (shared) {
		auto e = esc(t).substr(0, 3900);
		memcpy(shared->last[worker], e.c_str(), e.size() + 1);
		return;
	}
	printf("CASE %s\n", esc(t).substr(0, 1500).c_str());
	fflush(stdout);
}
inline int finish() {
	printf("STATS evaluations=%llu distinct_nontrivial=%llu\n", (unsigned long long)evals, (unsigned long long)distinct);
	fflush(stdout);
	return failed.empty() ? 0 : 1;
}
template<typename... A> std::string cat(const A&... a);
// Runs `one` over and over in worker processes until the time is up. A case that takes longer than `patience` seconds or
// eats the memory is given up and counted (some rule sets grow their window forever, by design); a crash is a failure.
inline int parallel(int n, uint64_t seed, int patience, const std::function<void()>& one) {
	shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	n = std::min(n, 64);
	std::map<pid_t, int> kids;
	int bad = 0, gen = 0;
	auto spawn = [&](int w) {
		++gen;
		fflush(stdout);
		pid_t p = fork();
		if (p) { kids[p] = w; return; }
		worker = w;
		shared->last[w][0] = 0;
		rng.seed((seed * 7919 + 17) * 1000003 + gen * 64 + w);
		rlimit rl{ 3ull << 30, 3ull << 30 };
		setrlimit(RLIMIT_AS, &rl);
		std::set_new_handler([] { _exit(98); });
		signal(SIGALRM, [](int) { _exit(98); });
		atexit([] {
			auto t = esc(said ? said() : "");
			if (t.size() > 400) t = t.substr(t.size() - 400);
			auto at = std::min(strlen(shared->last[worker]), sizeof(shared->last[0]) - 450);
			snprintf(shared->last[worker] + at, 450, " SAID: %s", t.c_str());
			fflush(stdout);
			_exit(97);
		});
		samples = w ? 6 : 4;
		auto left = secs - now();
		uint64_t e = evals, d = distinct;
		while ((left = secs - now()) > 0 && failed.size() < 3) {
			alarm(patience);
			one();
			__sync_fetch_and_add(&shared->evals, evals - e); e = evals;
			__sync_fetch_and_add(&shared->distinct, distinct - d); d = distinct;
		}
		fflush(stdout);
		_exit(failed.empty() ? 0 : 1);
	};
	for (int w = 0; w < n; ++w) spawn(w);
	while (!kids.empty()) {
		int st = 0;
		pid_t p = wait(&st);
		if (p < 0) break;
		int w = kids[p];
		kids.erase(p);
		bool more = now() < secs - 0.3;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 98) {
			__sync_fetch_and_add(&shared->given_up, 1);
			if (more) spawn(w);
		}
		else if (WIFEXITED(st) && WEXITSTATUS(st) < 2) {
			if (WEXITSTATUS(st)) bad = 1;
		}
		else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
			bad = 1;
			fail("exit", cat("the code under test ended the program, case: ", shared->last[w]));
		}
		else {
			bad = 1;
			fail("crash", cat("the code under test crashed (", WIFSIGNALED(st) ? "signal " : "exit ", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), ") on: ") + shared->last[w]);
		}
	}
	evals = shared->evals;
	distinct = shared->distinct;
	if (shared->given_up > 6 && shared->given_up * 20 > evals) fail("hang", cat(shared->given_up, " of ", evals, " cases did not end, the last one: ") + shared->last[0]);
	printf("STATS evaluations=%llu distinct_nontrivial=%llu given_up=%llu\n", (unsigned long long)evals, (unsigned long long)distinct, (unsigned long long)shared->given_up);
	fflush(stdout);
	return bad || !failed.empty();
}
template<typename... A> std::string cat(const A&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
}
