// Shared plumbing of the replay harnesses: they run the real code of /repo (built from the
// current tree) on generated inputs and compare it with an oracle written from the property.
#pragma once
#include <string>
#include <vector>
#include <set>
#include <map>
#include <random>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <chrono>
#include <functional>
#include <unordered_set>
#include <sstream>
#include <algorithm>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace rp {

inline std::string hex(const std::string& s, size_t max = 400) {
	std::string o; char b[8];
	for (size_t i = 0; i < s.size() && i < max; ++i) {
		unsigned char c = static_cast<unsigned char>(s[i]);
		if (c >= 32 && c < 127 && c != '\\' && c != '"') o += static_cast<char>(c);
		else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
	return o;
}
inline std::string json(const std::string& s) {
	std::string o = "\""; char b[8];
	for (char ch : s) {
		unsigned char c = static_cast<unsigned char>(ch);
		if (c == '"' || c == '\\') { o += '\\'; o += ch; }
		else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += ch;
	}
	return o + "\"";
}

struct Fail { std::string key, what; };

class Run {
public:
	std::string prop, outPath;
	bool thorough = false;
	unsigned seed = 1;
	double budget = 20;
	size_t evaluations = 0, nontrivial = 0;
	std::unordered_set<size_t> seen;
	std::vector<std::string> samples;
	std::vector<Fail> fails;
	std::map<std::string, size_t> failCount;
	std::string rule;
	std::mt19937_64 rng;
	char* shm = nullptr;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

	static Run*& self() { static Run* r = nullptr; return r; }

	Run(int argc, char** argv) {
		prop = argc > 1 ? argv[1] : "";
		outPath = argc > 2 ? argv[2] : "/dev/stdout";
		const char* s = getenv("VERIF_SEED"); if (s) seed = static_cast<unsigned>(atoi(s));
		const char* t = getenv("VERIF_TIER"); thorough = t && std::string(t) == "thorough";
		const char* b = getenv("REPLAY_BUDGET"); if (b) budget = atof(b);
		rng.seed(seed * 7919 + 17);
		self() = this;
		std::string cur = outPath + ".cur";
		int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0 && ftruncate(fd, 65536) == 0)
			shm = static_cast<char*>(mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		signal(SIGALRM, [](int) { static const char m[] = "HANG\n"; ssize_t r = ::write(2, m, 5); (void) r; _exit(97); });
	}
	double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
	bool time() const { return elapsed() < budget; }
	// announce a case before running the code on it (survives a crash or a hang)
	bool begin(const std::string& desc, bool nontriv = true) {
		size_t h = std::hash<std::string>()(desc);
		bool fresh = seen.insert(h).second;
		evaluations++;
		if (fresh && nontriv) {
			nontrivial++;
			if (samples.size() < 6 || (evaluations % 9973 == 0 && samples.size() < 12)) samples.push_back(desc.substr(0, 600));
		}
		if (shm) { size_t n = std::min<size_t>(desc.size(), 65000); memcpy(shm, desc.data(), n); shm[n] = 0; }
		cur = desc;
		struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 15; setitimer(ITIMER_REAL, &it, nullptr);
		return fresh;
	}
	void patience(int sec) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec; setitimer(ITIMER_REAL, &it, nullptr); }
	std::string cur;
	void fail(const std::string& key, const std::string& what) {
		if (failCount[key]++ == 0) fails.push_back(Fail{key, cur + " => " + what});
	}
	bool check(bool ok, const std::string& key, const std::string& what) { if (!ok) fail(key, what); return ok; }
	uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
	std::string bytes(size_t n, const std::string& alphabet = "") {
		std::string s; s.reserve(n);
		for (size_t i = 0; i < n; ++i)
			s += alphabet.empty() ? static_cast<char>(rng() & 255) : alphabet[rnd(alphabet.size())];
		return s;
	}
	// all strings over an alphabet up to a length
	void allStrings(const std::string& alpha, size_t maxLen, const std::function<void(const std::string&)>& f) {
		std::vector<std::string> cur{""};
		for (size_t l = 0; l <= maxLen; ++l) {
			std::vector<std::string> next;
			for (const std::string& s : cur) {
				f(s);
				if (l < maxLen) for (char c : alpha) next.push_back(s + c);
			}
			cur.swap(next);
		}
	}
	int finish() {
		struct itimerval it; memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, nullptr);
		FILE* f = fopen(outPath.c_str(), "w");
		if (!f) return 3;
		fprintf(f, "{\"property\": %s, \"evaluations\": %zu, \"distinct_nontrivial\": %zu, \"rule\": %s, \"elapsed\": %.2f,\n \"samples\": [", json(prop).c_str(), evaluations, nontrivial, json(rule).c_str(), elapsed());
		for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s%s", i ? ", " : "", json(samples[i]).c_str());
		fprintf(f, "],\n \"failures\": [");
		for (size_t i = 0; i < fails.size(); ++i)
			fprintf(f, "%s{\"key\": %s, \"count\": %zu, \"case\": %s}", i ? ",\n  " : "", json(fails[i].key).c_str(), failCount[fails[i].key], json(fails[i].what).c_str());
		fprintf(f, "]}\n");
		fclose(f);
		return 0;
	}
};

} // rp
