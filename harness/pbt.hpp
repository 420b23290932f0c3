// A small property-based testing engine (Hypothesis-style internal shrinking).
//
// A case is a pure function of a finite sequence of bounded integer choices.  In search mode the choices come from
// a PRNG seeded by (VERIF_SEED, sub-check name, case index); in replay/shrink mode they come from a list (missing
// choices read as 0, too large ones are clamped).  Every choice is written to shared memory as it is drawn, so
// assertion failures, sanitizer aborts, signals and hangs are attributed to the exact case that caused them and
// shrink like ordinary failures.  Cases run in forked workers; the parent never executes code under test.
#pragma once

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <fcntl.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#ifndef PBT_ASAN
#define PBT_ASAN 0
#endif

namespace pbt {

constexpr size_t kMaxChoices = 1 << 16;

inline uint64_t SplitMix(uint64_t& s) {
	uint64_t z = (s += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

inline uint64_t HashStr(const std::string& s) {
	uint64_t h = 1469598103934665603ull;
	for (const char c : s) {
		h = (h ^ (unsigned char)c) * 1099511628211ull;
	}
	return h;
}

struct Failure {
	std::string kind;
	std::string msg;
};
struct Discarded {};
struct Excluded {};

struct Shared {
	std::atomic<uint32_t> sub;
	std::atomic<uint64_t> index;
	std::atomic<uint32_t> n;
	std::atomic<uint32_t> active;
	uint64_t choices[kMaxChoices];
	uint32_t noteLen;
	char note[4096]; // what the case said about itself, kept for when the process dies
};
struct Control {
	std::atomic<uint32_t> stop;
};


/// Source of every random decision of a case, plus its log, labels and verdict helpers.
class Gen {
public:
	explicit Gen(uint64_t seed, Shared* sh) : m_random(true), m_state(seed), m_shared(sh) { Begin(); }
	explicit Gen(const std::vector<uint64_t>* replay, Shared* sh) : m_random(false), m_replay(replay), m_shared(sh) { Begin(); }
	Gen(const uint8_t* data, size_t size, Shared* sh) : m_random(false), m_bytes(data), m_numBytes(size), m_shared(sh) { Begin(); }

	/// An integer in [0, max]. 0 is the simplest.
	uint64_t draw(uint64_t max) {
		uint64_t v = 0;
		if (m_random) {
			const uint64_t r = SplitMix(m_state);
			v = max == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * (max + 1)) >> 64);
		}
		else if (m_replay) {
			v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0;
			v = std::min(v, max);
		}
		else {
			size_t nb = 1;
			while (nb < 8 && (max >> (8 * nb)) != 0) {
				++nb;
			}
			for (size_t i = 0; i < nb && m_bytePos < m_numBytes; ++i) {
				v = v << 8 | m_bytes[m_bytePos++];
			}
			if (max != UINT64_MAX) {
				v %= max + 1;
			}
		}
		++m_pos;
		if (m_rec.size() >= kMaxChoices) {
			throw Discarded{};
		}
		m_rec.push_back(v);
		if (m_shared) {
			m_shared->choices[m_rec.size() - 1] = v;
			m_shared->n.store((uint32_t)m_rec.size(), std::memory_order_relaxed);
		}
		return v;
	}
	/// Integer in [lo, hi], shrinks to lo.
	template <class I = long>
	I range(I lo, std::common_type_t<I> hi) { return I(lo + I(draw(uint64_t(hi - lo)))); }
	/// Integer in [lo, hi], shrinks toward 0 when it is inside (small magnitudes first).
	long sym(long mag) {
		const uint64_t v = draw(2 * (uint64_t)mag);
		return v % 2 ? long(v / 2 + 1) : -long(v / 2);
	}
	bool flag() { return draw(1) == 1; }
	/// True with probability num/den; shrinks to false.
	bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
	template <class T>
	const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
	template <class T>
	T pick(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
	/// Uniform double in [0,1), 2^-32 granularity, shrinks to 0.
	double unit() { return double(draw(0xffffffffull)) / 4294967296.0; }
	/// Uniform in [lo, hi).
	double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
	/// "Nice" real: mostly a coarse grid, sometimes full resolution.
	double nice(double lo, double hi) {
		switch (draw(2)) {
			case 0: return lo + (hi - lo) * double(draw(16)) / 16.0;
			case 1: return lo + (hi - lo) * double(draw(1000)) / 1000.0;
			default: return real(lo, hi);
		}
	}
	/// Log-uniform in [lo, hi].
	double logu(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
	/// A length in [lo, hi], biased to small values, vector-width and power-of-two neighbourhoods and the extremes.
	size_t size(size_t lo, size_t hi) {
		if (lo >= hi) {
			return lo;
		}
		size_t v = lo;
		switch (draw(5)) {
			case 0: v = lo + draw(std::min<size_t>(hi - lo, 8)); break;
			case 1: v = lo + draw(std::min<size_t>(hi - lo, 40)); break;
			case 2: {
				size_t p = size_t(1) << draw(13);
				v = p + draw(4);
				v = v >= 2 ? v - 2 : 0;
				break;
			}
			case 3: v = lo + draw(hi - lo); break;
			case 4: v = lo + draw(hi - lo); break;
			default: v = hi - draw(std::min<size_t>(hi - lo, 3)); break;
		}
		return std::clamp(v, lo, hi);
	}

	/// A size that is now and then much larger than usual.
	size_t length(size_t lo, size_t hi, size_t large = 16) { return draw(63) == 63 ? size(lo, hi * large) : size(lo, hi); }

	void label(const std::string& s) { m_labels.insert(s); }
	void labelIf(bool b, const std::string& s) {
		if (b) {
			m_labels.insert(s);
		}
	}
	void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
	template <class... A>
	void note(const A&... a) {
		if (m_note.size() > 20000) {
			return;
		}
		std::ostringstream s;
		s.precision(17);
		(s << ... << a);
		m_note += s.str();
		m_note += "; ";
		if (m_shared) {
			m_shared->noteLen = (uint32_t)std::min(m_note.size(), sizeof m_shared->note);
			std::memcpy(m_shared->note, m_note.data(), m_shared->noteLen);
		}
	}
	[[noreturn]] void discard() { throw Discarded{}; }
	[[noreturn]] void exclude() { throw Excluded{}; }

	template <class... A>
	[[noreturn]] void fail(const std::string& kind, const A&... a) {
		std::ostringstream s;
		s.precision(17);
		(s << ... << a);
		throw Failure{ kind, s.str() };
	}
	template <class... A>
	void check(bool ok, const std::string& kind, const A&... a) {
		++m_checks;
		if (!ok) {
			fail(kind, a...);
		}
	}

	std::vector<uint64_t> m_rec;
	std::set<std::string> m_labels;
	std::string m_note;
	bool m_nontrivial = false;
	uint64_t m_checks = 0;

private:
	void Begin() {
		if (m_shared) {
			m_shared->n.store(0);
			m_shared->noteLen = 0;
		}
	}
	bool m_random;
	uint64_t m_state = 0;
	const std::vector<uint64_t>* m_replay = nullptr;
	const uint8_t* m_bytes = nullptr;
	size_t m_numBytes = 0, m_bytePos = 0;
	size_t m_pos = 0;
	Shared* m_shared = nullptr;
};


struct Sub {
	std::string name;
	uint64_t quickCases;
	std::function<void(Gen&)> fn;
	std::string rule;
};
inline std::vector<Sub>& Registry() {
	static std::vector<Sub> r;
	return r;
}
struct Registrar {
	Registrar(std::string name, uint64_t cases, std::string rule, std::function<void(Gen&)> fn) {
		Registry().push_back({ std::move(name), cases, std::move(fn), std::move(rule) });
	}
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROP(NAME, CASES, RULE)                                                                     \
	static void PBT_CAT(prop_, __LINE__)(pbt::Gen&);                                                \
	static pbt::Registrar PBT_CAT(reg_, __LINE__){ NAME, CASES, RULE, &PBT_CAT(prop_, __LINE__) }; \
	static void PBT_CAT(prop_, __LINE__)([[maybe_unused]] pbt::Gen & g)

/// Lazily formatted checks (the message is only built on failure).
#define CHK(ok, kind, ...)              \
	do {                                \
		++g.m_checks;                   \
		if (!(ok)) {                    \
			g.fail(kind, __VA_ARGS__);  \
		}                               \
	} while (0)

/// Shapes of known findings (known_findings.json, status "open"), excluded by construction and probed separately.
inline std::set<std::string>& KnownFindings() {
	static std::set<std::string> k;
	return k;
}
inline bool IsKnown(const std::string& id) { return KnownFindings().count(id) != 0; }


// ---------------------------------------------------------------------------------------------------------------
struct Outcome {
	enum eType { PASS,
				 DISCARD,
				 EXCLUDE,
				 FAIL } type = PASS;
	std::string kind, msg, note;
	std::vector<uint64_t> choices;
	bool timeout = false;
};

inline std::string JsonEsc(const std::string& s) {
	std::string o;
	for (const unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += char(c);
		}
		else if (c == '\n') {
			o += "\\n";
		}
		else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			std::snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		}
		else {
			o += char(c);
		}
	}
	return o;
}

inline Outcome RunInProcess(const Sub& sub, Gen& g) {
	Outcome o;
	try {
		sub.fn(g);
	}
	catch (const Failure& f) {
		o.type = Outcome::FAIL;
		o.kind = f.kind;
		o.msg = f.msg;
	}
	catch (const Discarded&) {
		o.type = Outcome::DISCARD;
	}
	catch (const Excluded&) {
		o.type = Outcome::EXCLUDE;
	}
	catch (const std::exception& e) {
		o.type = Outcome::FAIL;
		o.kind = "exception";
		o.msg = std::string("unexpected exception: ") + e.what();
	}
	o.note = g.m_note;
	o.choices = g.m_rec;
	return o;
}

struct Options {
	uint64_t seed = 1;
	double scale = 1.0;
	unsigned workers = 8;
	double maxSeconds = 300;
	double caseCpuSeconds = 20;
	double shrinkSeconds = 40;
	std::string out, replayOut, replayIn, only, logPrefix;
	bool list = false;
};

inline void SetCaseTimer(double s) {
	itimerval t{};
	t.it_value.tv_sec = (time_t)s;
	t.it_value.tv_usec = (suseconds_t)((s - std::floor(s)) * 1e6);
	setitimer(ITIMER_PROF, &t, nullptr);
}

inline uint64_t CaseSeed(const Options& opt, const Sub& sub, uint64_t index) {
	uint64_t s = opt.seed * 0x2545F4914F6CDD1Dull ^ HashStr(sub.name);
	SplitMix(s);
	s ^= (index + 1) * 0xD1342543DE82EF95ull;
	SplitMix(s);
	return s;
}

inline std::string ReadFile(const std::string& p, size_t maxBytes = 6000) {
	std::ifstream f(p, std::ios::binary);
	std::string s((std::istreambuf_iterator<char>(f)), {});
	return s.size() > maxBytes ? s.substr(0, maxBytes) : s;
}

inline void RedirectStderr(const std::string& path) {
	const int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd >= 0) {
		dup2(fd, 2);
		close(fd);
	}
}

inline std::string DescribeStatus(int status, bool& timeout) {
	timeout = false;
	if (WIFSIGNALED(status)) {
		if (WTERMSIG(status) == SIGPROF) {
			timeout = true;
			return "hang: exceeded the CPU-time limit of one case";
		}
		return std::string("killed by signal ") + strsignal(WTERMSIG(status));
	}
	return "exit status " + std::to_string(WEXITSTATUS(status));
}

inline Shared* MapShared() {
	void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) {
		std::perror("mmap");
		std::_Exit(2);
	}
	return static_cast<Shared*>(p);
}

inline void ChildLimits() {
	rlimit core{ 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
#if !PBT_ASAN
	rlimit as{ 6ull << 30, 6ull << 30 };
	setrlimit(RLIMIT_AS, &as);
	mallopt(M_PERTURB, 0x41); // fresh heap memory reads as 0xBE..., freed memory as 0x41...
#endif
}

/// Runs something in a forked child; fn returns an Outcome; crashes become FAIL outcomes.
inline Outcome RunForked(const Options& opt, Shared* sh, const std::function<Outcome()>& fn) {
	int fds[2];
	if (pipe(fds) != 0) {
		std::perror("pipe");
		std::_Exit(2);
	}
	const std::string errPath = opt.logPrefix + ".child.err";
	sh->n.store(0);
	const pid_t pid = fork();
	if (pid == 0) {
		close(fds[0]);
		ChildLimits();
		RedirectStderr(errPath);
		SetCaseTimer(opt.caseCpuSeconds);
		const Outcome o = fn();
		SetCaseTimer(0);
		std::string buf;
		buf += char('0' + int(o.type));
		auto put = [&buf](const std::string& s) {
			const uint64_t n = s.size();
			buf.append(reinterpret_cast<const char*>(&n), 8);
			buf += s;
		};
		put(o.kind);
		put(o.msg);
		put(o.note);
		put(std::string(reinterpret_cast<const char*>(o.choices.data()), o.choices.size() * 8));
		size_t off = 0;
		while (off < buf.size()) {
			const ssize_t w = write(fds[1], buf.data() + off, buf.size() - off);
			if (w <= 0) {
				break;
			}
			off += size_t(w);
		}
		std::_Exit(0);
	}
	close(fds[1]);
	std::string buf;
	char tmp[65536];
	ssize_t r;
	while ((r = read(fds[0], tmp, sizeof tmp)) > 0) {
		buf.append(tmp, size_t(r));
	}
	close(fds[0]);
	int status = 0;
	waitpid(pid, &status, 0);
	Outcome o;
	if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !buf.empty()) {
		o.type = Outcome::eType(buf[0] - '0');
		size_t p = 1;
		auto get = [&]() {
			uint64_t n;
			std::memcpy(&n, buf.data() + p, 8);
			p += 8;
			std::string s = buf.substr(p, n);
			p += n;
			return s;
		};
		o.kind = get();
		o.msg = get();
		o.note = get();
		const std::string c = get();
		o.choices.resize(c.size() / 8);
		std::memcpy(o.choices.data(), c.data(), c.size());
	}
	else {
		o.type = Outcome::FAIL;
		o.kind = "crash";
		o.msg = DescribeStatus(status, o.timeout) + "\n" + ReadFile(errPath);
		if (o.timeout) {
			o.kind = "hang";
		}
		const uint32_t n = std::min<uint32_t>(sh->n.load(), kMaxChoices);
		o.choices.assign(sh->choices, sh->choices + n);
		o.note.assign(sh->note, std::min<size_t>(sh->noteLen, sizeof sh->note));
	}
	return o;
}

inline Outcome RunChoices(const Options& opt, Shared* sh, const Sub& sub, const std::vector<uint64_t>& choices) {
	return RunForked(opt, sh, [&] {
		Gen g(&choices, sh);
		return RunInProcess(sub, g);
	});
}

/// Shortlex-decreasing shrink of a failing choice sequence.
inline Outcome Shrink(const Options& opt, Shared* sh, const Sub& sub, Outcome best, uint64_t& tried) {
	const auto start = std::chrono::steady_clock::now();
	const std::string kind = best.kind;
	auto expired = [&] {
		return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > opt.shrinkSeconds || tried > 4000;
	};
	auto simpler = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
		return a.size() != b.size() ? a.size() < b.size() : a < b;
	};
	auto attempt = [&](const std::vector<uint64_t>& c) {
		if (expired() || !simpler(c, best.choices)) {
			return false;
		}
		++tried;
		Outcome o = RunChoices(opt, sh, sub, c);
		if (o.type != Outcome::FAIL || o.kind != kind || o.timeout) {
			return false;
		}
		if (!simpler(o.choices, best.choices)) {
			return false;
		}
		best = std::move(o);
		return true;
	};
	bool progress = true;
	while (progress && !expired()) {
		progress = false;
		// Remove blocks.
		for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
			for (size_t i = 0; i + len <= best.choices.size() && !expired();) {
				auto c = best.choices;
				c.erase(c.begin() + i, c.begin() + i + len);
				if (attempt(c)) {
					progress = true;
				}
				else {
					i += len;
				}
			}
			if (len == 1) {
				break;
			}
		}
		// Zero blocks, then minimise single values.
		for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 2; len /= 2) {
			for (size_t i = 0; i + len <= best.choices.size() && !expired(); i += len) {
				auto c = best.choices;
				if (std::any_of(c.begin() + i, c.begin() + i + len, [](uint64_t v) { return v != 0; })) {
					std::fill(c.begin() + i, c.begin() + i + len, 0);
					progress |= attempt(c);
				}
			}
		}
		for (size_t i = 0; i < best.choices.size() && !expired(); ++i) {
			if (best.choices[i] == 0) {
				continue;
			}
			auto c = best.choices;
			c[i] = 0;
			if (attempt(c)) {
				progress = true;
				continue;
			}
			uint64_t lo = 0, hi = best.choices[i];
			while (i < best.choices.size() && hi - lo > 1 && !expired()) {
				const uint64_t mid = lo + (hi - lo) / 2;
				c = best.choices;
				if (i >= c.size()) {
					break;
				}
				c[i] = mid;
				if (attempt(c)) {
					progress = true;
					hi = i < best.choices.size() ? best.choices[i] : 0;
				}
				else {
					lo = mid;
				}
			}
			if (i < best.choices.size() && best.choices[i] > 0) {
				c = best.choices;
				c[i] -= 1;
				progress |= attempt(c);
			}
		}
	}
	return best;
}

inline void WriteReplay(const std::string& path, const Sub& sub, const std::string& mode, uint64_t seed, uint64_t from, uint64_t to, uint64_t stride, const Outcome& o) {
	std::ofstream r(path);
	r << "sub " << sub.name << "\nmode " << mode << "\nseed " << seed << "\nfrom " << from << "\nto " << to << "\nstride " << stride << "\n";
	r << "choices " << o.choices.size();
	for (const uint64_t c : o.choices) {
		r << " " << c;
	}
	r << "\n";
	auto comment = [&r](const std::string& what, const std::string& s) {
		std::istringstream is(s);
		std::string line;
		while (std::getline(is, line)) {
			r << "# " << what << " " << line << "\n";
		}
	};
	comment("case:", o.note);
	comment("failure:", "[" + o.kind + "] " + o.msg);
}

inline int Main(int argc, char** argv) {
	Options opt;
	std::string known, adopt;
	for (int i = 1; i < argc; ++i) {
		const std::string a = argv[i];
		auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--seed") opt.seed = std::stoull(next());
		else if (a == "--scale") opt.scale = std::stod(next());
		else if (a == "--workers") opt.workers = (unsigned)std::stoul(next());
		else if (a == "--max-seconds") opt.maxSeconds = std::stod(next());
		else if (a == "--case-cpu") opt.caseCpuSeconds = std::stod(next());
		else if (a == "--out") opt.out = next();
		else if (a == "--replay-out") opt.replayOut = next();
		else if (a == "--replay") opt.replayIn = next();
		else if (a == "--only") opt.only = next();
		else if (a == "--known") known = next();
		else if (a == "--adopt") adopt = next();
		else if (a == "--list") opt.list = true;
		else {
			std::cerr << "unknown argument " << a << "\n";
			return 2;
		}
	}
	{
		std::istringstream ks(known);
		std::string k;
		while (std::getline(ks, k, ',')) {
			if (!k.empty()) {
				KnownFindings().insert(k);
			}
		}
	}
	opt.logPrefix = opt.out.empty() ? "/tmp/pbt." + std::to_string(getpid()) : opt.out;
	auto& subs = Registry();
	if (opt.list) {
		for (auto& s : subs) {
			std::cout << s.name << " " << s.quickCases << "\n";
		}
		return 0;
	}
	Shared* const sh0 = MapShared();

	if (!opt.replayIn.empty()) {
		std::ifstream f(opt.replayIn);
		std::string word, subName, mode;
		std::vector<uint64_t> choices;
		uint64_t from = 0, to = 0, stride = 1, seed = opt.seed;
		while (f >> word) {
			if (word == "sub") std::getline(f >> std::ws, subName);
			else if (word == "mode") f >> mode;
			else if (word == "from") f >> from;
			else if (word == "to") f >> to;
			else if (word == "stride") f >> stride;
			else if (word == "seed") f >> seed;
			else if (word == "choices") {
				size_t n;
				f >> n;
				choices.resize(n);
				for (auto& c : choices) {
					f >> c;
				}
			}
			else if (word == "#") {
				std::getline(f, word);
			}
		}
		opt.seed = seed;
		for (auto& s : subs) {
			if (s.name == subName) {
				Outcome o;
				if (mode == "history") {
					o = RunForked(opt, sh0, [&] {
						Outcome last;
						for (uint64_t i = from; i <= to; i += stride) {
							SetCaseTimer(opt.caseCpuSeconds);
							Gen g(CaseSeed(opt, s, i), sh0);
							last = RunInProcess(s, g);
							if (last.type == Outcome::FAIL) {
								break;
							}
						}
						return last;
					});
				}
				else {
					o = RunChoices(opt, sh0, s, choices);
				}
				std::cout << "case: " << o.note << "\n";
				if (o.type == Outcome::FAIL) {
					std::cout << "FAIL [" << o.kind << "] " << o.msg << "\n";
					return 1;
				}
				std::cout << (o.type == Outcome::PASS ? "PASS\n" : "DISCARDED\n");
				return 0;
			}
		}
		std::cerr << "no such sub-check: " << subName << "\n";
		return 2;
	}

	if (!adopt.empty()) {
		// A failure found by the coverage-guided driver: shrink it and turn it into a replay file.
		std::vector<uint64_t> choices;
		std::string subName;
		std::ifstream f(adopt, std::ios::binary);
		uint32_t n = 0;
		auto in = std::make_unique<Shared>();
		if (!f.read(reinterpret_cast<char*>(in.get()), sizeof(Shared)) || in->sub.load() >= subs.size()) {
			return 2;
		}
		n = std::min<uint32_t>(in->n.load(), kMaxChoices);
		choices.assign(in->choices, in->choices + n);
		const Sub& sub = subs[in->sub.load()];
		uint64_t tries = 0;
		Outcome o = RunChoices(opt, sh0, sub, choices);
		if (o.type != Outcome::FAIL) {
			return 3;
		}
		if (!o.timeout) {
			o = Shrink(opt, sh0, sub, o, tries);
		}
		WriteReplay(opt.replayOut, sub, "choices", opt.seed, 0, 0, 1, o);
		std::cout << "FAILED " << sub.name << " [" << o.kind << "] " << o.msg.substr(0, 1500) << "\nshrunk case: " << o.note.substr(0, 1500) << "\n";
		return 1;
	}

	const auto start = std::chrono::steady_clock::now();
	auto* ctl = static_cast<Control*>(mmap(nullptr, sizeof(Control), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	std::vector<Shared*> shared;
	std::vector<pid_t> pids;
	const unsigned W = opt.workers;
	auto numCases = [&](const Sub& s) { return std::max<uint64_t>(1, (uint64_t)std::llround(double(s.quickCases) * opt.scale)); };

	for (unsigned w = 0; w < W; ++w) {
		shared.push_back(MapShared());
		const pid_t pid = fork();
		if (pid == 0) {
			ChildLimits();
			RedirectStderr(opt.logPrefix + ".w" + std::to_string(w) + ".err");
			Shared* sh = shared[w];
			std::ofstream res(opt.logPrefix + ".w" + std::to_string(w) + ".res", std::ios::binary);
			for (uint32_t si = 0; si < subs.size(); ++si) {
				const Sub& sub = subs[si];
				if (!opt.only.empty() && sub.name.find(opt.only) == std::string::npos) {
					continue;
				}
				uint64_t evals = 0, discards = 0, excluded = 0, checks = 0, truncated = 0;
				std::map<std::string, uint64_t> labels;
				std::unordered_set<uint64_t> distinct;
				std::vector<std::string> samples;
				const uint64_t N = numCases(sub);
				for (uint64_t i = w; i < N; i += W) {
					if (ctl->stop.load(std::memory_order_relaxed)) {
						break;
					}
					if (std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > opt.maxSeconds) {
						truncated += (N - i + W - 1) / W;
						break;
					}
					sh->sub.store(si);
					sh->index.store(i);
					sh->active.store(1);
					SetCaseTimer(opt.caseCpuSeconds);
					Gen g(CaseSeed(opt, sub, i), sh);
					Outcome o = RunInProcess(sub, g);
					SetCaseTimer(0);
					if (o.type == Outcome::FAIL) {
						std::_Exit(77);
					}
					sh->active.store(0);
					++evals;
					checks += g.m_checks;
					if (o.type == Outcome::DISCARD) {
						++discards;
						continue;
					}
					if (o.type == Outcome::EXCLUDE) {
						++excluded;
						continue;
					}
					for (auto& l : g.m_labels) {
						++labels[l];
					}
					if (g.m_nontrivial) {
						uint64_t h = HashStr(sub.name);
						for (const uint64_t c : g.m_rec) {
							h ^= c + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
							h *= 0xff51afd7ed558ccdull;
						}
						distinct.insert(h);
						if (samples.size() < 2 && w < 2 && (samples.empty() || i > N / 2)) {
							samples.push_back(o.note.substr(0, 700));
						}
					}
				}
				res << "S " << si << " " << evals << " " << discards << " " << excluded << " " << checks << " " << truncated << "\n";
				for (auto& [l, n] : labels) {
					res << "L " << si << " " << n << " " << l << "\n";
				}
				for (auto& s : samples) {
					std::string t = s;
					std::replace(t.begin(), t.end(), '\n', ' ');
					res << "X " << si << " " << t << "\n";
				}
				res << "D " << si << " " << distinct.size();
				for (const uint64_t h : distinct) {
					res << " " << h;
				}
				res << "\n";
				res.flush();
			}
			res.close();
			std::_Exit(0);
		}
		pids.push_back(pid);
	}

	int failedWorker = -1;
	int failedStatus = 0;
	for (unsigned left = W; left > 0; --left) {
		int status = 0;
		const pid_t pid = waitpid(-1, &status, 0);
		const auto it = std::find(pids.begin(), pids.end(), pid);
		if (it == pids.end()) {
			++left;
			continue;
		}
		if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
			ctl->stop.store(1);
			if (failedWorker < 0) {
				failedWorker = int(it - pids.begin());
				failedStatus = status;
			}
		}
	}

	int rc = 0;
	std::string failJson;
	uint64_t shrinkTries = 0;
	if (failedWorker >= 0) {
		Shared* fs = shared[(size_t)failedWorker];
		const Sub& sub = subs[fs->sub.load()];
		const uint64_t idx = fs->index.load();
		std::vector<uint64_t> choices(fs->choices, fs->choices + std::min<uint32_t>(fs->n.load(), kMaxChoices));
		bool killedByOs = WIFSIGNALED(failedStatus) && (WTERMSIG(failedStatus) == SIGKILL || WTERMSIG(failedStatus) == SIGTERM);
		Outcome o = RunChoices(opt, sh0, sub, choices);
		std::string mode = "choices";
		uint64_t from = idx;
		if (o.type != Outcome::FAIL) {
			// Perhaps the failure needs the cases that ran before it in the same process.
			for (uint64_t window = 1;; window *= 4) {
				const uint64_t back = window * W;
				from = idx >= back ? idx - back : idx % W;
				o = RunForked(opt, sh0, [&] {
					Outcome last;
					for (uint64_t i = from; i <= idx; i += W) {
						SetCaseTimer(opt.caseCpuSeconds);
						Gen g(CaseSeed(opt, sub, i), sh0);
						last = RunInProcess(sub, g);
						if (last.type == Outcome::FAIL) {
							break;
						}
					}
					return last;
				});
				if (o.type == Outcome::FAIL || idx < back) {
					break;
				}
			}
			mode = "history";
		}
		if (o.type == Outcome::FAIL) {
			if (mode == "choices" && !o.timeout) {
				o = Shrink(opt, sh0, sub, o, shrinkTries);
			}
			WriteReplay(opt.replayOut, sub, mode, opt.seed, from, idx, W, o);
			std::cout << "FAILED " << sub.name << " case " << idx << " [" << o.kind << "] " << o.msg.substr(0, 1500) << "\n";
			std::cout << "shrunk case: " << o.note.substr(0, 1500) << "\n";
			failJson = "{\"sub\":\"" + JsonEsc(sub.name) + "\",\"kind\":\"" + JsonEsc(o.kind) + "\",\"msg\":\"" + JsonEsc(o.msg.substr(0, 2000)) + "\",\"note\":\"" + JsonEsc(o.note.substr(0, 2000)) + "\",\"mode\":\"" + mode + "\"}";
			rc = 1;
		}
		else {
			bool to;
			std::cout << "UNREPRODUCIBLE failure in " << sub.name << " case " << idx << ": " << DescribeStatus(failedStatus, to) << (killedByOs ? " (killed from outside)" : "") << "\n";
			std::cout << ReadFile(opt.logPrefix + ".w" + std::to_string(failedWorker) + ".err", 2000) << "\n";
			rc = 3;
		}
	}

	// Merge statistics.
	struct Stat {
		uint64_t evals = 0, discards = 0, excluded = 0, checks = 0, truncated = 0;
		std::map<std::string, uint64_t> labels;
		std::unordered_set<uint64_t> distinct;
		std::vector<std::string> samples;
	};
	std::vector<Stat> stats(subs.size());
	for (unsigned w = 0; w < W; ++w) {
		std::ifstream f(opt.logPrefix + ".w" + std::to_string(w) + ".res");
		std::string line;
		while (std::getline(f, line)) {
			std::istringstream ls(line);
			char k;
			size_t si;
			ls >> k >> si;
			if (!ls || si >= subs.size()) {
				continue;
			}
			Stat& s = stats[si];
			if (k == 'S') {
				uint64_t a, b, c, d, e;
				ls >> a >> b >> c >> d >> e;
				s.evals += a, s.discards += b, s.excluded += c, s.checks += d, s.truncated += e;
			}
			else if (k == 'L') {
				uint64_t n;
				std::string l;
				ls >> n;
				std::getline(ls, l);
				s.labels[l.substr(1)] += n;
			}
			else if (k == 'X') {
				std::string l;
				std::getline(ls, l);
				s.samples.push_back(l.substr(1));
			}
			else if (k == 'D') {
				size_t n;
				ls >> n;
				uint64_t h;
				while (ls >> h) {
					s.distinct.insert(h);
				}
			}
		}
		f.close();
		unlink((opt.logPrefix + ".w" + std::to_string(w) + ".res").c_str());
		unlink((opt.logPrefix + ".w" + std::to_string(w) + ".err").c_str());
	}
	unlink((opt.logPrefix + ".child.err").c_str());
	const double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
	if (!opt.out.empty()) {
		std::ofstream j(opt.out);
		j << "{\"wall_s\":" << wall << ",\"shrink_tries\":" << shrinkTries << ",\"rc\":" << rc << ",\"failure\":" << (failJson.empty() ? "null" : failJson) << ",\"subs\":[";
		bool first = true;
		for (size_t i = 0; i < subs.size(); ++i) {
			if (!opt.only.empty() && subs[i].name.find(opt.only) == std::string::npos) {
				continue;
			}
			const Stat& s = stats[i];
			j << (first ? "" : ",") << "\n{\"name\":\"" << JsonEsc(subs[i].name) << "\",\"rule\":\"" << JsonEsc(subs[i].rule) << "\",\"evaluations\":" << s.evals << ",\"discarded\":" << s.discards << ",\"excluded_known\":" << s.excluded << ",\"oracle_checks\":" << s.checks << ",\"truncated\":" << s.truncated << ",\"distinct_nontrivial\":" << s.distinct.size() << ",\"labels\":{";
			bool fl = true;
			for (auto& [l, n] : s.labels) {
				j << (fl ? "" : ",") << "\"" << JsonEsc(l) << "\":" << n;
				fl = false;
			}
			j << "},\"samples\":[";
			for (size_t k = 0; k < s.samples.size(); ++k) {
				j << (k ? "," : "") << "\"" << JsonEsc(s.samples[k]) << "\"";
			}
			j << "]}";
			first = false;
		}
		j << "]}\n";
	}
	for (size_t i = 0; i < subs.size(); ++i) {
		const Stat& s = stats[i];
		if (s.evals) {
			std::cout << subs[i].name << ": " << s.evals << " cases, " << s.distinct.size() << " distinct nontrivial, " << s.discards << " discarded, " << s.checks << " checks" << (s.truncated ? " TRUNCATED" : "") << "\n";
		}
	}
	return rc;
}

} // namespace pbt

// A harness may be compiled as several translation units: PBT_IN_PART(k) selects one of PBT_PARTS round-robin.
#ifndef PBT_PART
#define PBT_PART 0
#define PBT_PARTS 1
#endif
#define PBT_IN_PART(k) ((k) % PBT_PARTS == PBT_PART)

#ifdef PBT_LIBFUZZER
#if PBT_PART == 0
// Coverage-guided driver: the bytes are decoded into the choice sequence of one sub-check (PBT_FUZZ_SUB).
// The choices are kept in a file, so that a failure of any kind can be adopted, shrunk and replayed by the normal driver.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	static pbt::Shared* const sh = [] {
		const char* path = std::getenv("PBT_FUZZ_SHARED");
		const int fd = path ? open(path, O_RDWR | O_CREAT, 0644) : -1;
		if (fd < 0 || ftruncate(fd, sizeof(pbt::Shared)) != 0) {
			std::_Exit(2);
		}
		void* p = mmap(nullptr, sizeof(pbt::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (p == MAP_FAILED) {
			std::_Exit(2);
		}
		return static_cast<pbt::Shared*>(p);
	}();
	static const uint32_t index = uint32_t(std::atoi(std::getenv("PBT_FUZZ_SUB")));
	const pbt::Sub& sub = pbt::Registry().at(index);
	sh->sub.store(index);
	pbt::Gen g(data, size, sh);
	const pbt::Outcome o = pbt::RunInProcess(sub, g);
	sh->index.fetch_add(1);
	if (g.m_nontrivial) {
		sh->active.fetch_add(1);
	}
	if (o.type == pbt::Outcome::FAIL) {
		std::fprintf(stderr, "PBTFAIL sub %s kind %s\n", sub.name.c_str(), o.kind.c_str());
		std::_Exit(77);
	}
	return 0;
}
#endif
#elif PBT_PART == 0
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
