// Driver: seeded search over simulated runs, minimisation, replay, evidence.
#include "common.h"
#include <atomic>
#include <functional>
#include <set>
#include <fstream>
#include <sstream>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>

typedef std::vector<std::string> Kinds;

struct Mix { int sc; u32 quick; };
static const double THOROUGH = 40;	// times the quick number of runs
struct Prop { const char *id; std::vector<Mix> mix; Kinds kinds; bool san; };

// Which scenarios decide a property, and which violation kinds break it.
static const std::vector<Prop> &props()
{
	static const Kinds DATA = {"data-wrong", "find-wrong", "retire-lost", "op-error", "err-unset", "hang", "dead", "restart-lost", "spurious-full"};
	static const Kinds POST = {"post-data-wrong", "post-op-error", "post-size-wrong", "crash2-lost-sync", "data-wrong", "op-error", "hang", "dead"};
	static const Kinds CRASH = {"crash-lost-sync", "crash-garbage", "crash2-lost-sync", "restart-lost", "data-wrong", "post-data-wrong", "retire-lost", "dead", "hang"};
	static const Kinds ATOM = {"crash-mixed", "crash-garbage", "crash-size", "crash-lost-sync", "dead", "hang"};
	static const Kinds PROTO = {"proto-range", "proto-bad-use", "proto-failed-reuse", "proto-reprogram", "proto-order"};
	static const std::vector<Prop> P = {
		{"C01", {{SC_PLAIN, 45000}, {SC_FULL, 8000}}, DATA, false},
		{"C02", {{SC_FAIL, 80000}}, DATA, false},
		{"C03", {{SC_CRASH, 90000}}, CRASH, false},
		{"C04", {{SC_CRASH, 90000}}, ATOM, false},
		{"C05", {{SC_CRASHFAIL, 70000}}, {"crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "restart-lost", "data-wrong", "post-data-wrong", "retire-lost", "dead", "hang"}, false},
		{"C06", {{SC_CRASH, 45000}, {SC_CRASHFAIL, 35000}}, POST, false},
		{"C07", {{SC_PLAIN, 8000}, {SC_FAIL, 16000}, {SC_CRASH, 10000}, {SC_CRASHFAIL, 12000}, {SC_JFAIL, 20000}, {SC_JCRASH, 10000}, {SC_JCRASHFAIL, 12000}, {SC_RDERR, 8000}, {SC_BIG, 300}, {SC_FULL, 1500}, {SC_CHAOS, 6000}, {SC_EOL, 1500}, {SC_SCARRED, 2000}, {SC_HUGE, 2000}}, PROTO, false},
		{"C08", {{SC_FAIL, 50000}, {SC_CRASHFAIL, 20000}, {SC_RDERR, 20000}, {SC_JFAIL, 20000}, {SC_CHAOS, 8000}, {SC_EOL, 2000}, {SC_SCARRED, 2000}}, {"retire-good", "retire-missed", "retire-live", "retire-lost", "proto-bad-use", "proto-failed-reuse"}, false},
		{"C09", {{SC_WEAR, 40000}, {SC_SCARRED, 4000}}, {"wear"}, false},
		{"C10", {{SC_FULL, 10000}, {SC_PLAIN, 15000}, {SC_FAIL, 20000}, {SC_CRASH, 12000}, {SC_SCARRED, 3000}, {SC_CRASHFAIL, 5000}, {SC_EOL, 1500}}, {"size-wrong", "post-size-wrong", "restart-size", "crash-size", "over-capacity", "spurious-full", "capacity-drift", "restart-capacity", "resume-empty"}, false},
		{"C11", {{SC_FULL, 15000}, {SC_EPOCH, 1000}, {SC_FAIL, 20000}, {SC_SCARRED, 3000}}, {"op-error", "post-op-error", "spurious-full", "capacity-drift", "data-wrong", "post-data-wrong", "hang", "dead"}, false},
		{"C12", {{SC_RDERR, 90000}, {SC_CHAOS, 8000}}, DATA, false},
		{"C13", {{SC_ROT, 90000}}, {"rot-wrong", "crash-lost-sync", "crash-garbage", "crash-mixed", "post-data-wrong", "data-wrong", "hang", "dead"}, false},
		{"C14", {{SC_BIG, 5000}, {SC_PLAIN, 15000}, {SC_FULL, 6000}, {SC_FAIL, 20000}, {SC_CRASHFAIL, 6000}, {SC_HUGE, 2500}, {SC_SCARRED, 1500}}, {"cost-op", "cost-resume", "hang"}, false},
		{"C15", {{SC_CRASH, 35000}, {SC_PLAIN, 12000}, {SC_FAIL, 15000}, {SC_CRASHFAIL, 10000}, {SC_HUGE, 1500}, {SC_JCRASHFAIL, 6000}}, {"resume-mutates", "j-resume", "ro-mutates", "resume-differs", "resume-empty"}, false},
		{"C16", {{SC_JPLAIN, 60000}, {SC_JFAIL, 80000}}, {"j-fifo", "j-data", "j-meta", "j-error", "j-recover", "j-full", "j-size", "j-root", "j-restart", "hang", "dead"}, false},
		{"C17", {{SC_JCRASH, 40000}, {SC_JCRASHFAIL, 50000}, {SC_JPLAIN, 15000}}, {"j-lost", "j-cookie", "j-restart", "j-root", "j-resume", "hang", "dead"}, false},
		{"C18", {{SC_PLAIN, 2500}, {SC_FAIL, 4000}, {SC_CRASH, 1500}, {SC_CRASHFAIL, 2000}, {SC_RDERR, 2000}, {SC_JFAIL, 4000}, {SC_JCRASH, 2000}, {SC_FULL, 400}, {SC_CHAOS, 800}, {SC_EOL, 200}, {SC_HUGE, 500}, {SC_SCARRED, 300}, {SC_JPLAIN, 1000}, {SC_JCRASHFAIL, 1000}, {SC_ROT, 500}, {SC_BIG, 40}, {SC_BCH, 1500}, {SC_HAM, 3000}, {SC_CRC, 3000}, {SC_BCHV, 300}, {SC_STACK, 40}}, {"dead", "hang", "proto-range"}, true},
		{"C19", {{SC_BCH, 12000}}, {"ecc-miscorrect", "ecc-undetected", "ecc-false-alarm", "ecc-touch", "ecc-erased", "dead"}, false},
		{"C20", {{SC_HAM, 600000}}, {"ecc-miscorrect", "ecc-undetected", "ecc-false-alarm", "ecc-touch", "ecc-erased", "dead"}, false},
		{"C21", {{SC_CRC, 500000}}, {"ecc-undetected", "ecc-false-alarm", "ecc-stream", "ecc-erased", "ecc-touch", "dead"}, false},
		{"C22", {{SC_BCHV, 8000}}, {"ecc-variant", "dead"}, false},
		{"C23", {{SC_STACK, 1500}}, {"rot-wrong", "crash-lost-sync", "crash-garbage", "crash-mixed", "post-data-wrong", "data-wrong", "op-error", "restart-lost", "find-wrong", "ecc-undetected", "hang", "dead"}, false},
		{"C24", {{SC_GC, 60000}}, {"gc-no-progress"}, false},
		{"C25", {{SC_CRASH, 45000}, {SC_CRASHFAIL, 35000}, {SC_CHAOS, 6000}, {SC_HUGE, 2500}}, {"crash-rollback-far"}, false},
		{"C26", {{SC_TWIN, 35000}}, {"twin-differs", "dead", "hang"}, false},
		{"C27", {{SC_PAIR, 9000}}, {"pair-differs", "dead", "hang"}, false},
		{"C28", {{SC_UPGRADE, 60000}}, {"data-wrong", "find-wrong", "op-error", "restart-lost", "restart-size", "restart-capacity", "spurious-full", "size-wrong", "crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "post-data-wrong", "post-op-error", "post-size-wrong", "proto-reprogram", "proto-order", "proto-range", "proto-bad-use",
			"j-fifo", "j-data", "j-meta", "j-error", "j-recover", "j-full", "j-size", "j-lost", "j-cookie", "j-restart", "j-root", "j-resume", "resume-empty", "hang", "dead"}, false},
		{"C29", {{SC_EOL, 30000}}, {"data-wrong", "find-wrong", "op-error", "err-unset", "post-data-wrong", "post-op-error", "post-size-wrong", "size-wrong", "capacity-drift", "over-capacity", "spurious-full", "crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "restart-lost", "restart-capacity", "retire-good", "retire-missed", "proto-range", "proto-bad-use", "proto-failed-reuse", "proto-reprogram", "proto-order", "hang", "dead"}, false},
		{"C30", {{SC_CHAOS, 70000}}, {"data-wrong", "find-wrong", "op-error", "err-unset", "post-data-wrong", "post-op-error", "post-size-wrong", "size-wrong", "crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "restart-lost", "retire-missed", "retire-good", "retire-live", "retire-lost", "proto-range", "proto-bad-use", "proto-failed-reuse", "proto-reprogram", "proto-order", "hang", "dead"}, false},
		{"C31", {{SC_HUGE, 25000}}, {"data-wrong", "find-wrong", "op-error", "err-unset", "post-data-wrong", "post-op-error", "post-size-wrong", "size-wrong", "restart-size", "capacity-drift", "restart-capacity", "spurious-full", "over-capacity", "crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "restart-lost", "cost-resume", "cost-op", "retire-missed", "retire-good", "proto-range", "proto-bad-use", "proto-failed-reuse", "proto-reprogram", "proto-order", "hang", "dead"}, false},
		{"C32", {{SC_SCARRED, 30000}}, {"data-wrong", "find-wrong", "op-error", "err-unset", "post-data-wrong", "post-op-error", "post-size-wrong", "size-wrong", "restart-size", "capacity-drift", "restart-capacity", "spurious-full", "over-capacity", "crash-lost-sync", "crash-garbage", "crash-mixed", "crash-size", "crash2-lost-sync", "restart-lost", "wear", "cost-resume", "cost-op", "retire-missed", "retire-good", "proto-range", "proto-bad-use", "proto-failed-reuse", "proto-reprogram", "proto-order", "hang", "dead"}, false},
	};
	return P;
}
static const Prop *find_prop(const std::string &id) { for (auto &p : props()) if (id == p.id) return &p; return nullptr; }

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// Did the run reach what its scenario is for?
static bool nontrivial(int sc, const Stats &s)
{
	u64 fails = s.v[ST_FAIL_PROG] + s.v[ST_FAIL_CP] + s.v[ST_FAIL_ERASE] + s.v[ST_FAIL_COPY];
	u64 cuts = s.v[ST_CUT_NONE] + s.v[ST_CUT_FULL] + s.v[ST_CUT_TORN] + s.v[ST_CUT_MIX];
	switch (sc) {
	case SC_PLAIN: case SC_GC: case SC_WEAR: case SC_BIG: case SC_HUGE: case SC_SCARRED: return s.v[ST_WRITES] > 3 && s.v[ST_ERASES] > 2;
	case SC_FULL: return s.v[ST_MAPFULL] || s.v[ST_EPOCH_WRAPS] > 1;
	case SC_FAIL: case SC_JFAIL: return fails > 0;
	case SC_CRASH: case SC_JCRASH: return cuts + s.v[ST_CUT_IDLE] > 0;
	case SC_CRASHFAIL: case SC_JCRASHFAIL: return cuts + s.v[ST_CUT_IDLE] > 0 && fails > 0;
	case SC_CHAOS: return cuts > 0 && s.v[ST_RDERR] > 0;
	case SC_EOL: return fails > 4;
	case SC_RDERR: return s.v[ST_RDERR] > 0;
	case SC_ROT: return s.v[ST_ROT] > 0;
	case SC_EPOCH: return s.v[ST_MAX_EPOCHS] > 256;
	case SC_STACK: return s.v[ST_FLIPPED_READS] > 0;
	case SC_JPLAIN: return s.v[ST_JDEQ] > 3;
	case SC_TWIN: case SC_UPGRADE: return s.v[ST_RESUMES] > 1;
	case SC_PAIR: return s.v[ST_SWITCHES] > 10;
	default: return s.v[ST_ECC_CASES] > 3;
	}
}

static const int CPU_LIMIT_S = 20;
static void arm_cpu_limit(int s)
{
	struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
	setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ---------------------------------------------------------------- isolated run
struct Iso { bool ok = false; int sig = 0; u64 hash = 0; Kinds kinds, known; std::string msgs; Stats st; };

static Iso run_isolated(const Plan &p, const Kinds *stop)
{
	Iso r; int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(2); }
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		if (!g_trace) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); }
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		arm_cpu_limit(CPU_LIMIT_S);
		Result res; res.stop_kinds = stop;
		exec_plan(p, res);
		std::ostringstream o; o << res.hash << "\n";
		for (auto &v : res.viol) o << "V " << v.kind << " " << v.op << " " << v.msg << "\n";
		for (auto &v : res.known) o << "K " << v.kind << " " << v.op << " " << v.msg << "\n";
		o << "END\n";
		std::string s = o.str(); size_t off = 0;
		while (off < s.size()) { ssize_t w = write(fd[1], s.data() + off, s.size() - off); if (w <= 0) break; off += (size_t)w; }
		_exit(0);
	}
	close(fd[1]);
	std::string s; char b[4096]; ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t)n);
	close(fd[0]);
	int stt; waitpid(pid, &stt, 0);
	std::istringstream in(s); std::string line; bool end = false;
	std::getline(in, line); r.hash = strtoull(line.c_str(), nullptr, 10);
	while (std::getline(in, line)) {
		if (line == "END") { end = true; break; }
		std::istringstream l(line); std::string t, k; l >> t >> k;
		if (t == "V") { r.kinds.push_back(k); r.msgs += "  " + line.substr(2) + "\n"; } else if (t == "K") { r.known.push_back(k); r.msgs += "  known " + line.substr(2) + "\n"; }
	}
	r.ok = end && WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
	if (!r.ok) {
		r.sig = WIFSIGNALED(stt) ? WTERMSIG(stt) : 1000 + WEXITSTATUS(stt);
		r.kinds.push_back("dead"); r.hash = 0xdead;
		r.msgs += "  dead: the process running the real code " + (WIFSIGNALED(stt) ? "was ended by signal " + std::to_string(WTERMSIG(stt)) + (WTERMSIG(stt) == SIGVTALRM ? " (no end within the CPU limit)" : "") : "exited with status " + std::to_string(WEXITSTATUS(stt)) + " (sanitizer report)") + "\n";
	}
	return r;
}
static bool has(const Kinds &a, const std::string &k) { return std::find(a.begin(), a.end(), k) != a.end(); }
static std::string first_of(const Kinds &got, const Kinds &want) { for (auto &k : got) if (has(want, k)) return k; return ""; }

// ---------------------------------------------------------------- minimisation
static Plan shrink(Plan p, const std::string &kind, double budget_s, u32 &tried)
{
	double t0 = now_s(); Kinds stop = {kind};
	auto fails = [&](const Plan &q) { tried++; Iso r = run_isolated(q, &stop); return has(r.kinds, kind); };
	auto left = [&] { return now_s() - t0 < budget_s && tried < 6000; };
	// cut everything after the violation
	{
		Iso r = run_isolated(p, &stop); std::istringstream in(r.msgs); std::string l;
		while (std::getline(in, l)) { std::istringstream x(l); std::string k; int op; x >> k; if (k == kind && (x >> op) && op >= 0 && (size_t)op + 1 < p.ops.size()) { Plan q = p; q.ops.resize(op + 1); if (fails(q)) p = q; break; } }
	}
	bool again = true;
	while (again && left()) {
		again = false;
		for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); left(); chunk /= 2) {
			for (size_t i = 0; i < p.ops.size() && left();) {
				Plan q = p; size_t n = std::min(chunk, p.ops.size() - i);
				q.ops.erase(q.ops.begin() + i, q.ops.begin() + i + n);
				if (!q.ops.empty() && fails(q)) { p = q; again = true; } else i += n;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < p.bombs.size() && left();) { Plan q = p; q.bombs.erase(q.bombs.begin() + i); if (fails(q)) { p = q; again = true; } else i++; }
		for (size_t i = 0; i < p.bad.size() && left();) { Plan q = p; q.bad.erase(q.bad.begin() + i); if (fails(q)) { p = q; again = true; } else i++; }
		for (size_t i = 0; i < p.ops.size() && left(); i++) {
			for (size_t k = 0; k < p.ops[i].faults.size() && left();) { Plan q = p; q.ops[i].faults.erase(q.ops[i].faults.begin() + k); if (fails(q)) { p = q; again = true; } else k++; }
			Op &o = p.ops[i];
			if (o.flags && left()) { Plan q = p; q.ops[i].flags = 0; if (fails(q)) { p = q; again = true; } }
			if (o.kind == OP_FILL) { for (u32 a = o.a / 2; a >= 1 && left(); a /= 2) { Plan q = p; q.ops[i].a = o.a - a; if (fails(q)) { p = q; again = true; } } }
			if ((o.kind == OP_COPY || o.kind == OP_COPYPAGE) && left()) { Plan q = p; q.ops[i].kind = OP_WRITE; if (fails(q)) { p = q; again = true; } }
		}
		// simpler chip
		auto tryset = [&](u32 Plan::*f, u32 v) { if (p.*f != v && left()) { Plan q = p; q.*f = v; if (fails(q)) { p = q; again = true; } } };
		if (p.pairlen) for (u32 a = p.pairlen / 2; a >= 1 && left(); a /= 2) while (p.pairlen > a && left()) { Plan q = p; q.pairlen -= a; if (fails(q)) { p = q; again = true; } else break; }
		tryset(&Plan::init, 0); tryset(&Plan::badread, 0); tryset(&Plan::imprecise, 0);
		if (p.scenario < SC_BCH) tryset(&Plan::secmode, 0);
	}
	return p;
}

// ---------------------------------------------------------------- search
static std::string jstr(const std::string &s)
{
	std::string o = "\"";
	for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32) o += ' '; else o += c; }
	return o + "\"";
}
static u64 prop_salt(const std::string &id) { return hash_bytes((const u8 *)id.data(), id.size(), 99); }

struct RunRef { int sc; u64 seed; };
static RunRef ref_of(const Prop &pr, u64 seed, const std::vector<int> &sched, u64 i)
{
	int sc = sched[i];
	return {sc, mix2(mix2(seed, prop_salt(pr.id)), mix2((u64)sc, i)) & 0xffffffffffffull};
}

static std::string one_line(const Plan &p, size_t maxops)
{
	std::ostringstream o;
	o << sc_names[p.scenario] << " page=" << (1u << p.lp) << " pages/block=" << (1u << p.lb) << " blocks=" << p.nb << " gc=" << p.gc << " slots=" << p.ns << " bad=" << p.bad.size() << " ops=" << p.ops.size() << ":";
	for (size_t i = 0; i < p.ops.size() && i < maxops; i++) {
		o << " " << op_names[p.ops[i].kind] << "(" << p.ops[i].a % std::max(1u, p.ns) << ")";
		for (auto &f : p.ops[i].faults) { o << "+" << fault_names[f.kind] << "@"; if (f.nth == NTH_ALL) o << "all"; else o << f.nth; }
	}
	if (p.ops.size() > maxops) o << " ...";
	return o.str();
}

static void write_replay(const std::string &path, const Prop &pr, const Plan &p, const std::string &kind, const Iso &r)
{
	std::ofstream f(path);
	f << "# dhara deterministic simulation replay\n# property " << pr.id << "\n# run: /verif/check --replay " << path << "\n";
	std::istringstream in(r.msgs); std::string l; while (std::getline(in, l)) f << "# " << l << "\n";
	f << "expect kind=" << kind << " hash=" << r.hash << "\n" << p.text();
}
static bool read_replay(const std::string &path, Plan &p, std::string &kind, u64 &hash)
{
	std::ifstream f(path); if (!f) return false;
	std::stringstream ss; ss << f.rdbuf(); std::string err, line, s = ss.str();
	std::istringstream in(s); kind = ""; hash = 0;
	std::string rest;
	while (std::getline(in, line)) {
		if (line.compare(0, 7, "expect ") == 0) { size_t a = line.find("kind="), b = line.find(" hash="); kind = line.substr(a + 5, b - a - 5); hash = strtoull(line.c_str() + b + 6, nullptr, 10); }
		else rest += line + "\n";
	}
	if (!p.parse(rest, err)) { fprintf(stderr, "%s: %s\n", path.c_str(), err.c_str()); return false; }
	return true;
}

struct Args { std::string prop, tier = "quick", evidence, replaydir = ".", knownfile, knowndir, self; u64 seed = 1; int jobs = 8; double scale = 1, wall = 420; bool keepgoing = false; };

struct Known { std::string prop, id, text; };
static std::vector<Known> load_known(const std::string &path)
{
	std::vector<Known> k; std::ifstream f(path); std::string l;
	while (std::getline(f, l)) {
		if (l.compare(0, 6, "known:") != 0) continue;
		std::istringstream in(l.substr(6)); std::string a, b; in >> a >> b;
		if (a.compare(0, 9, "property=") || b.compare(0, 3, "id=")) continue;
		std::string t; std::getline(in, t); while (!t.empty() && t[0] == ' ') t.erase(0, 1);
		k.push_back({a.substr(9), b.substr(3), t});
	}
	return k;
}

static int do_check(const Args &a)
{
	const Prop *pp = find_prop(a.prop);
	if (!pp) { fprintf(stderr, "unknown property %s\n", a.prop.c_str()); return 2; }
	const Prop &pr = *pp;
	double t0 = now_s();
	bool deep = a.tier == "thorough";
	std::vector<Known> known = load_known(a.knownfile);
	for (auto &k : known) g_known.push_back(k.id);

	// schedule: scenarios interleaved in proportion
	std::vector<int> sched;
	{
		std::vector<double> want, acc; u64 total = 0;
		for (auto &m : pr.mix) { double n = m.quick * (deep ? THOROUGH : 1.0) * a.scale; if (n < 1) n = 1; want.push_back((double)(u64)n); total += (u64)n; acc.push_back(0); }
		std::vector<u64> done(want.size(), 0);
		for (u64 i = 0; i < total; i++) {
			size_t best = 0; double bd = -1e300;
			for (size_t k = 0; k < want.size(); k++) { double d = want[k] * (double)(i + 1) / (double)total - (double)done[k]; if (d > bd) { bd = d; best = k; } }
			done[best]++; sched.push_back(pr.mix[best].sc);
		}
	}
	u64 N = sched.size();
	const int W = a.jobs;
	struct Shared { std::atomic<u64> found; std::atomic<u32> stop; };
	auto shm = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
	Shared *sh = (Shared *)shm(4096); sh->found = ~0ull; sh->stop = 0;
	u64 *hashes = (u64 *)shm((N + 1) * 8); u8 *nt = (u8 *)shm(N + 1);
	std::atomic<u64> *progress = (std::atomic<u64> *)shm(4096 * 2);
	Stats *wst = (Stats *)shm(sizeof(Stats) * (size_t)(W + 1));
	g_covbits = 1u << 20;
	u8 *cov = (u8 *)shm((size_t)W * (g_covbits / 8));
	u8 *flagged = (u8 *)shm(N + 1);	// runs that reported a violation or died
	bool dead_matters = has(pr.kinds, "dead");

	std::vector<pid_t> pids(W, 0);
	auto spawn = [&](int w, u64 from) {
		fflush(stdout); fflush(stderr);
		pid_t pid = fork();
		if (pid) { pids[w] = pid; return; }
		if (!g_trace) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); }
		struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
		g_cov = cov + (size_t)w * (g_covbits / 8);
		for (u64 i = from; i < N; i += (u64)W) {
			if (sh->found.load() < i || sh->stop.load()) break;
			progress[w] = i;
			RunRef rr = ref_of(pr, a.seed, sched, i);
			Plan p; gen_plan(rr.sc, rr.seed, p, deep);
			arm_cpu_limit(CPU_LIMIT_S);
			Result r; r.stop_kinds = &pr.kinds;
			exec_plan(p, r);
			hashes[i] = r.hash | 1; nt[i] = nontrivial(rr.sc, r.st) ? 2 : 1;
			wst[w].add(r.st);
			for (auto &v : r.viol) if (has(pr.kinds, v.kind)) { flagged[i] = 1; u64 cur = sh->found.load(); while (i < cur && !sh->found.compare_exchange_weak(cur, i)) {} break; }
		}
		_exit(0);
	};
	for (int w = 0; w < W; w++) { progress[w] = ~0ull; spawn(w, (u64)w); }
	int alive = W; u32 deaths = 0; bool timed_out = false;
	while (alive) {
		int st; pid_t pid = waitpid(-1, &st, WNOHANG);
		if (pid == 0) {
			if (!timed_out && now_s() - t0 > a.wall) { sh->stop = 1; timed_out = true; }
			if (timed_out && now_s() - t0 > a.wall + 60) for (auto q : pids) if (q) kill(q, SIGKILL);
			usleep(2000); continue;
		}
		if (pid < 0) break;
		for (int w = 0; w < W; w++) if (pids[w] == pid) {
			pids[w] = 0; alive--;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
			u64 i = progress[w];
			if (timed_out || i == ~0ull) break;
			deaths++;
			if (dead_matters) { flagged[i] = 1; u64 cur = sh->found.load(); while (i < cur && !sh->found.compare_exchange_weak(cur, i)) {} }
			else if (i + (u64)W < N && deaths < 200) { spawn(w, i + (u64)W); alive++; }
			break;
		}
	}
	double search_s = now_s() - t0;

	Stats tot; for (int w = 0; w < W; w++) tot.add(wst[w]);
	u64 evals = 0; std::set<u64> distinct; for (u64 i = 0; i < N; i++) { if (nt[i]) evals++; if (nt[i] == 2) distinct.insert(hashes[i]); }
	u64 states = 0; for (u32 i = 0; i < g_covbits / 8; i++) { u8 x = 0; for (int w = 0; w < W; w++) x |= cov[(size_t)w * (g_covbits / 8) + i]; states += (u64)__builtin_popcount(x); }

	int rc = 0; std::string vline, vkind; u64 det = 0, detbad = 0;
	// determinism: re-run a sample in fresh processes and compare the hash of
	// the whole execution
	{
		Rng g(mix2(a.seed, 31337));
		for (int k = 0; k < (deep ? 200 : 24) && evals; k++) {
			u64 i = g.next() % N; if (!nt[i]) continue;
			RunRef rr = ref_of(pr, a.seed, sched, i); Plan p; gen_plan(rr.sc, rr.seed, p, deep);
			Plan q; std::string err; if (!q.parse(p.text(), err)) { fprintf(stderr, "plan does not round-trip: %s\n", err.c_str()); return 2; }
			Iso r = run_isolated(q, &pr.kinds); det++;
			if ((r.hash | 1) != hashes[i]) { detbad++; fprintf(stderr, "run %llu (%s seed %llu) is not reproducible\n", (unsigned long long)i, sc_names[rr.sc], (unsigned long long)rr.seed); }
		}
	}
	u64 fi = sh->found.load();
	u32 shrink_tried = 0;
	if (fi != ~0ull) {
		// Believe only a violation that comes back, twice, in fresh processes.
		RunRef rr; Plan p; Iso r0; u32 tries = 0;
		for (; fi < N && tries < 16; fi++) {
			if (!flagged[fi]) continue;
			tries++;
			rr = ref_of(pr, a.seed, sched, fi); gen_plan(rr.sc, rr.seed, p, deep);
			r0 = run_isolated(p, &pr.kinds); Iso r1 = run_isolated(p, &pr.kinds);
			vkind = first_of(r0.kinds, pr.kinds);
			if (!vkind.empty() && r1.hash == r0.hash && r1.kinds == r0.kinds) break;
			fprintf(stderr, "run %llu reported a violation that does not reproduce\n", (unsigned long long)fi);
			vkind = "";
		}
		if (vkind.empty()) return 2;
		fprintf(stdout, "violation in run %llu: scenario %s seed %llu (VERIF_SEED=%llu)\n%s", (unsigned long long)fi, sc_names[rr.sc], (unsigned long long)rr.seed, (unsigned long long)a.seed, r0.msgs.c_str());
		Plan m = shrink(p, vkind, pr.san ? 60 : 40, shrink_tried);
		Kinds stop = {vkind};
		mkdir(a.replaydir.c_str(), 0777);
		std::string path = a.replaydir + "/" + pr.id + ".replay";
		bool good = false;
		for (int attempt = 0; attempt < 2 && !good; attempt++) {
			if (attempt) { fprintf(stderr, "the minimised run does not replay; keeping the original\n"); m = p; }
			Iso r = run_isolated(m, &stop);
			write_replay(path, pr, m, vkind, r);
			// replay in fresh processes: same violation, same execution
			good = true;
			for (int k = 0; k < 2 && good; k++) {
				fflush(stdout); pid_t pid = fork();
				if (!pid) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); execl(a.self.c_str(), a.self.c_str(), "replay", path.c_str(), "--known", a.knownfile.c_str(), (char *)nullptr); _exit(9); }
				int st; waitpid(pid, &st, 0);
				good = WIFEXITED(st) && WEXITSTATUS(st) == 1;
			}
			if (good) fprintf(stdout, "minimised from %zu to %zu operations (%u candidate runs):\n%s  %s\nreplayed twice in fresh processes: same violation, same execution hash\n", p.ops.size(), m.ops.size(), shrink_tried, r.msgs.c_str(), one_line(m, 30).c_str());
		}
		if (!good) { fprintf(stderr, "replay of %s did not reproduce\n", path.c_str()); return 2; }
		vline = "VIOLATION property=" + std::string(pr.id) + " replay=" + path;
		rc = 1;
	}
	if (detbad && rc == 0) { fprintf(stderr, "simulator is not deterministic\n"); return 2; }

	// known findings of this property: replay the committed reproduction
	std::vector<std::string> kf_lines;
	for (auto &k : known) if (k.prop == pr.id) {
		Plan p; std::string kind; u64 h; std::string path = a.knowndir + "/" + k.prop + "-" + k.id + ".replay";
		if (!read_replay(path, p, kind, h)) { fprintf(stderr, "missing reproduction %s\n", path.c_str()); return 2; }
		Iso r = run_isolated(p, nullptr);
		if (has(r.known, k.id)) kf_lines.push_back("KNOWN-FINDING: property=" + k.prop + " " + k.id + ": " + k.text);
		else fprintf(stdout, "note: known finding %s no longer reproduces\n", k.id.c_str());
	}
	for (auto &l : kf_lines) fprintf(stdout, "%s\n", l.c_str());

	// evidence
	double wall = now_s() - t0;
	if (!a.evidence.empty()) {
		std::ofstream f(a.evidence);
		double devs = tot.v[ST_READS] * 25e-6 + tot.v[ST_PROGS] * 200e-6 + tot.v[ST_ERASES] * 1.5e-3;
		f << "{\n \"property\": " << jstr(pr.id) << ",\n \"tier\": " << jstr(a.tier) << ",\n \"seed\": " << a.seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
		f << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n";
		f << "  \"rule\": \"one evaluation is one simulated run: a chip geometry, workload and fault schedule drawn from one seed, executed against the real code and judged by the reference model; a run counts as distinct and non-trivial when the fault or condition its scenario is for really fired (scenario fail: at least one block failure; crash: at least one power cut judged; rderr: a transient read error; rot: a rotted page; epoch: more than 256 chip wraps; stack: an ECC-corrected read; plain/gc/wear/big: blocks erased and written; full: MAP_FULL seen or two wraps; journal and ECC: several elements dequeued or code words judged) and the hash of its complete NAND command stream and results is unlike any other run's\",\n";
		f << "  \"samples\": [";
		bool first = true;
		for (u64 i = 0, c = 0; i < N && c < 4; i += std::max<u64>(1, N / 4)) { if (!nt[i]) continue; c++; RunRef rr = ref_of(pr, a.seed, sched, i); Plan p; gen_plan(rr.sc, rr.seed, p, deep); char hb[64]; sprintf(hb, "%llu hash %016llx: ", (unsigned long long)rr.seed, (unsigned long long)hashes[i]); f << (first ? "" : ", ") << jstr(std::string("seed ") + hb + one_line(p, 24)); first = false; }
		f << "],\n";
		f << "  \"runs_planned\": " << N << ",\n  \"stopped_by_wall_limit\": " << (timed_out ? "true" : "false") << ",\n";
		f << "  \"runs_per_hour\": " << (u64)(evals / std::max(search_s, 1e-3) * 3600) << ",\n";
		f << "  \"scenarios\": {"; { std::map<int, u64> c; for (u64 i = 0; i < N; i++) if (nt[i]) c[sched[i]]++; bool fst = true; for (auto &x : c) { f << (fst ? "" : ", ") << jstr(sc_names[x.first]) << ": " << x.second; fst = false; } } f << "},\n";
		f << "  \"simulated_device_seconds\": " << devs << ",\n  \"simulated_device_time_model\": \"25us per read, 200us per program, 1.5ms per erase; dhara itself reads no clock\",\n";
		f << "  \"distinct_abstract_states\": " << states << ",\n  \"abstract_state_measure\": \"operation, result, head position in block, empty/recovering/clean flags, programs/erases/failures in the call, geometry class\",\n";
		f << "  \"counts\": {"; { bool fst = true; for (int i = 0; i < ST_N; i++) { if (!tot.v[i]) continue; f << (fst ? "" : ", ") << jstr(stat_names[i]) << ": " << tot.v[i]; fst = false; } } f << "},\n";
		f << "  \"determinism_reruns\": " << det << ",\n  \"determinism_mismatches\": " << detbad << ",\n";
		f << "  \"real_code\": [\"dhara/*.c\", \"ecc/*.c\"],\n  \"stubs\": [\"the NAND driver (dhara_nand_*) and chip are simulated\", \"power supply: power cuts discard RAM and leave the chip\"],\n";
		f << "  \"known_findings\": [";
		for (size_t i = 0; i < kf_lines.size(); i++) f << (i ? ", " : "") << jstr(kf_lines[i]);
		f << "]\n },\n";
		f << " \"assumptions\": [\"the simulated chip stands for real NAND: programs in order, all-or-torn pages, torn pages read as uncorrectable or as erased, bad-block marks are atomic\", \"no more than 4 bad blocks in a row and at most 4 failures per chip and run (6 in a row in bursts on a device at most half full; more in the end-of-life runs)\", \"a clean batch of runs is evidence, not proof\"],\n";
		f << " \"wall_s\": " << wall << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
	}
	printf("%s %s: %llu runs (%llu distinct non-trivial), %llu abstract states, %.1f s%s\n", pr.id, a.tier.c_str(), (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)states, wall, timed_out ? " [wall limit]" : "");
	if (rc == 0 && !evals) { fprintf(stderr, "no run completed\n"); return 2; }
	if (rc) printf("%s\n", vline.c_str());
	return rc;
}

static int do_replay(const std::string &path)
{
	Plan p; std::string kind; u64 h;
	if (!read_replay(path, p, kind, h)) return 2;
	Kinds stop = {kind};
	Iso r = run_isolated(p, kind.empty() ? nullptr : &stop);
	printf("%s%s\nhash %llu (recorded %llu)\n", r.msgs.c_str(), one_line(p, 40).c_str(), (unsigned long long)r.hash, (unsigned long long)h);
	bool same = (has(r.kinds, kind) || has(r.known, kind)) && r.hash == h;
	printf(same ? "REPRODUCED %s\n" : "NOT REPRODUCED %s\n", kind.c_str());
	return same ? 1 : 0;
}

int main(int argc, char **argv)
{
	Args a; std::string mode = argc > 1 ? argv[1] : "", file, sc = "plain"; u64 n = 200; 
	char self[4096]; ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1); if (l > 0) { self[l] = 0; a.self = self; }
	for (int i = 2; i < argc; i++) {
		std::string s = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (s == "--prop") a.prop = v(); else if (s == "--tier") a.tier = v(); else if (s == "--seed") a.seed = strtoull(v().c_str(), nullptr, 10);
		else if (s == "--evidence") a.evidence = v(); else if (s == "--replaydir") a.replaydir = v(); else if (s == "--known") a.knownfile = v(); else if (s == "--knowndir") a.knowndir = v();
		else if (s == "--jobs") a.jobs = atoi(v().c_str()); else if (s == "--scale") a.scale = atof(v().c_str()); else if (s == "--wall") a.wall = atof(v().c_str());
		else if (s == "--sc") sc = v(); else if (s == "--n") n = strtoull(v().c_str(), nullptr, 10); else if (s == "--trace") g_trace++; else file = s;
	}
	if (a.jobs < 1) a.jobs = 1;
	if (mode == "check") return do_check(a);
	if (!a.knownfile.empty()) for (auto &k : load_known(a.knownfile)) g_known.push_back(k.id);
	if (mode == "replay") return do_replay(file);
	if (mode == "san") { auto p = find_prop(a.prop); printf("%d\n", p && p->san); return 0; }
	if (mode == "props") { for (auto &p : props()) printf("%s\n", p.id); return 0; }
	int sci = -1; for (int i = 0; i < SC_N; i++) if (sc == sc_names[i]) sci = i;
	if (mode == "plan") { Plan p; gen_plan(sci, a.seed, p, a.tier == "thorough"); fputs(p.text().c_str(), stdout); return 0; }
	if (mode == "min") {	// dev: minimise one seed for a kind
		Plan p; gen_plan(sci, a.seed, p, a.tier == "thorough"); u32 t = 0; Plan m = shrink(p, file, 60, t);
		Kinds stop = {file}; Iso r = run_isolated(m, &stop); printf("# %s", r.msgs.c_str()); printf("expect kind=%s hash=%llu\n%s", file.c_str(), (unsigned long long)r.hash, m.text().c_str()); return 0;
	}
	if (mode == "run") {	// dev: run seeds, summarise kinds
		std::map<std::string, std::pair<u64, u64>> cnt; std::map<std::string, std::string> ex; Stats tot; double t0 = now_s();
		const int W = a.jobs; std::vector<int> fds;
		for (int w = 0; w < W; w++) {
			int fd[2]; if (pipe(fd)) return 2;
			if (!fork()) {
				close(fd[0]); FILE *o = fdopen(fd[1], "w");
				for (u64 i = (u64)w; i < n; i += (u64)W) {
					Plan p; gen_plan(sci, a.seed + i, p, false);
					fprintf(o, "B %llu\n", (unsigned long long)(a.seed + i)); fflush(o); arm_cpu_limit(CPU_LIMIT_S);
					Result r; exec_plan(p, r);
					for (auto &v : r.viol) fprintf(o, "V %llu %s %s\n", (unsigned long long)(a.seed + i), v.kind.c_str(), v.msg.c_str());
					for (auto &v : r.known) fprintf(o, "V %llu known:%s %s\n", (unsigned long long)(a.seed + i), v.kind.c_str(), v.msg.c_str());
					fprintf(o, "S"); for (int k = 0; k < ST_N; k++) fprintf(o, " %llu", (unsigned long long)r.st.v[k]);
					fprintf(o, "\n"); if (nontrivial(sci, r.st)) fprintf(o, "N\n"); fflush(o);
				}
				_exit(0);
			}
			close(fd[1]); fds.push_back(fd[0]);
		}
		u64 ntc = 0;
		std::vector<std::string> outs(W);
		{ std::vector<struct pollfd> pf; for (int f : fds) pf.push_back({f, POLLIN, 0}); int open_n = W; char b[65536];
		  while (open_n) { poll(pf.data(), pf.size(), -1); for (int w = 0; w < W; w++) if (pf[w].revents) { ssize_t k = read(pf[w].fd, b, sizeof b); if (k <= 0) { pf[w].fd = -1; pf[w].revents = 0; open_n--; } else outs[w].append(b, (size_t)k); } } }
		for (int w = 0; w < W; w++) {
			std::istringstream in(outs[w]); std::string line, last;
			while (std::getline(in, line)) {
				if (line[0] == 'B') { last = line.substr(2); continue; }
				if (line[0] == 'N') { ntc++; continue; }
				if (line[0] == 'S') { last = ""; std::istringstream x(line.substr(1)); Stats s; for (int k = 0; k < ST_N; k++) x >> s.v[k]; tot.add(s); continue; }
				std::istringstream x(line.substr(2)); u64 sd; std::string k; x >> sd >> k;
				auto &c = cnt[k]; if (!c.first++ || sd < c.second) { c.second = sd; ex[k] = line; }
			}
			if (!last.empty()) { cnt["DEAD"].first++; ex["DEAD"] = "seed " + last; }
		}
		while (wait(nullptr) > 0) {}
		printf("%s: %llu runs in %.2f s, nontrivial %llu\n", sc.c_str(), (unsigned long long)tot.v[ST_RUNS], now_s() - t0, (unsigned long long)ntc);
		for (int k = 0; k < ST_N; k++) if (tot.v[k]) printf(" %s=%llu", stat_names[k], (unsigned long long)tot.v[k]);
		printf("\n");
		for (auto &c : cnt) printf("  %6llu x %-18s %s\n", (unsigned long long)c.second.first, c.first.c_str(), ex[c.first].c_str());
		return 0;
	}
	fprintf(stderr, "usage: dharasim check|replay|run|plan|min|props ...\n");
	return 2;
}
