// Plan text format: the replay file.
#include "common.h"
#include <sstream>

const char *const fault_names[] = { "cut", "shadow", "fail", "rderr", "failprog" };
const char *const eff_names[] = { "none", "full", "torn", "mix" };
const char *const op_names[] = {
	"write", "trim", "copy", "copypage", "read", "find", "gc", "sync",
	"clear", "restart", "crash", "check", "rot", "flip", "gcall",
	"enq", "enqnull", "requeue", "deq", "meta", "cookie", "jclear",
	"fill", "jsync", "jrestart", "jcrash",
	"put", "bits", "get", "scrub", "erasedchk", "burst"
};
const char *const sc_names[] = {
	"plain", "fail", "crash", "crashfail", "rderr", "rot", "full", "big",
	"epoch", "stack", "gc", "wear", "chaos", "eol", "huge", "scarred",
	"jplain", "jfail", "jcrash", "jcrashfail",
	"bch", "hamming", "crc", "bchv",
	"twin", "pair", "upgrade"
};
const char *const stat_names[] = {
	"runs", "ops", "nand_ops", "nand_reads", "nand_programs", "nand_erases", "blocks_marked_bad",
	"cut_nothing_done", "cut_completed", "cut_torn", "cut_mixed_erase", "cut_idle",
	"cut_on_user_program", "cut_on_checkpoint_program", "cut_on_erase", "cut_on_mark_bad", "cut_in_recovery",
	"crash_points_checked_on_clone", "clone_continuations", "clone_crash_points_in_recovery",
	"fail_user_program", "fail_checkpoint_program", "fail_erase", "fail_copy", "fail_in_recovery",
	"transient_read_errors", "transient_metadata_read_errors", "transient_read_errors_in_recovery", "pages_rotted", "bits_flipped", "reads_corrected", "reads_uncorrectable",
	"recoveries", "resumes", "clean_restarts", "syncs", "map_full_seen", "gc_steps",
	"chip_wraps", "max_chip_wraps_in_a_run", "writes", "trims", "copies", "clears", "reads_checked", "full_state_sweeps",
	"crashes_that_lost_unsynced_work", "crashes_that_lost_nothing", "expected_op_errors", "max_reads_in_one_op", "max_reads_in_one_resume",
	"ecc_words", "ecc_words_corrected", "ecc_words_detected", "journal_enqueues", "journal_dequeues", "journal_full_seen", "known_findings_met", "failures_on_empty_map",
	"runs_abandoned", "max_acknowledged_changes_lost", "switches_between_devices", "switches_in_mid_computation"
};
static_assert(sizeof stat_names / sizeof *stat_names == ST_N, "stat names");
static_assert(sizeof op_names / sizeof *op_names == OP_NKINDS, "op names");
static_assert(sizeof sc_names / sizeof *sc_names == SC_N, "scenario names");

template <size_t N> static int lookup(const char *const (&t)[N], const std::string &s)
{
	for (size_t i = 0; i < N; i++) if (s == t[i]) return (int)i;
	return -1;
}

std::string Plan::text() const
{
	std::ostringstream o;
	o << "scenario " << sc_names[scenario] << "\nseed " << seed << "\n";
	o << "chip log2_page=" << lp << " log2_ppb=" << lb << " blocks=" << nb << " gc=" << gc
	  << " imprecise=" << imprecise << " init=" << init << " badread=" << badread
	  << " ecc=" << ecc << " chunk=" << chunk << " slots=" << ns << " secmode=" << secmode
	  << " maxfail=" << maxfail << " tearcp=" << tearcp << " killbad=" << killbad << " rdbuf=" << rdbuf;
	if (huge) o << " huge=" << huge << " headblock=" << headblk << " epoch=" << epoch;
	if (twin) o << " twin=1";
	if (pairlen) o << " pairlen=" << pairlen << " pairscenario=" << sc_names[pairsc] << " pairseed=" << pairseed;
	if (upgrade) o << " upgrade=" << upgrade;
	o << "\n";
	for (u32 b : bad) o << "bad " << b << "\n";
	for (auto &b : bombs) o << "bomb " << b.block << " " << b.ttl << " " << b.mode << "\n";
	for (auto &p : ops) {
		o << "op " << op_names[p.kind] << " a=" << p.a << " b=" << p.b << " v=" << p.v << " flags=" << (int)p.flags;
		for (auto &f : p.faults) {
			o << " | " << fault_names[f.kind] << " nth=";
			if (f.nth == NTH_ALL) o << "all"; else o << f.nth;
			if (f.kind == F_CUT || f.kind == F_SHADOW) o << " effect=" << eff_names[f.mode & 3];
			else o << " mode=" << f.mode;
			o << " arg=" << f.arg;
		}
		o << "\n";
	}
	o << "end\n";
	return o.str();
}

bool Plan::parse(const std::string &s, std::string &err)
{
	std::istringstream in(s); std::string line; int ln = 0;
	*this = Plan(); bool end = false;
	while (std::getline(in, line)) {
		ln++;
		std::istringstream l(line); std::string w;
		if (!(l >> w) || w[0] == '#') continue;
		auto bad_line = [&]() { err = "line " + std::to_string(ln) + ": " + line; return false; };
		auto kv = [&](const std::string &tok, std::string &k, std::string &v) {
			size_t e = tok.find('='); if (e == std::string::npos) return false;
			k = tok.substr(0, e); v = tok.substr(e + 1); return true;
		};
		std::string k, v;
		if (w == "scenario") { l >> w; int i = lookup(sc_names, w); if (i < 0) return bad_line(); scenario = i; }
		else if (w == "seed") l >> seed;
		else if (w == "chip") {
			while (l >> w) {
				if (!kv(w, k, v)) return bad_line();
				u32 x = (u32)strtoul(v.c_str(), nullptr, 10);
				if (k == "pairscenario") { int i = lookup(sc_names, v); if (i < 0) return bad_line(); pairsc = (u32)i; continue; }
				if (k == "pairseed") { pairseed = strtoull(v.c_str(), nullptr, 10); continue; }
				if (k == "pairlen") { pairlen = x; continue; }
				if (k == "twin") { twin = x; continue; }
				if (k == "huge") { huge = x; continue; }
				if (k == "headblock") { headblk = x; continue; }
				if (k == "epoch") { epoch = x; continue; }
				if (k == "log2_page") lp = x; else if (k == "log2_ppb") lb = x; else if (k == "blocks") nb = x;
				else if (k == "gc") gc = x; else if (k == "imprecise") imprecise = x; else if (k == "init") init = x;
				else if (k == "badread") badread = x; else if (k == "ecc") ecc = x; else if (k == "chunk") chunk = x;
				else if (k == "slots") ns = x; else if (k == "secmode") secmode = x; else if (k == "maxfail") maxfail = x;
				else if (k == "tearcp") tearcp = x; else if (k == "upgrade") upgrade = x; else if (k == "killbad") killbad = x; else if (k == "rdbuf") rdbuf = x; else return bad_line();
			}
		}
		else if (w == "bad") { u32 x; l >> x; bad.push_back(x); }
		else if (w == "bomb") { Bomb b; l >> b.block >> b.ttl >> b.mode; bombs.push_back(b); }
		else if (w == "op") {
			Op o = {}; l >> w; int i = lookup(op_names, w); if (i < 0) return bad_line(); o.kind = (u8)i;
			Fault *cf = nullptr;
			while (l >> w) {
				if (w == "|") {
					l >> w; int fk = lookup(fault_names, w); if (fk < 0) return bad_line();
					Fault f = {}; f.kind = (u8)fk; o.faults.push_back(f); cf = &o.faults.back(); continue;
				}
				if (!kv(w, k, v)) return bad_line();
				u64 x = strtoull(v.c_str(), nullptr, 10);
				if (cf) {
					if (k == "nth") cf->nth = v == "all" ? NTH_ALL : (u32)x;
					else if (k == "mode") cf->mode = (u32)x;
					else if (k == "effect") { int e = lookup(eff_names, v); if (e < 0) return bad_line(); cf->mode = e; }
					else if (k == "arg") cf->arg = x; else return bad_line();
				} else {
					if (k == "a") o.a = (u32)x; else if (k == "b") o.b = (u32)x; else if (k == "v") o.v = x;
					else if (k == "flags") o.flags = (u8)x; else return bad_line();
				}
			}
			ops.push_back(o);
		}
		else if (w == "end") { end = true; break; }
	}
	if (!end) { err = "no end line"; return false; }
	return true;
}

std::vector<std::string> g_known;
int g_trace = 0;
u8 *g_cov = nullptr; u32 g_covbits = 0;
bool known_enabled(const char *id) { for (auto &s : g_known) if (s == id) return true; return false; }

void exec_one(const Plan &p, Result &r)
{
	if (p.scenario >= SC_BCH) exec_ecc(p, r);
	else if (p.scenario >= SC_JPLAIN) exec_journal(p, r);
	else exec_map(p, r);
}
