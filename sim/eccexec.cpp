// Simulated storage of ECC-protected chunks. Words are stored with the code
// under test, the medium flips bits, and what comes back is judged against
// the golden copy and the number of flips the medium really made.
#include "common.h"
#include "nand.h"
#include <set>

namespace {

enum { GUARD = 16 };

// A buffer between guard bytes: writes outside it are noticed.
struct Buf {
	std::vector<u8> v; size_t n;
	explicit Buf(size_t len = 0, const u8 *src = nullptr) { set(len, src); }
	void set(size_t len, const u8 *src) { n = len; v.assign(len + 2 * GUARD, 0xa5); if (src) memcpy(p(), src, len); else memset(p(), 0xff, len); }
	u8 *p() { return v.data() + GUARD; }
	const u8 *p() const { return v.data() + GUARD; }
	bool guards_ok() const { for (int i = 0; i < GUARD; i++) if (v[i] != 0xa5 || v[v.size() - 1 - i] != 0xa5) return false; return true; }
	bool same(const Buf &o) const { return v == o.v; }
};

struct Slot { bool used = false, lost = false; Buf data, ecc, gdata, gecc; std::set<u32> flips; };

struct EccSim {
	const Plan &p; Result &r; int op = 0; u64 h = 0;
	u32 len, eccbytes, eccbits, t = 0; int code;	// 0 crc, 1 hamming, 2.. bch
	bool variants;
	std::vector<Slot> slots;

	EccSim(const Plan &pl, Result &rr) : p(pl), r(rr)
	{
		variants = p.scenario == SC_BCHV;
		code = p.scenario == SC_CRC ? 0 : p.scenario == SC_HAM ? 1 : (int)std::min(5u, std::max(2u, p.ecc));
		u32 max = code == 0 ? 512 : code == 1 ? (u32)sh_ham_max_chunk() : (u32)sh_bch_max_chunk();
		len = std::min(std::max(1u, p.chunk), max);
		if (code == 0) { eccbytes = 4; eccbits = 32; }
		else if (code == 1) { eccbytes = 3; eccbits = 24; t = 1; }
		else { t = (u32)code - 1; eccbytes = (u32)sh_bch_ecc_bytes((int)t); eccbits = (u32)sh_bch_ecc_bits((int)t); }
		slots.resize(std::max(1u, p.ns));
	}
	void violate(const char *k, const std::string &m)
	{
		if (g_trace) fprintf(stderr, "  !! %s %s\n", k, m.c_str());
		r.viol.push_back({k, op, m});
		if (r.fatal()) throw Stop();
	}
	u32 nbits() const { return len * 8 + eccbits; }
	static void flip(Buf &d, Buf &e, u32 len, u32 bit) { if (bit < len * 8) d.p()[bit >> 3] ^= (u8)(1u << (bit & 7)); else { bit -= len * 8; e.p()[bit >> 3] ^= (u8)(1u << (bit & 7)); } }

	// Bit-at-a-time reference for the documented CRC: IEEE 802.3, reflected,
	// inverted coefficients.
	static u32 ref_crc(const u8 *d, size_t n, u32 c)
	{
		u32 x = ~c;
		for (size_t i = 0; i < n; i++) { u8 b = (u8)~d[i]; for (int k = 0; k < 8; k++) { u32 in = (x ^ b) & 1; x >>= 1; if (in) x ^= 0xedb88320u; b >>= 1; } }
		return ~x;
	}

	void generate(const Buf &d, Buf &e)
	{
		if (code == 0) { u32 c = sh_crc(d.p(), len, sh_crc_init()); for (int i = 0; i < 4; i++) e.p()[i] = (u8)(c >> (8 * i)); }
		else if (code == 1) sh_ham_generate(d.p(), len, e.p());
		else sh_bch_generate(0, (int)t, d.p(), len, e.p());
	}
	std::vector<u8> shape(u64 seed)
	{
		std::vector<u8> b(len); Rng g(seed);
		switch (g.below(3) ? p.secmode % 3 : g.below(3)) {
		case 0: for (auto &x : b) x = (u8)(g.next() >> 40); break;
		case 1: { u8 c = g.chance(50) ? 0xff : 0; for (auto &x : b) x = c; u32 n = g.below(6); while (n--) b[g.below(len)] ^= (u8)(1u << g.below(8)); break; }
		default: { u8 c = (u8)g.below(256); for (size_t i = 0; i < b.size(); i++) b[i] = (u8)(c + i * (seed & 7)); }
		}
		return b;
	}
	void put(Slot &s, u64 seed)
	{
		std::vector<u8> b = shape(seed);
		s.data.set(len, b.data()); s.ecc.set(eccbytes, nullptr);
		Buf before = s.data; memset(s.ecc.p(), (int)(seed >> 56), eccbytes);
		generate(s.data, s.ecc);
		if (!s.data.same(before)) violate("ecc-touch", "computing check bytes changed the data");
		if (!s.ecc.guards_ok()) violate("ecc-touch", "computing check bytes wrote outside them");
		s.gdata = s.data; s.gecc = s.ecc; s.flips.clear(); s.used = true; s.lost = false;
		if (variants) {
			Buf e2(eccbytes); sh_bch_generate(1, (int)t, s.data.p(), len, e2.p());
			if (!e2.same(s.ecc)) violate("ecc-variant", strf("check bytes differ between the two builds (%u-bit code, %u-byte chunk)", t, len));
		}
		if (code == 0) {
			u32 a = sh_crc(s.data.p(), len, sh_crc_init()), b2 = ref_crc(s.data.p(), len, sh_crc_init());
			if (a != b2) violate("ecc-stream", strf("checksum %08x of %u bytes, the documented polynomial gives %08x", a, len, b2));
			u32 cut = (u32)(seed >> 20) % (len + 1), cut2 = cut + (u32)(seed >> 8) % (len - cut + 1);
			u32 c = sh_crc(s.data.p(), cut, sh_crc_init()); c = sh_crc(s.data.p() + cut, cut2 - cut, c); c = sh_crc(s.data.p() + cut2, len - cut2, c);
			if (c != a) violate("ecc-stream", strf("checksum in pieces 0..%u..%u..%u is %08x, at once %08x", cut, cut2, len, c, a));
		}
		h = hash_bytes(s.ecc.p(), eccbytes, h);
	}
	void toggle(Slot &s, u32 bit)
	{
		flip(s.data, s.ecc, len, bit);
		if (!s.flips.insert(bit).second) s.flips.erase(bit);
		r.st.v[ST_FLIPS]++;
	}
	std::string where(const Slot &s)
	{
		std::string o; for (u32 b : s.flips) o += strf(" %s%u", b < len * 8 ? "d" : "e", b < len * 8 ? b : b - len * 8);
		return strf("%u-byte chunk, flips:", len) + o;
	}
	// Is the word, as judged by the code, damaged?
	bool bad(const Buf &d, const Buf &e, int variant = 0)
	{
		Buf d2 = d, e2 = e; bool x;
		if (code == 0) { u32 c = 0; for (int i = 3; i >= 0; i--) c = c << 8 | e2.p()[i]; x = sh_crc(d2.p(), len, sh_crc_init()) != c; }
		else if (code == 1) x = sh_ham_syndrome(d2.p(), len, e2.p()) != 0;
		else x = sh_bch_verify(variant, (int)t, d2.p(), len, e2.p()) != 0;
		if (!d2.same(d) || !e2.same(e)) violate("ecc-touch", "checking a word changed it");
		return x;
	}
	void get(Slot &s, bool scrub)
	{
		if (!s.used || s.lost) return;
		u32 n = (u32)s.flips.size();
		r.st.v[ST_ECC_CASES]++;
		bool b = bad(s.data, s.ecc);
		u32 sure = code == 0 ? 3 : 2 * t;
		if (n == 0 && b) violate("ecc-false-alarm", "undamaged word reported as damaged: " + where(s));
		if (n && n <= sure && !b) violate("ecc-undetected", strf("%u flipped bits not noticed: ", n) + where(s));
		if (n && b) r.st.v[ST_ECC_DETECTED]++;
		h = mix2(h, b);
		Buf d = s.data, e = s.ecc; bool ok = !b;
		if (code == 1) {
			u32 syn = sh_ham_syndrome(d.p(), len, e.p());
			int rc = sh_ham_repair(d.p(), len, syn);
			if (!d.guards_ok()) violate("ecc-touch", "repair wrote outside the chunk: " + where(s));
			if (n <= 1) {
				if (rc) violate("ecc-miscorrect", "a single flipped bit was not repaired: " + where(s));
				else if (!d.same(s.gdata)) violate("ecc-miscorrect", "repair reported success but the data is wrong: " + where(s));
				else if (n) r.st.v[ST_ECC_FIXED]++;
			} else if (n == 2) {
				if (!rc) violate("ecc-undetected", "two flipped bits were reported as repaired: " + where(s));
				if (!d.same(s.data)) violate("ecc-touch", "refused repair changed the data: " + where(s));
			}
			ok = !rc;
			if (ok && scrub) { sh_ham_generate(d.p(), len, e.p()); if (n <= 1 && !e.same(s.gecc)) violate("ecc-miscorrect", "check bytes rebuilt after repair are wrong: " + where(s)); }
			h = mix2(h, (u64)(u32)rc);
		} else if (code >= 2) {
			if (b) {
				sh_bch_repair(0, (int)t, d.p(), len, e.p());
				if (!d.guards_ok() || !e.guards_ok()) violate("ecc-touch", "repair wrote outside the word: " + where(s));
				ok = !bad(d, e);
				if (n <= t) {
					if (!ok) violate("ecc-miscorrect", strf("%u flips in reach of a %u-bit code were not repaired: ", n, t) + where(s));
					else if (!d.same(s.gdata) || !e.same(s.gecc)) violate("ecc-miscorrect", "repair reported success but the word is wrong: " + where(s));
					else r.st.v[ST_ECC_FIXED]++;
				}
			} else if (n == 0) {	// repairing a sound word must not harm it
				sh_bch_repair(0, (int)t, d.p(), len, e.p());
				if (!d.same(s.data) || !e.same(s.ecc)) violate("ecc-miscorrect", "repair of an undamaged word changed it");
			}
			if (variants) {
				Buf d2 = s.data, e2 = s.ecc;
				bool b2 = bad(d2, e2, 1);
				if (b2 != b) violate("ecc-variant", "the two builds disagree on whether the word is damaged: " + where(s));
				Buf d0 = s.data, e0 = s.ecc; if (b) { d0 = d; e0 = e; sh_bch_repair(1, (int)t, d2.p(), len, e2.p()); }
				if (b && (!d2.same(d0) || !e2.same(e0))) violate("ecc-variant", strf("the two builds repair differently (%u-bit code): ", t) + where(s));
			}
		}
		h = hash_bytes(d.p(), len, h);
		if (scrub && code && ok) {
			if (d.same(s.gdata) && e.same(s.gecc)) { s.data = d; s.ecc = e; s.flips.clear(); }
			else s.lost = true;	// beyond the code's reach: nothing is promised
		}
		cover(mix2(mix2((u64)code, std::min(n, 12u)), mix2(b, ok) + (len > 40) + (scrub ? 2 : 0)));
	}
	void erased()
	{
		Buf d(len), e(eccbytes);
		r.st.v[ST_ECC_CASES]++;
		if (bad(d, e)) violate("ecc-erased", strf("an erased %u-byte chunk does not pass", len));
		if (variants && bad(d, e, 1)) violate("ecc-variant", "an erased chunk passes in one build only");
	}
	void run()
	{
		try {
			for (op = 0; op < (int)p.ops.size(); op++) {
				const Op &o = p.ops[op]; Slot &s = slots[o.a % slots.size()];
				if (g_trace) fprintf(stderr, "%d %s(%u) b=%u\n", op, op_names[o.kind], o.a % (u32)slots.size(), o.b);
				r.st.v[ST_OPS]++;
				Rng g(o.v);
				switch (o.kind) {
				case OP_PUT: put(s, o.v); get(s, false); break;
				case OP_BITS: {
					if (!s.used) break;
					// mostly stay where the code promises something: refresh worn words
					if (s.lost || (s.flips.size() + o.b > (code ? 2 * t : 3) && g.chance(80))) { s.data = s.gdata; s.ecc = s.gecc; s.flips.clear(); s.lost = false; }
					std::set<u32> pick; u32 near = g.below(nbits());
					while (pick.size() < o.b && pick.size() < nbits()) {
						u32 m = g.below(4);
						pick.insert(m == 0 && nbits() > len * 8 ? len * 8 + g.below(eccbits) : m == 1 ? (near + g.below(24)) % nbits() : g.below(nbits()));
					}
					for (u32 b : pick) toggle(s, b);
					break;
				}
				case OP_BURST: {
					// A burst on a sound word: first and last bit flipped, anything between.
					if (!s.used || s.lost) break;
					u32 n = std::min(nbits(), 1 + g.below(32)), at = g.below(nbits() - n + 1);
					if (code == 0) {
						Slot q = s; q.data = q.gdata; q.ecc = q.gecc; q.flips.clear();
						for (u32 i = 0; i < n; i++) if (i == 0 || i == n - 1 || g.chance(50)) toggle(q, at + i);
						r.st.v[ST_ECC_CASES]++;
						if (!bad(q.data, q.ecc)) violate("ecc-undetected", strf("a burst of %u bits was not noticed: ", n) + where(q)); else r.st.v[ST_ECC_DETECTED]++;
					} else { n = std::min(n, t); for (u32 i = 0; i < n; i++) toggle(s, at + i); }
					break;
				}
				case OP_GET: get(s, false); break;
				case OP_SCRUB: get(s, true); break;
				case OP_ERASEDCHK: erased(); break;
				}
				h = mix2(h, o.kind);
				if (r.trace.size() < 100000) r.trace.push_back(h);
			}
		} catch (Stop &) {}
		r.hash = mix2(h, r.viol.size());
	}
};
}

void exec_ecc(const Plan &p, Result &r) { EccSim s(p, r); s.run(); }
