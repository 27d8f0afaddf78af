// C19: registers, fields, banks, proxies and register bit arithmetic against byte models, with observers that write
// back or fail, and refused accesses.
#include "world_base.hpp"
#include "sparta/functional/Register.hpp"
#include "sparta/functional/RegisterSet.hpp"
#include "sparta/functional/RegisterBits.hpp"

namespace {
using sparta::Register; using sparta::RegisterBase; using sparta::RegisterSet; using sparta::RegisterBits; using sparta::RegisterProxyBase;
typedef std::vector<uint8_t> Bytes;
static std::string hex(const Bytes & b) { std::string s; char t[4]; for (size_t i = 0; i < b.size() && i < 64; ++i) { snprintf(t, sizeof t, "%02x", b[i]); s += t; } return s; }
struct ObsFail : std::runtime_error { ObsFail() : std::runtime_error("observer failed") {} };

struct RW : public PBase {
    using PBase::PBase;
    struct F { std::string name; unsigned lo, hi; bool ro; };
    struct Note { int kind; Bytes prior, fin; };
    struct R { // model of one register
        std::string name, gname; unsigned bytes; int root; unsigned off; std::vector<F> f; Bytes mask; int grp = -1, gidx = -1; std::vector<unsigned> banks; std::vector<uint8_t> init; bool hasinit = false; RegisterBase * r = nullptr; bool orr = false, ow = false; std::vector<Note> notes; std::vector<std::string> alias; std::vector<const char *> aliasp;
    };
    struct O { RW * w; int i; void rd(const RegisterBase::ReadAccess & a) { w->noted(i, 0, nullptr, a.value, a.reg); } void wr(const RegisterBase::PostWriteAccess & a) { w->noted(i, 1, a.prior, a.final, a.reg); } };
    std::unique_ptr<sparta::RootTreeNode> rt; std::unique_ptr<sparta::TreeNode> node; std::unique_ptr<RegisterSet> rs; std::deque<R> regs; std::deque<O> obs; std::vector<Bytes> val; // val[root]
    std::vector<RegisterBase::Definition> defs; std::vector<RegisterProxyBase::Definition> pdefs; std::deque<std::string> strs; unsigned curbank = 0, minbank = 0; int action = 0, act_reg = -1; Bytes act_val; bool in_act = false;
    std::map<std::pair<int, int>, std::string> proxies;
    ~RW() { if (rt) rt->enterTeardown(); rs.reset(); node.reset(); }
    static Bytes dv(const sparta::DataView * d) { Bytes b(d->getSize()); for (size_t i = 0; i < b.size(); ++i) b[i] = d->read<uint8_t>((uint32_t)i); return b; }
    void noted(int i, int kind, const sparta::DataView * p, const sparta::DataView * f, const RegisterBase * who) {
        if (who != regs[i].r && !stored) stored.reset(new Violation("notification", "a register notification names another register"));
        regs[i].notes.push_back({kind, p ? dv(p) : Bytes(), dv(f)});
        if (in_act) return;
        if (action == 1 && act_reg >= 0 && regs[act_reg].root != regs[i].root) { in_act = true; c.fault("observer writes another register"); poke_model(act_reg, 0, act_val, true, true); regs[act_reg].r->poke(act_val.data(), act_val.size(), 0); in_act = false; }
        else if (action == 2) { c.fault("observer fails"); throw ObsFail(); }
    }
    Bytes rnd(int64_t seed, size_t n) { Bytes b(n); uint64_t x = (uint64_t)seed * 0x9E3779B97F4A7C15ull + 999; for (auto & v : b) { x = x * 6364136223846793005ull + 1442695040888963407ull; v = (uint8_t)(x >> 56); } return b; }
    Bytes get(int i, unsigned off, unsigned n) { R & r = regs[i]; return Bytes(val[r.root].begin() + r.off + off, val[r.root].begin() + r.off + off + n); }
    void poke_model(int i, unsigned off, const Bytes & b, bool masked, bool = false) { R & r = regs[i]; for (size_t k = 0; k < b.size(); ++k) { uint8_t & v = val[r.root][r.off + off + k]; uint8_t m = masked ? r.mask[off + k] : 0xff; v = (uint8_t)((v & ~m) | (b[k] & m)); } }
    void verify(const char * after) { for (size_t i = 0; i < regs.size(); ++i) { Bytes b(regs[i].bytes); static_cast<const RegisterBase *>(regs[i].r)->peek(b.data(), b.size(), 0); Bytes e = get((int)i, 0, regs[i].bytes); CHECK(b == e, "register-value", "after %s register %zu (%u bytes) holds %s, expected %s", after, i, regs[i].bytes, hex(b).c_str(), hex(e).c_str()); } }
    void expect_notes(int i, bool posted, int kind, const Bytes & prior, const Bytes & fin) {
        for (size_t k = 0; k < regs.size(); ++k) { auto & v = regs[k].notes;
            if ((int)k != i || !posted) { CHECK(v.empty(), "notification", "register %zu posted a notification nobody should have seen", k); continue; }
            CHECK(v.size() == 1 && v[0].kind == kind, "notification", "an observed %s of register %zu posted %zu notifications", kind ? "write" : "read", k, v.size());
            CHECK(v[0].fin == fin, "notification", "the %s notification of register %zu gives the value %s, expected %s", kind ? "write" : "read", k, hex(v[0].fin).c_str(), hex(fin).c_str());
            if (kind) CHECK(v[0].prior == prior, "notification", "the write notification of register %zu gives the prior value %s, expected %s", k, hex(v[0].prior).c_str(), hex(prior).c_str());
            c.probe("notification checked"); v.clear(); }
    }
    // kinds: 0 read 1 peek 2 write 3 writeUnmasked 4 poke 5 pokeUnmasked
    void buf_access(const Op & o) {
        int i = (int)(o.arg(0) % regs.size()); R & r = regs[i]; int k = (int)(o.arg(1) % 6); size_t off = (size_t)o.arg(2), n = (size_t)std::max<int64_t>(1, o.arg(3)); if (!o.arg(5)) { off %= r.bytes; n = std::min<size_t>(n, r.bytes - off); }
        Bytes b = rnd(o.arg(4), n), w = b; bool ok = off + n <= r.bytes; c.log("r%d k%d %zu+%zu", i, k, off, n);
        Bytes prior = get(i, 0, r.bytes); setup_action(o.arg(6), o.arg(7), o.arg(4)); bool posts = ok && ((k == 0 && r.orr) || ((k == 2 || k == 3) && r.ow)); Bytes rd = ok ? get(i, (unsigned)off, (unsigned)n) : Bytes();
        if (ok && k >= 2) poke_model(i, (unsigned)off, b, k == 2 || k == 4);
        Bytes fin = get(i, 0, r.bytes);
        RegisterBase * p = r.r; bool thr = false; bool t = refused([&] { try { switch (k) { case 0: p->read(b.data(), n, off); break; case 1: p->peek(b.data(), n, off); break; case 2: p->write(b.data(), n, off); break; case 3: p->writeUnmasked(b.data(), n, off); break; case 4: p->poke(b.data(), n, off); break; default: p->pokeUnmasked(b.data(), n, off); } } catch (ObsFail &) { thr = true; } });
        finish(i, t, ok, thr, posts, k >= 2, prior, fin); if (!ok) { CHECK(b == w, "refused-effect", "a refused access changed the caller's buffer"); return; }
        if (k < 2) CHECK(b == rd, "register-value", "reading bytes %zu+%zu of register %d gave %s, expected %s", off, n, i, hex(b).c_str(), hex(rd).c_str()); else CHECK(b == w, "refused-effect", "a write changed the caller's buffer");
    }
    void setup_action(int64_t a, int64_t reg, int64_t seed) { action = (int)a; act_reg = (int)(reg % regs.size()); act_val = rnd(seed + 7, regs[act_reg].bytes); }
    void finish(int i, bool t, bool ok, bool thr, bool posts, bool wr, const Bytes & prior, const Bytes & fin) {
        int act = action; action = 0; CHECK(t == !ok, ok ? "access-refused" : "access-allowed", "an access of register %d (%u bytes) was %s", i, regs[i].bytes, t ? "refused" : "accepted");
        if (!ok) c.fault("refused access"); else c.nontrivial = true;
        CHECK(thr == (posts && act == 2), "observer-error", "an observer's failure was %s", thr ? "reported twice" : "swallowed");
        expect_notes(i, posts, wr, prior, fin); verify(wr ? "a write" : "a read");
    }
    template<class T> void typed(const Op & o) {
        int i = (int)(o.arg(0) % regs.size()); R & r = regs[i]; int k = (int)(o.arg(1) % 9); uint32_t idx = (uint32_t)o.arg(2); uint32_t cnt = r.bytes / sizeof(T); if (k >= 6 && k != 8 && !cnt) return; if (!o.arg(5) || k >= 6) { if (!cnt) { if (k >= 6) return; idx = 0; } else idx %= cnt; }
        bool ok = (size_t)(idx + 1) * sizeof(T) <= r.bytes; Bytes b = rnd(o.arg(4), sizeof(T)); T v; memcpy(&v, b.data(), sizeof(T)); c.log("r%d t%zu k%d [%u]", i, sizeof(T), k, idx); unsigned off = idx * sizeof(T);
        if (k == 8 && !ok) return;
        Bytes prior = get(i, 0, r.bytes); setup_action(o.arg(6), o.arg(7), o.arg(4)); bool wr = k >= 2 && k != 6; bool posts = ok && ((k == 0 && r.orr) || ((k == 2 || k == 3) && r.ow)); Bytes rd = ok ? get(i, off, sizeof(T)) : Bytes();
        if (ok && wr) poke_model(i, off, b, k == 2 || k == 4);
        Bytes fin = get(i, 0, r.bytes); Register * g = static_cast<Register *>(r.r); RegisterBase * p = r.r; bool thr = false; T out = 0;
        bool t = refused([&] { try { switch (k) { case 0: out = p->read<T>(idx); break; case 1: out = p->peek<T>(idx); break; case 2: p->write<T>(v, idx); break; case 3: p->writeUnmasked<T>(v, idx); break; case 4: p->poke<T>(v, idx); break; case 5: p->pokeUnmasked<T>(v, idx); break; case 6: out = g->dmiRead<T>(idx); break; case 7: g->dmiWrite<T>(v, idx); break; default: g->writeUnmasked<T>(v, idx); } } catch (ObsFail &) { thr = true; } });
        if (ok && k < 2 && !thr) { T e; memcpy(&e, rd.data(), sizeof(T)); CHECK(out == e, "register-value", "reading element %u (%zu bytes) of register %d gave %lx, expected %lx", idx, sizeof(T), i, (ul)out, (ul)e); }
        if (k == 6) { T e; memcpy(&e, rd.data(), sizeof(T)); CHECK(out == e, "register-value", "dmiRead of element %u of register %d gave %lx, expected %lx", idx, i, (ul)out, (ul)e); }
        finish(i, t, ok, thr, posts, wr, prior, fin);
        if (ok && sizeof(T) * (idx + 1) <= r.mask.size()) { T e; memcpy(&e, r.mask.data() + off, sizeof(T)); CHECK(p->getWriteMask<T>(idx) == e, "write-mask", "getWriteMask of element %u of register %d is wrong", idx, i); }
    }
    void field(const Op & o) {
        int i = (int)(o.arg(0) % regs.size()); R & r = regs[i]; if (r.f.empty()) return; F & f = r.f[o.arg(1) % r.f.size()]; int k = (int)(o.arg(2) % 5); unsigned nb = f.hi - f.lo + 1; Bytes rb = rnd(o.arg(3), 8); uint64_t v; memcpy(&v, rb.data(), 8); bool big = o.arg(4) && nb < 64; if (nb < 64) { v &= (uint64_t(1) << nb) - 1; if (big) v |= uint64_t(1) << (nb + o.arg(4) % (64 - nb)); }
        bool wr = k >= 2, ok = !wr || !big; c.log("r%d field [%u:%u] k%d v%lx", i, f.hi, f.lo, k, (ul)v); auto * fp = r.r->getField(f.name); CHECK(fp && fp->getLowBit() == f.lo && fp->getHighBit() == f.hi && fp->isReadOnly() == f.ro && fp->getNumBits() == nb, "field-lookup", "field %s of register %d is not as defined", f.name.c_str(), i);
        Bytes prior = get(i, 0, r.bytes); uint64_t e = 0; for (unsigned b = 0; b < nb; ++b) e |= uint64_t(prior[(f.lo + b) / 8] >> ((f.lo + b) % 8) & 1) << b;
        setup_action(o.arg(5), o.arg(6), o.arg(3)); bool posts = ok && ((k == 0 && r.orr) || (k == 2 && r.ow));
        if (ok && wr) { Bytes n = prior; for (unsigned b = 0; b < nb; ++b) { uint8_t & x = n[(f.lo + b) / 8]; uint8_t m = (uint8_t)(1 << ((f.lo + b) % 8)); x = (uint8_t)((v >> b & 1) ? x | m : x & ~m); } poke_model(i, 0, n, k != 4); }
        Bytes fin = get(i, 0, r.bytes); bool thr = false; uint64_t out = 0;
        bool t = refused([&] { try { switch (k) { case 0: out = fp->read(); break; case 1: out = fp->peek(); break; case 2: fp->write(v); break; case 3: fp->poke(v); break; default: fp->pokeUnmasked(v); } } catch (ObsFail &) { thr = true; } });
        if (!wr && !thr) CHECK(out == e, "field-value", "field [%u:%u] of register %d reads 0x%lx, expected 0x%lx", f.hi, f.lo, i, (ul)out, (ul)e);
        finish(i, t, ok, thr, posts, wr, prior, fin); c.probe("field access");
    }
    const R * find(unsigned b, int g, int x) const { unsigned nb = nbanks(); if (b >= nb) return nullptr; for (auto & r : regs) if (r.grp == g && r.gidx == x && (r.banks.empty() || std::count(r.banks.begin(), r.banks.end(), b))) return &r; return nullptr; }
    unsigned nbanks() const { unsigned n = minbank + 1; for (auto & r : regs) if (r.grp >= 0) for (auto b : r.banks) n = std::max(n, b + 1); return n; }
    void lookup(const Op & o) {
        int g = (int)(o.arg(0) % 4), x = (int)(o.arg(1) % 4); unsigned b = (unsigned)(o.arg(2) % 6); const R * e = find(b, g, x); c.log("lookup g%d x%d b%u -> %d", g, x, b, e != nullptr);
        CHECK(rs->getNumBanks() == nbanks() && rs->getNumRegisters() == regs.size(), "bank-lookup", "%u banks and %u registers are reported, expected %u and %zu", (unsigned)rs->getNumBanks(), (unsigned)rs->getNumRegisters(), nbanks(), regs.size());
        CHECK(rs->canLookupRegister(g, x, b) == (e != nullptr), "bank-lookup", "canLookupRegister(group %d, index %d, bank %u) is wrong", g, x, b);
        RegisterBase * p = nullptr; bool t = refused([&] { p = rs->getRegister(g, x, b); }); CHECK(t == !e && (!e || p == e->r), "bank-lookup", "getRegister(group %d, index %d, bank %u) %s", g, x, b, t ? "was refused" : "gave the wrong register");
        if (t) c.fault("refused lookup"); else { c.nontrivial = true; CHECK(rs->lookupRegister(g, x, b) == e->r, "bank-lookup", "lookupRegister disagrees with getRegister"); }
        if (b < nbanks()) { unsigned n = 0; for (int q = 0; q < 4; ++q) n += find(b, g, q) != nullptr; CHECK(rs->getGroupSize(g, b) == n, "bank-lookup", "group %d of bank %u is said to have %u registers, expected %u", g, b, rs->getGroupSize(g, b), n); }
        for (auto & pr : proxies) { const R * q = find(curbank, pr.first.first, pr.first.second); auto & px = rs->getRegisterProxy(pr.second); RegisterBase * got = px.tryGetCurrentRegister(); CHECK(got == (q ? q->r : nullptr), "bank-lookup", "the proxy for group %d index %d gives the wrong register in bank %u", pr.first.first, pr.first.second, curbank);
            RegisterBase * g2 = nullptr; bool tt = refused([&] { g2 = px.getCurrentRegister(); }); CHECK(tt == !q && (!q || g2 == q->r), "bank-lookup", "getCurrentRegister of a proxy disagrees"); c.probe("proxy resolved"); }
        const R & nm = regs[o.arg(3) % regs.size()]; CHECK(rs->getRegister(nm.name) == nm.r, "bank-lookup", "lookup by name gives another register"); for (auto & a : nm.alias) CHECK(rs->getRegister(a) == nm.r, "bank-lookup", "lookup by alias gives another register");
    }
    // ---- bit arithmetic
    static Bytes shl(const Bytes & a, unsigned s) { Bytes r(a.size(), 0); for (size_t b = s; b < a.size() * 8; ++b) if (a[(b - s) / 8] >> ((b - s) % 8) & 1) r[b / 8] |= (uint8_t)(1 << (b % 8)); return r; }
    static Bytes shr(const Bytes & a, unsigned s) { Bytes r(a.size(), 0); for (size_t b = 0; b + s < a.size() * 8; ++b) if (a[(b + s) / 8] >> ((b + s) % 8) & 1) r[b / 8] |= (uint8_t)(1 << (b % 8)); return r; }
    static Bytes raw(const RegisterBits & b) { return Bytes(b.data(), b.data() + b.getSize()); }
    void bits(const Op & o) {
        static const unsigned SZ[] = {1, 2, 4, 8, 16, 24, 32, 64, 128}; unsigned n = SZ[o.arg(0) % 9]; Bytes a = rnd(o.arg(1), n), b = rnd(o.arg(1) + 1, n); if (o.arg(5) % 4 == 1) a.assign(n, (uint8_t)o.arg(1)); if (o.arg(5) % 4 == 2) a.assign(n, 0); if (o.arg(5) % 4 == 3) { a.assign(n, 0); a[o.arg(1) % n] = 1; }
        const Bytes ca = a, cb = b; unsigned s = (unsigned)(o.arg(3) % (8 * n)); int k = (int)(o.arg(2) % 9); bool remote = o.arg(4) & 1; c.log("bits %u k%d s%u r%d", n, k, s, remote); c.nontrivial = true;
        auto mk = [&](Bytes & x) -> RegisterBits { if (o.arg(4) & 2) return RegisterBits((const uint8_t *)x.data(), x.size()); RegisterBits r(x.size()); memcpy(r.data(), x.data(), x.size()); return r; };
        RegisterBits A = mk(a), B = mk(b); if (remote) { RegisterBits A2(A); RegisterBits B2(std::move(B)); step(k, A2, B2, ca, cb, s); CHECK(raw(A) == ca, "bits", "an operation on a copy changed the original"); } else step(k, A, B, ca, cb, s);
        CHECK(a == ca && b == cb, "bits", "an operation on RegisterBits changed the data it was made from"); c.probe("bit operation");
    }
    void step(int k, RegisterBits & A, RegisterBits & B, const Bytes & a, const Bytes & b, unsigned s) {
        size_t n = a.size(); Bytes e(n), g; auto cmp = [&](const char * w) { CHECK(g == e, "bits", "%zu bytes %s (by %u): %s and %s give %s, expected %s", n, w, s, hex(a).c_str(), hex(b).c_str(), hex(g).c_str(), hex(e).c_str()); };
        switch (k) {
            case 0: for (size_t i = 0; i < n; ++i) e[i] = a[i] | b[i]; g = raw(A | B); cmp("|"); break; case 1: for (size_t i = 0; i < n; ++i) e[i] = a[i] & b[i]; g = raw(A & B); cmp("&"); break;
            case 2: for (size_t i = 0; i < n; ++i) e[i] = (uint8_t)~a[i]; g = raw(~A); cmp("~"); break; case 3: e = shl(a, s); g = raw(A << s); cmp("<<"); break; case 4: e = shr(a, s); g = raw(A >> s); cmp(">>"); break;
            case 5: for (size_t i = 0; i < n; ++i) e[i] = a[i] | b[i]; A |= B; g = raw(A); cmp("|="); break; case 6: e = shl(a, s); A <<= s; g = raw(A); cmp("<<="); break;
            case 7: { bool z = true; for (auto x : a) z &= !x; CHECK(A.none() == z && A.any() == !z, "bits", "none() of %s is %d", hex(a).c_str(), A.none()); break; }
            default: { CHECK((A == B) == (a == b) && A == A, "bits", "comparison of %s and %s is wrong", hex(a).c_str(), hex(b).c_str()); uint64_t v = 0; memcpy(&v, a.data(), std::min<size_t>(8, n)); CHECK(A.dataAs<uint64_t>() == v && A.dataAs<uint8_t>() == a[0], "bits", "dataAs of %s is wrong", hex(a).c_str()); } }
        CHECK(k == 5 || k == 6 || raw(A) == a, "bits", "an operation changed its operand");
    }
    void go() {
        rt.reset(new sparta::RootTreeNode("root")); node.reset(new sparta::TreeNode(rt.get(), "n", "n"));
        for (auto & o : plan.ops) if (o.k == "reg") { // size log, subset-of selector, subset offset, init?, group, index, banks bitmask
            R r; r.name = "r" + std::to_string(regs.size()); r.bytes = 1u << (o.arg(0) % 8); int me = (int)regs.size(); r.root = me; r.off = 0;
            if (o.arg(1) > 0 && !regs.empty()) { int p = (int)(o.arg(1) % regs.size()); if (regs[p].root == p) { r.bytes = std::min(r.bytes, regs[p].bytes); r.root = p; r.off = (unsigned)(o.arg(2) % (regs[p].bytes - r.bytes + 1)); } }
            r.hasinit = o.arg(3) && r.root == me; if (r.hasinit) r.init = rnd(o.arg(3), r.bytes);
            if (o.arg(4) >= 0) { r.grp = (int)(o.arg(4) % 4); r.gidx = (int)(o.arg(5) % 4); for (unsigned b = 0; b < 5; ++b) if (o.arg(6) >> b & 1) r.banks.push_back(b); for (auto & q : regs) if (q.grp == r.grp && q.gidx == r.gidx) { bool clash = q.banks.empty() || r.banks.empty(); for (auto b : r.banks) clash |= (bool)std::count(q.banks.begin(), q.banks.end(), b); if (clash) { r.grp = -1; r.banks.clear(); break; } } if (r.grp >= 0) r.gname = std::string("grp") + (char)('a' + r.grp); }
            if (o.arg(7)) r.alias.push_back("al" + std::to_string(me)); r.mask.assign(r.bytes, 0xff);
            regs.push_back(std::move(r)); if (regs.size() >= 8) break;
        }
        if (regs.empty()) return;
        for (auto & o : plan.ops) if (o.k == "fld") { R & r = regs[o.arg(0) % regs.size()]; unsigned nb = r.bytes * 8; F f; f.lo = (unsigned)(o.arg(1) % nb); f.hi = (unsigned)std::min<int64_t>(nb - 1, f.lo + o.arg(2) % 64); f.ro = o.arg(3); f.name = "f" + std::to_string(r.f.size()); r.f.push_back(f); if (f.ro) for (unsigned b = f.lo; b <= f.hi; ++b) r.mask[b / 8] &= (uint8_t)~(1 << (b % 8)); }
        defs.reserve(regs.size() + 1); int id = 0;
        for (auto & r : regs) { std::vector<RegisterBase::Field::Definition> fd; for (auto & f : r.f) fd.emplace_back(f.name.c_str(), "field", f.lo, f.hi, f.ro); for (auto & a : r.alias) r.aliasp.push_back(a.c_str()); r.aliasp.push_back(nullptr);
            defs.push_back(RegisterBase::Definition{(RegisterBase::ident_type)id, r.name.c_str(), r.grp >= 0 ? (RegisterBase::group_num_type)r.grp : RegisterBase::GROUP_NUM_NONE, r.grp >= 0 ? r.gname.c_str() : "", r.grp >= 0 ? (RegisterBase::group_idx_type)r.gidx : (RegisterBase::group_idx_type)RegisterBase::GROUP_IDX_NONE, "d", r.bytes, fd, std::vector<RegisterBase::bank_idx_type>(r.banks.begin(), r.banks.end()), r.aliasp.data(), r.root == id ? RegisterBase::INVALID_ID : (RegisterBase::ident_type)r.root, r.off, r.hasinit ? r.init.data() : nullptr, 0, 0}); ++id; }
        defs.push_back(RegisterBase::Definition{0, nullptr, 0, nullptr, 0, nullptr, 0, {}, {}, nullptr, 0, 0, nullptr, 0, 0});
        std::map<std::pair<int, int>, std::string> seen; for (auto & r : regs) if (r.grp >= 0) seen[{r.grp, r.gidx}] = r.gname;
        pdefs.reserve(seen.size() + 1); int pid = 100; for (auto & s : seen) { strs.push_back("px" + std::to_string(pid)); std::string & nm = strs.back(); strs.push_back(s.second); pdefs.push_back({(Register::ident_type)pid++, nm.c_str(), (Register::group_num_type)s.first.first, strs.back().c_str(), (Register::group_idx_type)s.first.second, "proxy"}); proxies[s.first] = nm; }
        pdefs.push_back({0, nullptr, 0, nullptr, 0, nullptr});
        rs = RegisterSet::create(node.get(), defs.data(), pdefs.data(), [this](RegisterBase::group_num_type, RegisterBase::group_idx_type, const std::string *) { return curbank; });
        rt->enterConfiguring(); rt->enterFinalized(); rt->bindTreeEarly(); rt->bindTreeLate();
        val.resize(regs.size()); for (size_t i = 0; i < regs.size(); ++i) { R & r = regs[i]; r.r = rs->getRegister(r.name); obs.push_back({this, (int)i}); if (r.root == (int)i) { val[i].resize(r.bytes); r.r->peek(val[i].data(), r.bytes, 0); if (r.hasinit) CHECK(val[i] == r.init, "register-value", "a new register holds %s, its initial value is %s", hex(val[i]).c_str(), hex(r.init).c_str()); } }
        for (auto & o : plan.ops) {
            if (o.k == "buf") buf_access(o);
            else if (o.k == "typ") { switch (o.arg(3) % 4) { case 0: typed<uint8_t>(o); break; case 1: typed<uint16_t>(o); break; case 2: typed<uint32_t>(o); break; default: typed<uint64_t>(o); } }
            else if (o.k == "acc") field(o);
            else if (o.k == "bits") bits(o);
            else if (o.k == "look") lookup(o);
            else if (o.k == "bank") { curbank = (unsigned)o.arg(0); c.log("bank %u", curbank); }
            else if (o.k == "minb") { minbank = std::max(minbank, (unsigned)o.arg(0)); rs->setMinimumBankIndex((unsigned)o.arg(0)); c.log("minbank %u", minbank); }
            else if (o.k == "reset") { bool um = o.arg(1); c.log("reset %ld", (long)o.arg(0)); if (o.arg(0) < 0) { rs->reset(); for (size_t i = 0; i < regs.size(); ++i) if (regs[i].hasinit) poke_model((int)i, 0, regs[i].init, false); } else { int i = (int)(o.arg(0) % regs.size()); regs[i].r->reset(um); if (regs[i].hasinit) poke_model(i, 0, regs[i].init, !um); } expect_notes(-1, false, 0, {}, {}); verify("a reset"); c.probe("reset"); }
            else if (o.k == "obs") { int i = (int)(o.arg(0) % regs.size()); R & r = regs[i]; c.log("obs r%d %ld", i, (long)o.arg(1));
                if (o.arg(1) & 1) { auto & s = r.r->getReadNotificationSource(); if (r.orr) s.deregisterForThis<O, &O::rd>(&obs[i]); else s.registerForThis<O, &O::rd>(&obs[i]); r.orr = !r.orr; }
                else { auto & s = r.r->getPostWriteNotificationSource(); if (r.ow) s.deregisterForThis<O, &O::wr>(&obs[i]); else s.registerForThis<O, &O::wr>(&obs[i]); r.ow = !r.ow; } }
        }
        verify("everything");
    }
};
void gen(Rng & r, Plan & p, bool th) {
    int n = (int)r.range(1, 8); bool act = r.p(40), bad = r.p(40);
    for (int i = 0; i < n; ++i) p.add("reg", {r.p(80) ? r.range(0, 5) : r.range(0, 7), r.p(30) ? r.range(1, 20) : 0, r.range(0, 64), r.p(60) ? r.range(1, 1 << 20) : 0, r.p(50) ? -1 : r.range(0, 3), r.range(0, 3), r.p(40) ? 0 : r.range(1, 31), r.p(20)});
    for (int i = 0, k = (int)r.range(0, 3 * n); i < k; ++i) p.add("fld", {r.range(0, n - 1), r.p(70) ? r.range(0, 63) : r.range(0, 1023), r.p(60) ? r.range(0, 15) : r.p(50) ? 63 : r.range(0, 63), r.p(35)});
    for (int i = 0, k = (int)r.range(4, th ? 100 : 40); i < k; ++i) { int x = (int)r.below(20); int64_t a = act && r.p(30) ? r.range(1, 2) : 0;
        if (x < 5) p.add("buf", {r.range(0, n - 1), r.range(0, 5), r.range(0, 40), r.range(1, r.p(70) ? 8 : 128), r.range(0, 1 << 20), bad && r.p(30), a, r.range(0, n - 1)});
        else if (x < 9) p.add("typ", {r.range(0, n - 1), r.range(0, 8), r.range(0, 12), r.range(0, 3), r.range(0, 1 << 20), bad && r.p(30), a, r.range(0, n - 1)});
        else if (x < 13) p.add("acc", {r.range(0, n - 1), r.range(0, 9), r.range(0, 4), r.range(0, 1 << 20), bad && r.p(30) ? r.range(1, 64) : 0, a, r.range(0, n - 1)});
        else if (x < 15) p.add("bits", {r.range(0, 8), r.range(0, 1 << 20), r.range(0, 8), r.range(0, 1023), r.range(0, 3), r.range(0, 15)});
        else if (x < 16) p.add("look", {r.range(0, 3), r.range(0, 3), r.range(0, 5), r.range(0, n - 1)}); else if (x < 17) p.add(r.p(80) ? "bank" : "minb", {r.range(0, 6)}); else if (x < 18) p.add("reset", {r.range(-1, n - 1), r.range(0, 1)}); else p.add("obs", {r.range(0, n - 1), r.range(0, 1)}); }
}
dst::Register r19([] { Harness h; h.property = "C19"; h.technique = "deterministic simulation of register access histories with observers that write back or fail and refused accesses, against byte models";
    h.rule = "1-8 registers of 1-128 bytes (subsets, banks, proxies, read-only and overlapping fields) and 4-40 operations (100 thorough) through every access path; non-trivial: an access succeeded"; h.measure = "FNV hash of the run's complete event log";
    h.real = "Register, RegisterBase::Field, RegisterSet, RegisterProxy, RegisterBankTable, RegisterBits, DataView, ArchData, NotificationSource"; h.stub = "none";
    h.assumptions = {"shifts by the width of the value or more are left out", "dmi accesses stay inside the register"};
    h.quick_runs = 40000; h.thorough_runs = 3000000; h.gen = gen; h.run = runWorld<RW>; return h; }());
} // namespace
