// sse: a small symbolic execution engine for LLVM IR.
//
// It executes the bitcode that clang produced from the real sources, keeps
// every harness input as a bit-vector variable, forks at each branch both
// sides of which the SMT solver (z3) finds feasible, and asks the solver for
// every assertion, memory access and feasibility question over *all* values
// that follow the current path.  Schedules of harness threads and environment
// faults are choices explored the same way.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <map>
#include <set>
#include <memory>
#include <deque>
#include <chrono>
#include <cstring>
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>

using namespace llvm;

static double now()
{
	using namespace std::chrono;
	return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- options
static uint64_t optMaxInstr = 3000000;	// per path
static double optMaxTime = 600, tStart;
static unsigned optWorkers = 1;
static unsigned optQueryMs = 60000;
static unsigned optPreempt = 1000;
static unsigned optMaxViol = 3;
static unsigned optSamples = 6;
static unsigned optSeed = 1;
static unsigned optMaxEnum = 4096;
static uint64_t optMemMb = 6000;
static std::string optRepo = "/repo/";
static bool optVerbose = false;

// ---------------------------------------------------------------- stats
struct Stats {
	uint64_t paths = 0, killed = 0, forks = 0, instrs = 0, queries = 0,
		 qsat = 0, qunsat = 0, qunknown = 0, lia = 0, qcache = 0, obligations = 0,
		 memchecks = 0, schedForks = 0, pathsBudget = 0, maxDepth = 0, merged = 0, points = 0;
	double solver = 0;
};
static Stats st;
static std::map<std::string, uint64_t> incomplete;	// reason -> count
static std::map<std::string, uint64_t> witnesses;
static std::map<std::string, uint64_t> funcsRun;	// "file:function" -> calls
struct Violation {
	std::string kind, msg, loc, stack;
	std::vector<uint64_t> inputs;
	std::vector<int> sched;
	std::vector<std::pair<std::string, uint64_t>> log;
};
static std::vector<Violation> violations;
struct Sample {
	std::vector<uint64_t> inputs;
	std::vector<int> sched;
	std::vector<std::pair<std::string, uint64_t>> log;
};
static std::vector<Sample> samples;
static uint64_t sampleSeen;
struct Shared { volatile uint64_t next; volatile uint64_t stop; volatile int active; };
static Shared *shared;
// Table of visited states (128-bit digests), shared by the workers.
struct Dig { uint64_t a, b; };
static Dig *visited;
static uint64_t visitedCap = 1ull << 24, visitedFull;
static bool visitInsert(uint64_t a, uint64_t b)	// true when already there
{
	if (a == 0) a = 1;
	uint64_t i = a & (visitedCap - 1);
	for (unsigned k = 0; k < 64; k++, i = (i + 1) & (visitedCap - 1)) {
		uint64_t x = __atomic_load_n(&visited[i].a, __ATOMIC_ACQUIRE);
		if (x == 0) {
			if (__atomic_compare_exchange_n(&visited[i].a, &x, a, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE)) {
				__atomic_store_n(&visited[i].b, b, __ATOMIC_RELEASE);
				return false;
			}
		}
		if (x == a) {
			uint64_t y = __atomic_load_n(&visited[i].b, __ATOMIC_ACQUIRE);
			if (y == b) return true;
			if (y == 0) return false;	// being inserted: explore anyway
		}
	}
	visitedFull++;
	return false;
}

// ---------------------------------------------------------------- solver
static Z3_context zc;
static Z3_solver zs, zs2;
static void setTimeout(Z3_solver x, unsigned ms)
{
	Z3_params p = Z3_mk_params(zc);
	Z3_params_inc_ref(zc, p);
	Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), ms);
	Z3_solver_set_params(zc, x, p);
	Z3_params_dec_ref(zc, p);
}
static std::vector<Z3_ast> zast;

static Z3_sort bvSort(unsigned w)
{
	static std::map<unsigned, Z3_sort> m;
	auto it = m.find(w);
	if (it != m.end()) return it->second;
	Z3_sort r = Z3_mk_bv_sort(zc, w);
	Z3_inc_ref(zc, Z3_sort_to_ast(zc, r));
	return m[w] = r;
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast bit(unsigned v)
{
	static Z3_ast b[2];
	if (!b[v]) b[v] = keep(Z3_mk_unsigned_int64(zc, v, bvSort(1)));
	return b[v];
}
static Z3_ast toBool(E e);
static Z3_ast toZ3(E e)
{
	if (zast.size() <= e->id) zast.resize(allExprs.size() + 1024, nullptr);
	if (zast[e->id]) return zast[e->id];
	Z3_ast r = 0;
	if (e->w == 1 && e->k != K_Const && e->k != K_Var && e->k != K_Extract) {
		r = keep(Z3_mk_ite(zc, toBool(e), bit(1), bit(0)));
		zast[e->id] = r;
		return r;
	}
	Z3_ast a[3] = {0, 0, 0};
	for (int i = 0; i < 3; i++) if (e->a[i] && !(e->k == K_Ite && i == 0)) a[i] = toZ3(e->a[i]);
	Z3_sort bv = bvSort(e->w);
	switch (e->k) {
	case K_Const:
		if (e->w <= 64) r = Z3_mk_unsigned_int64(zc, (uint64_t)e->c, bv);
		else {
			Z3_ast hi = keep(Z3_mk_unsigned_int64(zc, (uint64_t)(e->c >> 64), bvSort(e->w - 64)));
			Z3_ast lo = keep(Z3_mk_unsigned_int64(zc, (uint64_t)e->c, bvSort(64)));
			r = Z3_mk_concat(zc, hi, lo);
		}
		break;
	case K_Var: {
		std::string n = "v" + std::to_string((uint64_t)e->c);
		r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bv);
		break; }
	case K_Add: r = Z3_mk_bvadd(zc, a[0], a[1]); break;
	case K_Sub: r = Z3_mk_bvsub(zc, a[0], a[1]); break;
	case K_Mul: r = Z3_mk_bvmul(zc, a[0], a[1]); break;
	case K_UDiv: r = Z3_mk_bvudiv(zc, a[0], a[1]); break;
	case K_SDiv: r = Z3_mk_bvsdiv(zc, a[0], a[1]); break;
	case K_URem: r = Z3_mk_bvurem(zc, a[0], a[1]); break;
	case K_SRem: r = Z3_mk_bvsrem(zc, a[0], a[1]); break;
	case K_And: r = Z3_mk_bvand(zc, a[0], a[1]); break;
	case K_Or: r = Z3_mk_bvor(zc, a[0], a[1]); break;
	case K_Xor: r = Z3_mk_bvxor(zc, a[0], a[1]); break;
	case K_Shl: r = Z3_mk_bvshl(zc, a[0], a[1]); break;
	case K_LShr: r = Z3_mk_bvlshr(zc, a[0], a[1]); break;
	case K_AShr: r = Z3_mk_bvashr(zc, a[0], a[1]); break;
	case K_ZExt: r = Z3_mk_zero_ext(zc, e->w - e->a[0]->w, a[0]); break;
	case K_SExt: r = Z3_mk_sign_ext(zc, e->w - e->a[0]->w, a[0]); break;
	case K_Extract: r = Z3_mk_extract(zc, (unsigned)e->c + e->w - 1, (unsigned)e->c, a[0]); break;
	case K_Concat: r = Z3_mk_concat(zc, a[0], a[1]); break;
	case K_Ite: r = Z3_mk_ite(zc, toBool(e->a[0]), a[1], a[2]); break;
	default: abort();
	}
	Z3_inc_ref(zc, r);
	if (zast.size() <= e->id) zast.resize(allExprs.size() + 1024, nullptr);
	zast[e->id] = r;
	return r;
}

// a 1-bit expression as a z3 boolean
static std::unordered_map<E, Z3_ast> zbool;
static Z3_ast toBool(E e)
{
	auto it = zbool.find(e);
	if (it != zbool.end()) return it->second;
	Z3_ast r;
	auto A = [&](int i) { return toZ3(e->a[i]); };
	auto B = [&](int i) { return toBool(e->a[i]); };
	switch (e->k) {
	case K_Const: r = e->c ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
	case K_Ult: r = Z3_mk_bvult(zc, A(0), A(1)); break;
	case K_Ule: r = Z3_mk_bvule(zc, A(0), A(1)); break;
	case K_Slt: r = Z3_mk_bvslt(zc, A(0), A(1)); break;
	case K_Sle: r = Z3_mk_bvsle(zc, A(0), A(1)); break;
	case K_Eq: r = e->a[0]->w == 1 ? Z3_mk_iff(zc, B(0), B(1)) : Z3_mk_eq(zc, A(0), A(1)); break;
	case K_And: { Z3_ast x[2] = {B(0), B(1)}; r = Z3_mk_and(zc, 2, x); break; }
	case K_Or: { Z3_ast x[2] = {B(0), B(1)}; r = Z3_mk_or(zc, 2, x); break; }
	case K_Xor: case K_Add: case K_Sub:
		if (e->k == K_Xor && e->a[1]->isConst()) r = e->a[1]->c ? Z3_mk_not(zc, B(0)) : B(0);
		else r = Z3_mk_xor(zc, B(0), B(1));
		break;
	case K_Ite: r = Z3_mk_ite(zc, B(0), B(1), B(2)); break;
	case K_Var: case K_Extract: r = Z3_mk_eq(zc, toZ3(e), bit(1)); break;
	default:
		fprintf(stderr, "1-bit expression of kind %d\n", (int)e->k);
		abort();
	}
	keep(r);
	zbool[e] = r;
	return r;
}
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const {
	uint64_t h = v.size(); for (auto x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
struct QRes { int res; Model m; };
static std::unordered_map<std::vector<uint32_t>, QRes, VecHash> qcache;
static FILE *smtDump;
static uint64_t smtDumped;

static void initZ3()
{
	Z3_config cfg = Z3_mk_config();
	Z3_set_param_value(cfg, "model", "true");
	zc = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(zc, [](Z3_context c, Z3_error_code e) {
		fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); if (getenv("SSE_ABORT")) abort(); _exit(3); });
	{
		Z3_tactic t = Z3_mk_tactic(zc, "smt");
		Z3_tactic_inc_ref(zc, t);
		zs = Z3_mk_solver_from_tactic(zc, t);
	}
	Z3_solver_inc_ref(zc, zs);
	zs2 = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
	Z3_solver_inc_ref(zc, zs2);
}

// Decide cs /\ q; vars of the model outside the slice keep their value in m.
// returns 1 sat, 0 unsat, -1 unknown
// The low four bits of a variable's id give its width.
static const unsigned varWidths[16] = {1, 4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 52, 56, 64};
#include "lia.inc"
static void shareWork(bool inPath);
static int checkSat(const std::vector<E> &cs, E q, Model *m)
{
	if (q->isConst()) return q->c ? 1 : 0;
	// independence slice
	std::vector<E> sl;
	std::vector<char> used(cs.size(), 0);
	std::vector<uint32_t> vs(*q->vars);
	bool grown = true;
	while (grown) {
		grown = false;
		for (size_t i = cs.size(); i-- > 0;) {
			if (used[i]) continue;
			auto &cv = *cs[i]->vars;
			bool hit = false;
			for (auto v : cv) if (std::binary_search(vs.begin(), vs.end(), v)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1;
			sl.push_back(cs[i]);
			size_t before = vs.size();
			std::vector<uint32_t> nv;
			std::set_union(vs.begin(), vs.end(), cv.begin(), cv.end(), std::back_inserter(nv));
			vs.swap(nv);
			if (vs.size() != before) grown = true;
		}
	}
	std::vector<uint32_t> key;
	for (E c : sl) key.push_back(c->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(q->id);
	auto it = qcache.find(key);
	if (it != qcache.end()) {
		st.qcache++;
		if (it->second.res == 1 && m)
			for (auto v : vs) { if (m->size() <= v) m->resize(v + 1, 0); (*m)[v] = v < it->second.m.size() ? it->second.m[v] : 0; }
		return it->second.res;
	}
	double t0 = now();
	st.queries++;
	for (E c : sl) Z3_solver_assert(zc, zs, toBool(c));
	Z3_solver_assert(zc, zs, toBool(q));
	if (smtDump && smtDumped < 200) {
		smtDumped++;
		fprintf(smtDump, ";; query %lu\n(push 1)\n%s(check-sat)\n", (unsigned long)smtDumped, Z3_solver_to_string(zc, zs));
	}
	double left = tStart + optMaxTime + 2 - now();
	unsigned ms = left < 1 ? 1000 : left * 1000 < optQueryMs ? (unsigned)(left * 1000) : optQueryMs;
	// linear integer arithmetic where the query is in that fragment, the lazy
	// bit-vector solver, then the eager one for the rest of the time
	QRes qr;
	Z3_solver zu = zs;
	int lia = liaSolve(sl, q, vs, qr.m, ms);
	if (lia >= 0) st.lia++;
	Z3_lbool r = lia == 1 ? Z3_L_TRUE : lia == 0 ? Z3_L_FALSE : Z3_L_UNDEF;
	if (lia == -2) {
		setTimeout(zs, 300);
		r = Z3_solver_check(zc, zs);
	}
	if (r == Z3_L_UNDEF && left > 1) {
		zu = zs2;
		for (E c : sl) Z3_solver_assert(zc, zs2, toBool(c));
		Z3_solver_assert(zc, zs2, toBool(q));
		setTimeout(zs2, ms);
		r = Z3_solver_check(zc, zs2);
	}
	int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	if (smtDump && smtDumped < 200)
		fprintf(smtDump, ";; answer %d\n(pop 1)\n", res), fflush(smtDump);
	qr.res = res;
	if (res == 1 && lia == 1) {
		st.qsat++;
	} else if (res == 1) {
		st.qsat++;
		Z3_model zm = Z3_solver_get_model(zc, zu);
		Z3_model_inc_ref(zc, zm);
		for (auto v : vs) {
			static const unsigned vw[16] = {1, 4, 8, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 52, 56, 64};
			E ve = mkVar(v, vw[v & 15]);
			Z3_ast val = 0;
			uint64_t x = 0;
			if (ve && Z3_model_eval(zc, zm, toZ3(ve), true, &val) && val)
				Z3_get_numeral_uint64(zc, val, &x);
			if (qr.m.size() <= v) qr.m.resize(v + 1, 0);
			qr.m[v] = x;
		}
		Z3_model_dec_ref(zc, zm);
	} else if (res == 0) st.qunsat++;
	else st.qunknown++;
	if (res == 1 && m)
		for (auto v : vs) { if (m->size() <= v) m->resize(v + 1, 0); (*m)[v] = qr.m[v]; }
	double dt = now() - t0;
	if (dt > 1 && getenv("SSE_SLOW")) {
		static int n;
		FILE *f = fopen((std::string(getenv("SSE_SLOW")) + std::to_string(getpid()) + "." + std::to_string(n++)).c_str(), "w");
		fprintf(f, "; %f %d\n(set-logic QF_BV)\n%s(check-sat)\n", dt, res, Z3_solver_to_string(zc, zs));
		fclose(f);
	}
	Z3_solver_reset(zc, zs);
	if (zu == zs2) Z3_solver_reset(zc, zs2);
	st.solver += dt;
	if (optVerbose && dt > 2) fprintf(stderr, "slow query %.1fs res %d\n", dt, res);
	if (qcache.size() > 400000) qcache.clear();
	qcache.emplace(std::move(key), std::move(qr));
	if (dt > 0.2) shareWork(true);
	return res;
}

// ---------------------------------------------------------------- values
struct RV {
	uint64_t c = 0;
	E e = nullptr;		// symbolic (or wide constant)
	std::vector<RV> *agg = nullptr;
};
static inline E toE(const RV &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline RV fromE(E e)
{
	RV r;
	if (e->isConst() && e->w <= 64) r.c = (uint64_t)e->c;
	else r.e = e;
	return r;
}
static inline RV rvc(uint64_t c) { RV r; r.c = c; return r; }

// ---------------------------------------------------------------- memory
enum { PG = 256 };
struct Page {
	uint8_t data[PG];
	uint8_t tag[PG];	// 0 concrete, 1 uninit, 2 symbolic
	uint8_t poison[PG];	// bit0 asan poison, bit1 harness protection
	E *sym = nullptr;	// whole expression
	uint8_t *idx = nullptr;	// byte index in it
	bool hv = false;	// digest below is current
	bool hasSym = false;
	uint64_t h0 = 0, h1 = 0;
	Page(uint8_t t) { memset(data, 0, PG); memset(tag, t, PG); memset(poison, 0, PG); }
	Page(const Page &o) {
		memcpy(data, o.data, PG); memcpy(tag, o.tag, PG); memcpy(poison, o.poison, PG);
		if (o.sym) {
			sym = new E[PG]; idx = new uint8_t[PG];
			memcpy(sym, o.sym, sizeof(E) * PG); memcpy(idx, o.idx, PG);
		}
	}
	~Page() { delete[] sym; delete[] idx; }
	void setSym(unsigned i, E e, unsigned ix) {
		if (!sym) { sym = new E[PG]; idx = new uint8_t[PG]; }
		sym[i] = e; idx[i] = ix; tag[i] = 2;
	}
};
typedef std::shared_ptr<Page> PageP;
enum ObjKind : uint8_t { O_GLOBAL, O_STACK, O_HEAP, O_RAW, O_FUNC };
struct Obj {
	uint64_t base, size;	// size: reserved extent
	E symSize = nullptr;	// 64-bit expression when the size is symbolic
	ObjKind kind;
	bool alive = true, shared = false, ro = false;
	uint8_t init;		// tag of fresh pages: 0 zero, 1 uninit
	uint32_t seq;
	std::vector<PageP> pages;
	std::unordered_map<uint64_t, PageP> sparse;
	std::string name;
	bool isSparse() const { return size > (1u << 20); }
	Page *ro_page(uint64_t n) const {
		if (isSparse()) { auto it = sparse.find(n); return it == sparse.end() ? nullptr : it->second.get(); }
		return n < pages.size() ? pages[n].get() : nullptr;
	}
	Page *rw_page(uint64_t n) {
		PageP *p;
		if (isSparse()) p = &sparse[n];
		else { if (pages.size() <= n) pages.resize(n + 1); p = &pages[n]; }
		if (!*p) *p = std::make_shared<Page>(init);
		else if (p->use_count() > 1) *p = std::make_shared<Page>(**p);
		(*p)->hv = false;
		return p->get();
	}
};
typedef std::shared_ptr<Obj> ObjP;

// ---------------------------------------------------------------- code
enum OpC : uint8_t {
	I_Bin, I_ICmp, I_FBin, I_FCmp, I_Cast, I_GEP, I_Load, I_Store, I_Alloca, I_Br, I_CondBr,
	I_Switch, I_Ret, I_Call, I_Select, I_Unreachable, I_CmpXchg, I_RMW, I_Fence,
	I_Extract, I_Insert, I_Freeze, I_Bad, I_FNeg
};
struct Operand { int slot = -1; RV v; };
struct PhiMove { int dst; Operand src; };
struct Edge { int target; std::vector<PhiMove> moves; };
struct Func;
struct DInst {
	OpC op; uint8_t sub = 0; bool atomic = false;
	uint16_t w = 0, w2 = 0;
	int dst = -1;
	std::vector<Operand> ops;
	std::vector<uint64_t> imm;
	std::vector<Edge> edges;
	Func *callee = nullptr;
	std::string ext;	// external name
	int extId = -1;
	const Instruction *I;
};
struct Func {
	Function *F;
	std::vector<DInst> code;
	int nslots = 0, nargs = 0;
	bool asan = false, always = false, inRepo = false;
	std::string file;
	uint64_t addr = 0;
	uint64_t calls = 0;
	std::vector<int> bbOf;				// pc -> block
	std::vector<int> bbFirst;			// block -> pc
	std::vector<std::vector<char>> liveIn;		// block -> slots
	std::unordered_map<int, std::vector<int>> liveAt;	// pc -> slots
};
struct Frame {
	Func *f; int pc = 0; uint64_t sbase = 0; std::vector<RV> regs; std::vector<uint64_t> allocas; int ret = -1; unsigned retw = 0; bool asan = false;
};
enum TState : uint8_t { T_RUN, T_JOIN, T_DONE };
struct Thread { std::vector<Frame> fr; uint64_t sp = 0; TState state = T_RUN; bool skipSched = false; int wantYield = 0; std::vector<uint64_t> tls; };

struct State {
	std::vector<ObjP> objs;		// sorted by base
	std::vector<E> cons;
	Model model;
	std::vector<Thread> th;
	int cur = 0;
	unsigned preempts = 0;
	uint64_t bump = 0x100000000ull, big = 0x100000000000ull;
	uint32_t seq = 0, depth = 0;
	uint32_t nvars = 0;
	std::vector<E> inputs;
	std::vector<int> sched;
	std::vector<std::pair<std::string, E>> log;
	uint64_t instrs = 0;
	std::map<uint64_t, std::vector<uint64_t>> tls;	// per thread copies
};
typedef std::unique_ptr<State> SP;
static std::deque<SP> queue;

static Module *M;
static const DataLayout *DL;
static std::unordered_map<const Function *, Func *> funcs;
static std::unordered_map<uint64_t, Func *> funcAt;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr;
static std::vector<const GlobalVariable *> tlsVars;
static void initGlobal(State &s, uint64_t base, const Constant *C, uint64_t off);
static std::unordered_map<std::string, int> extIds;
static std::vector<std::string> extNames;

static std::string locOf(const Instruction *I)
{
	if (!I) return "?";
	if (const DebugLoc &dl = I->getDebugLoc()) {
		auto *sc = cast<DIScope>(dl.getScope());
		std::string f = sc->getFilename().str();
		return f + ":" + std::to_string(dl.getLine());
	}
	return I->getFunction()->getName().str();
}

struct PathEnd { };	// thrown to end the current path
[[noreturn]] static void endPath();
static SP cur;

// -fno-exceptions is llvm's flag; we compile with exceptions enabled.
[[noreturn]] static void endPath() { throw PathEnd(); }

static void markIncomplete(const std::string &why)
{
	incomplete[why]++;
	endPath();
}

static std::string stackOf(State &s)
{
	std::string r;
	auto &fr = s.th[s.cur].fr;
	for (size_t i = fr.size(); i-- > 0;) {
		int pc = fr[i].pc;
		if (i + 1 != fr.size()) pc--;
		if (pc < 0) pc = 0;
		r += fr[i].f->F->getName().str() + "(" + locOf(fr[i].f->code[pc].I) + ") ";
	}
	return r;
}

static void report(const std::string &kind, const std::string &msg, const Model &m, bool end)
{
	State &s = *cur;
	Violation v;
	v.kind = kind; v.msg = msg;
	auto &fr = s.th[s.cur].fr.back();
	v.loc = locOf(fr.f->code[fr.pc].I);
	v.stack = stackOf(s);
	bool dup = false;
	for (auto &o : violations) if (o.kind == v.kind && o.loc == v.loc && o.msg == v.msg) dup = true;
	if (!dup) {
		for (E e : s.inputs) v.inputs.push_back((uint64_t)evalExpr(e, m));
		v.sched = s.sched;
		for (auto &l : s.log) v.log.push_back({l.first, (uint64_t)evalExpr(l.second, m)});
		violations.push_back(v);
		if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s\n   %s\n", kind.c_str(), msg.c_str(), v.loc.c_str(), v.stack.c_str());
		if (violations.size() >= optMaxViol) shared->stop = 1;
	}
	if (end) endPath();
}

static void addCons(State &s, E c)
{
	if (c->isConst()) return;
	if (c->k == K_And && c->w == 1) { addCons(s, c->a[0]); addCons(s, c->a[1]); return; }
	s.cons.push_back(c);
}

static uint64_t modelVal(E e) { return (uint64_t)evalExpr(e, cur->model); }

static int query(E q, Model *m)
{
	int r = checkSat(cur->cons, q, m);
	return r;
}

static bool passedSched;	// the running instruction already had its scheduling point
static std::map<std::string, uint64_t> forkAt;	// tuning aid: SSE_FORKS=FILE
static const char *forkFile = getenv("SSE_FORKS");
static SP cloneState(State &s)
{
	st.forks++;
	if (forkFile) forkAt[stackOf(s)]++;
	SP t(new State(s));
	if (passedSched) t->th[t->cur].skipSched = true;
	return t;
}

// Fork on condition; the current state continues with the value returned.
// The forked twin re-executes the current instruction with the constraint
// already added.
static bool forkCond(E c)
{
	if (c->isConst()) return (bool)c->c;
	State &s = *cur;
	bool v = evalExpr(c, s.model) != 0;
	E other = v ? mkNot(c) : c;
	Model m2 = s.model;
	int r = query(other, &m2);
	if (r < 0) { incomplete["solver-unknown"]++; }
	if (r == 1) {
		SP t = cloneState(s);
		addCons(*t, other);
		t->model = std::move(m2);
		t->depth++;
		queue.push_back(std::move(t));
		s.depth++;
		addCons(s, v ? c : mkNot(c));
	}
	return v;
}

static void assume(E c)
{
	State &s = *cur;
	if (c->isConst()) { if (!c->c) { st.killed++; endPath(); } return; }
	if (evalExpr(c, s.model) == 0) {
		Model m2 = s.model;
		int r = query(c, &m2);
		if (r < 0) markIncomplete("solver-unknown");
		if (r == 0) { st.killed++; endPath(); }
		s.model = std::move(m2);
	}
	addCons(s, c);
}

// Concretise by exploring every feasible value.
static uint64_t concretize(E e, const char *what)
{
	if (e->isConst()) return (uint64_t)e->c;
	State &s = *cur;
	uint64_t v = modelVal(e);
	E eq = mkBin(K_Eq, e, mkConst(v, e->w));
	Model m2 = s.model;
	E ne = mkNot(eq);
	int r = query(ne, &m2);
	if (r < 0) incomplete["solver-unknown"]++;
	if (r == 1) {
		SP t = cloneState(s);
		addCons(*t, ne);
		t->model = std::move(m2);
		t->depth++;
		if (t->depth > 20000) { incomplete[std::string("enumeration of ") + what]++; }
		else queue.push_back(std::move(t));
		s.depth++;
		addCons(s, eq);
	}
	return v;
}

// ---------------------------------------------------------------- objects
static int findObjIdx(State &s, uint64_t a)
{
	auto it = std::upper_bound(s.objs.begin(), s.objs.end(), a, [](uint64_t x, const ObjP &o) { return x < o->base; });
	if (it == s.objs.begin()) return -1;
	--it;
	if (a - (*it)->base < (*it)->size || ((*it)->size == 0 && a == (*it)->base)) return it - s.objs.begin();
	return -1;
}
static Obj *rwObj(State &s, int i)
{
	if (s.objs[i].use_count() > 1) s.objs[i] = std::make_shared<Obj>(*s.objs[i]);
	return s.objs[i].get();
}
static uint64_t newObj(State &s, uint64_t size, uint64_t align, ObjKind k, uint8_t init, E symSize = nullptr)
{
	auto o = std::make_shared<Obj>();
	if (align < 16) align = 16;
	uint64_t *b = (size > (1u << 20)) ? &s.big : &s.bump;
	if (k == O_STACK) b = &s.th[s.cur].sp;
	*b = (*b + 64 + align - 1) & ~(align - 1);
	o->base = *b; o->size = size; o->kind = k; o->init = init; o->symSize = symSize;
	*b += size + 64;
	o->seq = s.seq++;
	auto it = std::upper_bound(s.objs.begin(), s.objs.end(), o->base, [](uint64_t x, const ObjP &p) { return x < p->base; });
	s.objs.insert(it, o);
	return o->base;
}

static E freshVar(State &s, unsigned w)
{
	unsigned i = 0;
	while (varWidths[i] < w) i++;
	return mkVar(s.nvars++ * 16 + i, varWidths[i]);
}

// Returns the object index for a concrete address access; reports a violation
// when it is not valid for every value on the path.
static int accessObj(uint64_t a, uint64_t n, bool write, bool asanFn)
{
	State &s = *cur;
	st.memchecks++;
	int i = findObjIdx(s, a);
	if (i < 0) {
		char b[128];
		snprintf(b, sizeof(b), "invalid %s of %lu bytes", write ? "write" : "read", (unsigned long)n);
		report(a < 4096 ? "null-deref" : "out-of-bounds", b, s.model, true);
	}
	Obj *o = s.objs[i].get();
	if (!o->alive) report("use-after-free", write ? "write" : "read", s.model, true);
	uint64_t off = a - o->base;
	if (o->symSize) {
		E ok = mkBin(K_Ule, mkConst(off + n, 64), o->symSize);
		if (!ok->isConst() || !ok->c) {
			Model m2 = s.model;
			int r = query(mkNot(ok), &m2);
			if (r < 0) incomplete["solver-unknown"]++;
			if (r == 1) {
				report("out-of-bounds", "beyond the end of a heap object", m2, false);
				assume(ok);
			}
		}
	} else if (off + n > o->size) {
		report("out-of-bounds", "beyond the end of an object", s.model, true);
	}
	if (write && o->ro) report("write-to-const", o->name, s.model, true);
	// poison
	for (uint64_t k = 0; k < n;) {
		uint64_t pg = (off + k) / PG, po = (off + k) % PG;
		uint64_t run = std::min<uint64_t>(PG - po, n - k);
		Page *p = o->ro_page(pg);
		if (p)
			for (uint64_t j = 0; j < run; j++)
				if (p->poison[po + j] & (asanFn ? 3 : 2))
					report((p->poison[po + j] & 2) ? "use-of-protected-memory" : "use-of-poisoned-memory",
					       write ? "write" : "read", s.model, true);
		k += run;
	}
	return i;
}

static E byteE(Page *p, unsigned i)
{
	E w = p->sym[i];
	return mkExtract(w, 8 * p->idx[i], 8);
}

static RV loadBytes(uint64_t a, unsigned n, unsigned w, bool asanFn)
{
	State &s = *cur;
	int oi = accessObj(a, n, false, asanFn);
	Obj *o = s.objs[oi].get();
	uint64_t off = a - o->base;
	bool conc = true, needInit = false;
	uint64_t v = 0;
	for (unsigned k = 0; k < n; k++) {
		Page *p = o->ro_page((off + k) / PG);
		unsigned po = (off + k) % PG;
		uint8_t t = p ? p->tag[po] : o->init;
		if (t == 0) { if (p && k < 8) v |= (uint64_t)p->data[po] << (8 * k); }
		else { conc = false; if (t == 1) needInit = true; }
	}
	if (conc && n <= 8) return rvc(w < 64 ? v & ((1ull << w) - 1) : v);
	if (needInit) {
		// reading an uninitialised byte: an arbitrary value, fixed once read
		o = rwObj(s, oi);
		bool all = true;
		for (unsigned k = 0; k < n; k++) {
			Page *p = o->rw_page((off + k) / PG);
			if (p->tag[(off + k) % PG] != 1) all = false;
		}
		if (all && n <= 8) {
			E x = freshVar(s, 8 * n);
			for (unsigned k = 0; k < n; k++) o->rw_page((off + k) / PG)->setSym((off + k) % PG, x, k);
		} else for (unsigned k = 0; k < n; k++) {
			Page *p = o->rw_page((off + k) / PG);
			if (p->tag[(off + k) % PG] == 1) p->setSym((off + k) % PG, freshVar(s, 8), 0);
		}
	}
	// whole expression?
	{
		Page *p = o->ro_page(off / PG);
		unsigned po = off % PG;
		if (p && p->tag[po] == 2) {
			E wh = p->sym[po];
			unsigned i0 = p->idx[po];
			bool same = (i0 + n) * 8 <= wh->w;
			for (unsigned k = 1; same && k < n; k++) {
				Page *q = o->ro_page((off + k) / PG);
				unsigned qo = (off + k) % PG;
				if (!q || q->tag[qo] != 2 || q->sym[qo] != wh || q->idx[qo] != i0 + k) same = false;
			}
			if (same) {
				E r = mkExtract(wh, 8 * i0, 8 * n);
				return fromE(mkExtract(r, 0, w));
			}
		}
	}
	E r = nullptr;
	for (unsigned k = 0; k < n; k++) {
		Page *p = o->ro_page((off + k) / PG);
		unsigned po = (off + k) % PG;
		E b = !p || p->tag[po] == 0 ? mkConst(p ? p->data[po] : 0, 8) : byteE(p, po);
		r = r ? mkConcat(b, r) : b;
	}
	return fromE(mkExtract(r, 0, w));
}

static void storeBytes(uint64_t a, const RV &v, unsigned n, unsigned w, bool asanFn)
{
	State &s = *cur;
	int oi = accessObj(a, n, true, asanFn);
	Obj *o = rwObj(s, oi);
	uint64_t off = a - o->base;
	if (!v.e) {
		uint64_t c = w < 64 ? v.c & ((1ull << w) - 1) : v.c;
		for (unsigned k = 0; k < n; k++) {
			Page *p = o->rw_page((off + k) / PG);
			unsigned po = (off + k) % PG;
			p->data[po] = k < 8 ? c >> (8 * k) : 0; p->tag[po] = 0;
		}
		return;
	}
	E e = mkZExt(v.e, 8 * n);
	for (unsigned k = 0; k < n; k++) {
		Page *p = o->rw_page((off + k) / PG);
		E b = mkExtract(e, 8 * k, 8);
		unsigned po = (off + k) % PG;
		(void)b;
		p->setSym(po, e, k);
	}
}

// ---- symbolic addresses -------------------------------------------------
// A load/store whose address is symbolic: every feasible address is explored
// as a separate path (the solver enumerates them); reads inside one small
// object are merged into an if-then-else chain instead.
static uint64_t resolveAddr(E a) { return concretize(a, "address"); }

static bool symRead(E a, unsigned n, unsigned w, bool asanFn, RV &out)
{
	State &s = *cur;
	uint64_t v = modelVal(a);
	int oi = findObjIdx(s, v);
	if (oi < 0) return false;
	Obj *o = s.objs[oi].get();
	if (!o->alive || o->symSize || o->size > 512 || n > 8 || o->size < n) return false;
	// must stay inside the object
	E rel = mkBin(K_Sub, a, mkConst(o->base, 64));
	E in = mkBin(K_Ule, rel, mkConst(o->size - n, 64));
	Model m2 = s.model;
	if (query(mkNot(in), &m2) != 0) return false;
	// stride: known low zero bits
	std::vector<uint64_t> offs;
	unsigned stride = n;
	E mis = mkNot(mkBin(K_Eq, mkExtract(rel, 0, n == 1 ? 1 : n == 2 ? 1 : n == 4 ? 2 : 3), mkConst(0, n == 1 ? 1 : n == 2 ? 1 : n == 4 ? 2 : 3)));
	if (n == 1) stride = 1;
	else { m2 = s.model; if (query(mis, &m2) != 0) stride = 1; }
	if (o->size / stride > 128) return false;
	E r = nullptr;
	for (uint64_t off = 0; off + n <= o->size; off += stride) {
		// reading must not touch poison / uninit bytes specially
		for (unsigned k = 0; k < n; k++) {
			Page *p = o->ro_page((off + k) / PG);
			if (p ? (p->tag[(off + k) % PG] == 1 || p->poison[(off + k) % PG]) : o->init == 1) return false;
		}
	}
	for (uint64_t off = 0; off + n <= o->size; off += stride) {
		E x = toE(loadBytes(o->base + off, n, w, asanFn), w);
		o = s.objs[oi].get();
		r = r ? mkIte(mkBin(K_Eq, rel, mkConst(off, 64)), x, r) : x;
	}
	out = fromE(r);
	return true;
}

// A store to a symbolic address inside one small object (--sym-write): every
// place that it may hit becomes an if-then-else of the old and the new value.
static bool optSymWrite;
static bool symWrite(E a, const RV &v, unsigned n, unsigned w, bool asanFn)
{
	State &s = *cur;
	if (!optSymWrite || n > 8 || w != 8 * n) return false;
	int oi = findObjIdx(s, modelVal(a));
	if (oi < 0) return false;
	Obj *o = s.objs[oi].get();
	if (!o->alive || o->ro || o->symSize || o->size > 512 || o->size < n) return false;
	uint64_t base = o->base, size = o->size;
	E rel = mkBin(K_Sub, a, mkConst(base, 64));
	Model m2 = s.model;
	if (query(mkNot(mkBin(K_Ule, rel, mkConst(size - n, 64))), &m2) != 0) return false;
	if (n > 1) {
		unsigned b = n == 2 ? 1 : n == 4 ? 2 : 3;
		m2 = s.model;
		if (query(mkNot(mkBin(K_Eq, mkExtract(rel, 0, b), mkConst(0, b))), &m2) != 0) return false;
	}
	if (size / n > 128) return false;
	for (uint64_t k = 0; k < size; k++) {
		Page *p = o->ro_page(k / PG);
		if (p && p->poison[k % PG]) return false;
	}
	for (uint64_t off = 0; off + n <= size; off += n) {
		E c = mkBin(K_Eq, rel, mkConst(off, 64));
		if (c->isConst() && !c->c) continue;
		E old = toE(loadBytes(base + off, n, w, asanFn), w);
		storeBytes(base + off, fromE(mkIte(c, toE(v, w), old)), n, w, asanFn);
	}
	return true;
}

static std::string readCStr(uint64_t a)
{
	std::string r;
	State &s = *cur;
	for (int i = 0; i < 400; i++) {
		int oi = findObjIdx(s, a + i);
		if (oi < 0) break;
		Obj *o = s.objs[oi].get();
		uint64_t off = a + i - o->base;
		Page *p = o->ro_page(off / PG);
		char c = p ? p->data[off % PG] : 0;
		if (!c) break;
		r += c;
	}
	return r;
}

// copy n concrete bytes preserving symbolic contents
static void copyBytes(uint64_t d, uint64_t sa, uint64_t n, bool asanFn)
{
	if (!n) return;
	State &s = *cur;
	int si = accessObj(sa, n, false, asanFn);
	int di = accessObj(d, n, true, asanFn);
	Obj *so = s.objs[si].get();
	uint64_t soff = sa - so->base;
	std::vector<uint8_t> tag(n), dat(n), ix(n);
	std::vector<E> sy(n, nullptr);
	for (uint64_t k = 0; k < n; k++) {
		Page *p = so->ro_page((soff + k) / PG);
		unsigned po = (soff + k) % PG;
		tag[k] = p ? p->tag[po] : so->init;
		dat[k] = p ? p->data[po] : 0;
		if (tag[k] == 2) { sy[k] = p->sym[po]; ix[k] = p->idx[po]; }
	}
	Obj *o = rwObj(s, di);
	uint64_t off = d - o->base;
	for (uint64_t k = 0; k < n; k++) {
		Page *p = o->rw_page((off + k) / PG);
		unsigned po = (off + k) % PG;
		p->tag[po] = tag[k]; p->data[po] = dat[k];
		if (tag[k] == 2) p->setSym(po, sy[k], ix[k]);
	}
}
static void setBytes(uint64_t d, const RV &c, uint64_t n, bool asanFn)
{
	if (!n) return;
	State &s = *cur;
	int di = accessObj(d, n, true, asanFn);
	Obj *o = rwObj(s, di);
	uint64_t off = d - o->base;
	for (uint64_t k = 0; k < n;) {
		Page *p = o->rw_page((off + k) / PG);
		unsigned po = (off + k) % PG;
		unsigned run = std::min<uint64_t>(PG - po, n - k);
		if (!c.e) { memset(p->data + po, (int)c.c, run); memset(p->tag + po, 0, run); }
		else for (unsigned j = 0; j < run; j++) p->setSym(po + j, mkExtract(c.e, 0, 8), 0);
		k += run;
	}
}
static void poisonRange(uint64_t a, uint64_t n, uint8_t bit, bool on)
{
	State &s = *cur;
	if (!n) return;
	int oi = findObjIdx(s, a);
	if (oi < 0) report("out-of-bounds", "poisoning an unknown address", s.model, true);
	Obj *o = s.objs[oi].get();
	if (a - o->base + n > o->size) report("out-of-bounds", "poisoning beyond the end of an object", s.model, true);
	o = rwObj(s, oi);
	uint64_t off = a - o->base;
	for (uint64_t k = 0; k < n;) {
		uint64_t pg = (off + k) / PG; unsigned po = (off + k) % PG;
		unsigned run = std::min<uint64_t>(PG - po, n - k);
		Page *p = o->rw_page(pg);
		for (unsigned j = 0; j < run; j++) { if (on) p->poison[po + j] |= bit; else p->poison[po + j] &= ~bit; }
		k += run;
	}
}

// ---- digest of a state, to drop a path that reached a state already explored
static inline void mix2(uint64_t &a, uint64_t &b, uint64_t v)
{
	a = (a ^ v) * 0xff51afd7ed558ccdull; a ^= a >> 32;
	b = (b + v) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; b += a * 3;
}
static void pageDigest(Page *p)
{
	if (p->hv) return;
	uint64_t a = 0x243f6a8885a308d3ull, b = 0x13198a2e03707344ull;
	p->hasSym = false;
	for (unsigned i = 0; i < PG; i += 8) {
		uint64_t t, d, q;
		memcpy(&t, p->tag + i, 8); memcpy(&d, p->data + i, 8); memcpy(&q, p->poison + i, 8);
		if (t == 0) { mix2(a, b, d); mix2(a, b, q); continue; }
		mix2(a, b, t ^ 0x5555); mix2(a, b, q);
		for (unsigned j = i; j < i + 8; j++) {
			if (p->tag[j] == 0) mix2(a, b, p->data[j]);
			else if (p->tag[j] == 2) { p->hasSym = true; mix2(a, b, p->sym[j]->sh); mix2(a, b, p->idx[j]); }
		}
	}
	p->h0 = a; p->h1 = b; p->hv = true;
}
static void succs(Func *f, DInst &d, std::vector<std::pair<int, const Edge *>> &out)
{
	for (auto &e : d.edges) out.push_back({f->bbOf[e.target], &e});
}
// Slots that may still be read from pc on (backward data flow, phi-aware).
static const std::vector<int> &liveSlots(Func *f, int pc)
{
	auto it = f->liveAt.find(pc);
	if (it != f->liveAt.end()) return it->second;
	auto transfer = [&](std::vector<char> &l, int from, int to) {
		for (int i = to; i-- > from;) {
			DInst &d = f->code[i];
			if (d.dst >= 0) l[d.dst] = 0;
			for (auto &o : d.ops) if (o.slot >= 0) l[o.slot] = 1;
		}
	};
	auto liveOut = [&](int b, int end) {
		std::vector<char> l(f->nslots, 0);
		std::vector<std::pair<int, const Edge *>> ss;
		succs(f, f->code[end - 1], ss);
		for (auto &x : ss) {
			std::vector<char> y = f->liveIn[x.first];
			for (auto &m : x.second->moves) y[m.dst] = 0;
			for (auto &m : x.second->moves) if (m.src.slot >= 0) y[m.src.slot] = 1;
			for (int i = 0; i < f->nslots; i++) l[i] |= y[i];
		}
		return l;
	};
	auto endOf = [&](int b) { return b + 1 < (int)f->bbFirst.size() ? f->bbFirst[b + 1] : (int)f->code.size(); };
	if (f->liveIn.empty()) {
		f->liveIn.assign(f->bbFirst.size(), std::vector<char>(f->nslots, 0));
		bool ch = true;
		while (ch) {
			ch = false;
			for (int b = f->bbFirst.size(); b-- > 0;) {
				auto l = liveOut(b, endOf(b));
				transfer(l, f->bbFirst[b], endOf(b));
				if (l != f->liveIn[b]) { f->liveIn[b] = l; ch = true; }
			}
		}
	}
	int b = f->bbOf[pc];
	auto l = liveOut(b, endOf(b));
	transfer(l, pc, endOf(b));
	std::vector<int> r;
	for (int i = 0; i < f->nslots; i++) if (l[i]) r.push_back(i);
	return f->liveAt[pc] = r;
}
static bool seenState(State &s)
{
	uint64_t a = 1, b = 2;
	std::set<uint32_t> live;
	auto useE = [&](E e) { mix2(a, b, e->sh); for (auto v : *e->vars) live.insert(v); };
	for (auto &o : s.objs) {
		if (!o->alive) continue;
		if (o->ro && o->kind == O_GLOBAL) continue;
		mix2(a, b, o->base); mix2(a, b, o->size);
		if (o->symSize) useE(o->symSize);
		auto pg = [&](uint64_t n, Page *p) {
			pageDigest(p);
			mix2(a, b, n); mix2(a, b, p->h0); mix2(a, b, p->h1);
			if (p->hasSym) for (unsigned i = 0; i < PG; i++) if (p->tag[i] == 2) for (auto v : *p->sym[i]->vars) live.insert(v);
		};
		if (o->isSparse()) {
			std::map<uint64_t, Page *> m;
			for (auto &x : o->sparse) m[x.first] = x.second.get();
			for (auto &x : m) pg(x.first, x.second);
		} else for (size_t i = 0; i < o->pages.size(); i++) if (o->pages[i]) pg(i, o->pages[i].get());
	}
	mix2(a, b, s.cur); mix2(a, b, optPreempt < 1000 ? s.preempts : 0); mix2(a, b, s.bump); mix2(a, b, s.big);
	std::vector<RV> stk;
	for (auto &t : s.th) {
		mix2(a, b, t.state); mix2(a, b, t.skipSched); mix2(a, b, t.fr.size());
		for (auto &f : t.fr) {
			mix2(a, b, f.f->addr); mix2(a, b, f.pc);
			for (int sl : liveSlots(f.f, f.pc)) {
				RV &r = f.regs[sl];
				if (r.agg) for (auto &x : *r.agg) { if (x.e) useE(x.e); else mix2(a, b, x.c); }
				else if (r.e) useE(r.e); else mix2(a, b, r.c);
			}
			mix2(a, b, f.sbase);
		}
	}
	// constraints that mention a live variable, transitively
	bool grown = !live.empty();
	std::vector<char> used(s.cons.size(), 0);
	std::vector<uint64_t> hs;
	while (grown) {
		grown = false;
		for (size_t i = 0; i < s.cons.size(); i++) {
			if (used[i]) continue;
			bool hit = false;
			for (auto v : *s.cons[i]->vars) if (live.count(v)) { hit = true; break; }
			if (!hit) continue;
			used[i] = 1; hs.push_back(s.cons[i]->sh);
			for (auto v : *s.cons[i]->vars) if (live.insert(v).second) grown = true;
		}
	}
	std::sort(hs.begin(), hs.end());
	hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
	for (auto h : hs) mix2(a, b, h);
	return visitInsert(a, b);
}

// ---------------------------------------------------------------- decode
static unsigned widthOf(Type *t)
{
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isDoubleTy()) return 64;
	if (t->isFloatTy()) return 32;
	return 0;
}
static uint64_t constAddr(const Constant *C);
static RV constVal(const Constant *C);

static RV constVal(const Constant *C)
{
	if (auto *ci = dyn_cast<ConstantInt>(C)) {
		if (ci->getBitWidth() <= 64) return rvc(ci->getZExtValue());
		u128 v = ci->getValue().getLoBits(64).getZExtValue();
		v |= (u128)ci->getValue().lshr(64).getLoBits(64).getZExtValue() << 64;
		RV r; r.e = mkConst(v, ci->getBitWidth()); return r;
	}
	if (isa<ConstantPointerNull>(C)) return rvc(0);
	if (auto *cf = dyn_cast<ConstantFP>(C)) return rvc(cf->getValueAPF().bitcastToAPInt().getZExtValue());
	if (isa<UndefValue>(C)) {
		Type *t = C->getType();
		if (t->isStructTy() || t->isArrayTy()) {
			RV r; r.agg = new std::vector<RV>();
			unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
			r.agg->resize(n);
			return r;
		}
		return rvc(0);
	}
	if (isa<ConstantAggregateZero>(C) || isa<ConstantStruct>(C)) {
		Type *t = C->getType();
		RV r; r.agg = new std::vector<RV>();
		for (unsigned i = 0; i < t->getStructNumElements(); i++) r.agg->push_back(constVal(C->getAggregateElement(i)));
		return r;
	}
	return rvc(constAddr(C));
}
static uint64_t constAddr(const Constant *C)
{
	if (auto *g = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(g); return it == gaddr.end() ? 0 : it->second; }
	if (auto *f = dyn_cast<Function>(C)) { auto it = funcs.find(f); return it == funcs.end() ? 0 : it->second->addr; }
	if (auto *ga = dyn_cast<GlobalAlias>(C)) return constAddr(ga->getAliasee());
	if (auto *ce = dyn_cast<ConstantExpr>(C)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
			return constVal(ce->getOperand(0)).c + off.getSExtValue(); }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
			return constVal(ce->getOperand(0)).c;
		case Instruction::Trunc: return constVal(ce->getOperand(0)).c & (uint64_t)maskw(widthOf(ce->getType()));
		case Instruction::Add: return constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c;
		case Instruction::Sub: return constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c;
		case Instruction::Xor: return constVal(ce->getOperand(0)).c ^ constVal(ce->getOperand(1)).c;
		default: break;
		}
	}
	errs() << "unsupported constant: " << *C << "\n";
	exit(3);
}

static Kind binKind(unsigned op)
{
	switch (op) {
	case Instruction::Add: return K_Add; case Instruction::Sub: return K_Sub;
	case Instruction::Mul: return K_Mul; case Instruction::UDiv: return K_UDiv;
	case Instruction::SDiv: return K_SDiv; case Instruction::URem: return K_URem;
	case Instruction::SRem: return K_SRem; case Instruction::And: return K_And;
	case Instruction::Or: return K_Or; case Instruction::Xor: return K_Xor;
	case Instruction::Shl: return K_Shl; case Instruction::LShr: return K_LShr;
	case Instruction::AShr: return K_AShr;
	}
	return K_Const;
}

static void decode(Func *f)
{
	Function &F = *f->F;
	std::unordered_map<const Value *, int> slot;
	std::unordered_map<const BasicBlock *, int> bbStart;
	int n = 0;
	for (auto &A : F.args()) slot[&A] = n++;
	f->nargs = n;
	int pc = 0;
	for (auto &B : F) {
		bbStart[&B] = -1;
		for (auto &I : B) {
			if (!I.getType()->isVoidTy()) slot[&I] = n++;
		}
	}
	f->nslots = n;
	// pc assignment: phis and debug intrinsics are dropped
	for (auto &B : F) {
		bbStart[&B] = pc;
		f->bbFirst.push_back(pc);
		for (auto &I : B) {
			if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
			if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
				auto id = ii->getIntrinsicID();
				if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
				    id == Intrinsic::experimental_noalias_scope_decl) continue;
			}
			pc++;
			f->bbOf.push_back(f->bbFirst.size() - 1);
		}
	}
	auto opnd = [&](Value *v) {
		Operand o;
		if (auto *c = dyn_cast<Constant>(v)) o.v = constVal(c);
		else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {}
		else o.slot = slot.at(v);
		return o;
	};
	auto edge = [&](BasicBlock *from, BasicBlock *to) {
		Edge e;
		e.target = bbStart[to];
		for (auto &P : to->phis()) {
			PhiMove m;
			m.dst = slot[&P];
			m.src = opnd(P.getIncomingValueForBlock(from));
			e.moves.push_back(m);
		}
		return e;
	};
	for (auto &B : F) {
		for (auto &I : B) {
			if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
			if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
				auto id = ii->getIntrinsicID();
				if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
				    id == Intrinsic::experimental_noalias_scope_decl) continue;
			}
			DInst d;
			d.I = &I;
			d.op = I_Bad;
			if (!I.getType()->isVoidTy()) d.dst = slot[&I];
			d.w = widthOf(I.getType());
			switch (I.getOpcode()) {
			case Instruction::Br: {
				auto *br = cast<BranchInst>(&I);
				if (br->isConditional()) {
					d.op = I_CondBr;
					d.ops.push_back(opnd(br->getCondition()));
					d.edges.push_back(edge(&B, br->getSuccessor(0)));
					d.edges.push_back(edge(&B, br->getSuccessor(1)));
				} else { d.op = I_Br; d.edges.push_back(edge(&B, br->getSuccessor(0))); }
				break; }
			case Instruction::Switch: {
				auto *sw = cast<SwitchInst>(&I);
				d.op = I_Switch;
				d.ops.push_back(opnd(sw->getCondition()));
				d.w = widthOf(sw->getCondition()->getType());
				d.edges.push_back(edge(&B, sw->getDefaultDest()));
				for (auto &c : sw->cases()) { d.imm.push_back(c.getCaseValue()->getZExtValue()); d.edges.push_back(edge(&B, c.getCaseSuccessor())); }
				break; }
			case Instruction::Ret:
				d.op = I_Ret;
				if (I.getNumOperands()) { d.ops.push_back(opnd(I.getOperand(0))); d.w = widthOf(I.getOperand(0)->getType()); }
				break;
			case Instruction::Unreachable: d.op = I_Unreachable; break;
			case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv:
			case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And:
			case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
			case Instruction::AShr:
				d.op = I_Bin; d.sub = binKind(I.getOpcode());
				d.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
				break;
			case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
				d.op = I_FBin; d.imm = {I.getOpcode()};
				d.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
				break;
			case Instruction::FNeg: d.op = I_FNeg; d.ops = {opnd(I.getOperand(0))}; break;
			case Instruction::FCmp:
				d.op = I_FCmp; d.imm = {cast<CmpInst>(I).getPredicate()};
				d.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
				d.w2 = widthOf(I.getOperand(0)->getType());
				break;
			case Instruction::ICmp:
				d.op = I_ICmp; d.sub = cast<CmpInst>(I).getPredicate();
				d.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1))};
				d.w2 = widthOf(I.getOperand(0)->getType());
				break;
			case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt:
			case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::FPToUI: case Instruction::FPToSI:
			case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
				d.op = I_Cast; d.imm = {I.getOpcode()};
				d.ops = {opnd(I.getOperand(0))};
				d.w2 = widthOf(I.getOperand(0)->getType());
				break;
			case Instruction::GetElementPtr: {
				// base + constant + sum idx*scale
				auto *g = cast<GetElementPtrInst>(&I);
				d.op = I_GEP;
				d.ops.push_back(opnd(g->getPointerOperand()));
				int64_t cst = 0;
				for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
					Value *ix = ti.getOperand();
					if (StructType *sty = ti.getStructTypeOrNull()) {
						cst += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
						continue;
					}
					int64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
					if (auto *ci = dyn_cast<ConstantInt>(ix)) { cst += ci->getSExtValue() * sz; continue; }
					d.ops.push_back(opnd(ix));
					d.imm.push_back(sz);
					d.imm.push_back(widthOf(ix->getType()));
				}
				d.imm.push_back((uint64_t)cst);
				break; }
			case Instruction::Load: {
				auto *l = cast<LoadInst>(&I);
				d.op = I_Load; d.atomic = l->isAtomic();
				d.ops = {opnd(l->getPointerOperand())};
				d.imm = {DL->getTypeStoreSize(l->getType())};
				if (!d.w) d.op = I_Bad;
				break; }
			case Instruction::Store: {
				auto *l = cast<StoreInst>(&I);
				d.op = I_Store; d.atomic = l->isAtomic();
				d.ops = {opnd(l->getValueOperand()), opnd(l->getPointerOperand())};
				d.w = widthOf(l->getValueOperand()->getType());
				d.imm = {DL->getTypeStoreSize(l->getValueOperand()->getType())};
				if (!d.w) d.op = I_Bad;
				break; }
			case Instruction::Alloca: {
				auto *a = cast<AllocaInst>(&I);
				d.op = I_Alloca;
				d.ops = {opnd(a->getArraySize())};
				d.imm = {DL->getTypeAllocSize(a->getAllocatedType()), a->getAlign().value()};
				break; }
			case Instruction::Select:
				d.op = I_Select;
				d.ops = {opnd(I.getOperand(0)), opnd(I.getOperand(1)), opnd(I.getOperand(2))};
				break;
			case Instruction::Freeze: d.op = I_Freeze; d.ops = {opnd(I.getOperand(0))}; break;
			case Instruction::Fence: d.op = I_Fence; break;
			case Instruction::AtomicCmpXchg: {
				auto *c = cast<AtomicCmpXchgInst>(&I);
				d.op = I_CmpXchg; d.atomic = true;
				d.ops = {opnd(c->getPointerOperand()), opnd(c->getCompareOperand()), opnd(c->getNewValOperand())};
				d.w = widthOf(c->getCompareOperand()->getType());
				d.imm = {DL->getTypeStoreSize(c->getCompareOperand()->getType())};
				break; }
			case Instruction::AtomicRMW: {
				auto *c = cast<AtomicRMWInst>(&I);
				d.op = I_RMW; d.atomic = true; d.sub = c->getOperation();
				d.ops = {opnd(c->getPointerOperand()), opnd(c->getValOperand())};
				d.imm = {DL->getTypeStoreSize(c->getValOperand()->getType())};
				break; }
			case Instruction::ExtractValue: {
				auto *x = cast<ExtractValueInst>(&I);
				d.op = I_Extract; d.ops = {opnd(x->getAggregateOperand())};
				for (auto i : x->indices()) d.imm.push_back(i);
				break; }
			case Instruction::InsertValue: {
				auto *x = cast<InsertValueInst>(&I);
				d.op = I_Insert; d.ops = {opnd(x->getAggregateOperand()), opnd(x->getInsertedValueOperand())};
				for (auto i : x->indices()) d.imm.push_back(i);
				break; }
			case Instruction::Call: {
				auto *c = cast<CallInst>(&I);
				d.op = I_Call;
				for (auto &a : c->args()) {
					d.ops.push_back(opnd(a.get()));
					d.imm.push_back(isa<MetadataAsValue>(a.get()) ? 0 : widthOf(a->getType()));
				}
				Value *cv = c->getCalledOperand()->stripPointerCasts();
				if (auto *cf = dyn_cast<Function>(cv)) {
					if (!cf->isDeclaration()) d.callee = funcs.at(cf);
					else {
						d.ext = cf->getName().str();
						auto it = extIds.find(d.ext);
						if (it == extIds.end()) { extIds[d.ext] = extNames.size(); extNames.push_back(d.ext); }
						d.extId = extIds[d.ext];
					}
				} else if (isa<InlineAsm>(cv)) d.ext = "__inline_asm";
				else { d.ext = "__indirect"; d.ops.push_back(opnd(cv)); }
				break; }
			}
			f->code.push_back(std::move(d));
		}
	}
}

// ---------------------------------------------------------------- exec
static inline RV get(Frame &f, const Operand &o) { return o.slot >= 0 ? f.regs[o.slot] : o.v; }

static void pushFrame(State &s, int t, Func *f, const std::vector<RV> &args, int ret, unsigned retw)
{
	if (s.th[t].fr.size() > 400) report("stack-overflow", "recursion deeper than 400 frames", s.model, true);
	Frame fr;
	fr.f = f;
	fr.regs.resize(f->nslots);
	for (int i = 0; i < f->nargs && i < (int)args.size(); i++) fr.regs[i] = args[i];
	fr.ret = ret; fr.retw = retw;
	// an always_inline function is instrumented as its caller is
	fr.asan = f->always && !s.th[t].fr.empty() ? s.th[t].fr.back().asan : f->asan;
	if (!s.th[t].sp) s.th[t].sp = 0x7000000000ull + (uint64_t)t * 0x10000000ull;
	fr.sbase = s.th[t].sp;
	f->calls++;
	s.th[t].fr.push_back(std::move(fr));
}

static void take(Frame &fr, const Edge &e)
{
	if (!e.moves.empty()) {
		std::vector<RV> tmp(e.moves.size());
		for (size_t i = 0; i < e.moves.size(); i++) tmp[i] = get(fr, e.moves[i].src);
		for (size_t i = 0; i < e.moves.size(); i++) fr.regs[e.moves[i].dst] = tmp[i];
	}
	fr.pc = e.target;
}

static void finishPath()
{
	State &s = *cur;
	st.paths++;
	if (s.depth > st.maxDepth) st.maxDepth = s.depth;
	// reservoir sampling of complete paths for native validation
	sampleSeen++;
	uint64_t h = (sampleSeen * 0x9e3779b97f4a7c15ull + optSeed) ^ (optSeed * 0xff51afd7ed558ccdull);
	h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
	bool takeIt = samples.size() < optSamples;
	size_t slot = samples.size();
	if (!takeIt && optSamples) { uint64_t r = h % sampleSeen; if (r < optSamples) { takeIt = true; slot = r; } }
	if (takeIt) {
		Sample x;
		for (E e : s.inputs) x.inputs.push_back((uint64_t)evalExpr(e, s.model));
		x.sched = s.sched;
		for (auto &l : s.log) x.log.push_back({l.first, (uint64_t)evalExpr(l.second, s.model)});
		if (slot == samples.size()) samples.push_back(x); else samples[slot] = x;
	}
	endPath();
}

static void freeObj(uint64_t a, const char *what)
{
	State &s = *cur;
	if (a == 0) return;
	int i = findObjIdx(s, a);
	if (i < 0 || s.objs[i]->base != a || (s.objs[i]->kind != O_HEAP && s.objs[i]->kind != O_RAW))
		report("bad-free", what, s.model, true);
	if (!s.objs[i]->alive) report("double-free", what, s.model, true);
	Obj *o = rwObj(s, i);
	o->alive = false;
	o->pages.clear(); o->sparse.clear();
}

static uint64_t allocObj(E size, uint64_t align, ObjKind k, uint8_t init)
{
	State &s = *cur;
	if (size->isConst()) {
		if (size->c > ((u128)1 << 40)) return 0;
		return newObj(s, (uint64_t)size->c, align, k, init);
	}
	const uint64_t lim = 1ull << 36;
	if (!forkCond(mkBin(K_Ule, size, mkConst(lim, 64)))) return 0;
	// a size that is in fact fixed on this path needs no symbolic object
	uint64_t v = modelVal(size);
	Model m2 = s.model;
	if (query(mkNot(mkBin(K_Eq, size, mkConst(v, 64))), &m2) == 0) return newObj(s, v, align, k, init);
	return newObj(s, lim, align, k, init, size);
}

static double asF(const RV &v, unsigned w)
{
	if (v.e) markIncomplete("symbolic floating point");
	if (w == 32) { float f; uint32_t x = (uint32_t)v.c; memcpy(&f, &x, 4); return f; }
	double d; memcpy(&d, &v.c, 8); return d;
}
static RV ofF(double d, unsigned w)
{
	if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return rvc(x); }
	uint64_t x; memcpy(&x, &d, 8); return rvc(x);
}

static E ctz(E e) { E r = mkConst(e->w, e->w); for (int i = e->w - 1; i >= 0; i--) r = mkIte(mkExtract(e, i, 1), mkConst(i, e->w), r); return r; }
static E clz(E e) { E r = mkConst(e->w, e->w); for (int i = 0; i < e->w; i++) r = mkIte(mkExtract(e, i, 1), mkConst(e->w - 1 - i, e->w), r); return r; }

static void checkDiv(E d)
{
	if (d->isConst()) { if (!d->c) report("division-by-zero", "", cur->model, true); return; }
	Model m2 = cur->model;
	E z = mkBin(K_Eq, d, mkConst(0, d->w));
	int r = query(z, &m2);
	if (r < 0) incomplete["solver-unknown"]++;
	if (r == 1) { report("division-by-zero", "", m2, false); assume(mkNot(z)); }
}

static void checkShift(E d, unsigned w)
{
	// extended from fewer bits than would overflow?
	E ok = mkBin(K_Ult, d, mkConst(w, d->w));
	if (ok->isConst()) { if (!ok->c) report("shift-overflow", "", cur->model, true); return; }
	Model m2 = cur->model;
	int r = query(mkNot(ok), &m2);
	if (r < 0) incomplete["solver-unknown"]++;
	if (r == 1) { report("shift-overflow", "", m2, false); assume(ok); }
}

static void obligation(E c, const std::string &kind, const std::string &msg)
{
	st.obligations++;
	if (c->isConst()) { if (!c->c) report(kind, msg, cur->model, true); return; }
	E n = mkNot(c);
	if (evalExpr(n, cur->model)) {
		report(kind, msg, cur->model, false);
		assume(c);
		return;
	}
	Model m2 = cur->model;
	int r = query(n, &m2);
	if (r < 0) incomplete["solver-unknown"]++;
	if (r == 1) { report(kind, msg, m2, false); addCons(*cur, c); }
}

// -------- threads
static bool visible(State &s, DInst &d, Frame &fr)
{
	if (s.th.size() < 2) return false;
	int live = 0;
	for (auto &t : s.th) if (t.state == T_RUN) live++;
	if (live < 2) return false;
	if (d.atomic) return true;
	Operand *p = nullptr;
	if (d.op == I_Load) p = &d.ops[0];
	else if (d.op == I_Store) p = &d.ops[1];
	if (p) {
		RV a = get(fr, *p);
		if (a.e) return false;
		int i = findObjIdx(s, a.c);
		return i >= 0 && s.objs[i]->shared;
	}
	return false;
}
static void pickNext(State &s);	// switch to another runnable thread after block/exit

static std::set<std::string> ignoredExt;

static void execCall(State &s, Thread &T, DInst &d);

static void step()
{
	State &s = *cur;
	Thread &T = s.th[s.cur];
	Frame &fr = T.fr.back();
	DInst &d = fr.f->code[fr.pc];
	bool as = fr.asan;
	passedSched = false;
	if (s.th.size() > 1 && visible(s, d, fr)) {
		if (!T.skipSched) {
			st.points++;
			if (visited && seenState(s)) { st.merged++; endPath(); }
			// a scheduling point: this access may be delayed past any
			// step of another runnable thread
			std::vector<int> alts;
			for (int t = 0; t < (int)s.th.size(); t++)
				if (t != s.cur && s.th[t].state == T_RUN) alts.push_back(t);
			if (s.preempts < optPreempt)
				for (int t : alts) {
					SP n = cloneState(s);
					st.schedForks++;
					n->preempts++;
					n->sched.push_back(t);
					n->th[s.cur].skipSched = false;
					n->cur = t;
					// the thread switched to executes its pending
					// access first (it was parked before it)
					n->th[t].skipSched = true;
					queue.push_back(std::move(n));
				}
			s.sched.push_back(s.cur);
		}
		T.skipSched = false;
		passedSched = true;
	}
	st.instrs++;
	if (++s.instrs > optMaxInstr) {
		st.pathsBudget++;
		report("no-termination", "instruction budget of the path exhausted", s.model, true);
	}
	switch (d.op) {
	case I_Bin: {
		RV a = get(fr, d.ops[0]), b = get(fr, d.ops[1]);
		Kind k = (Kind)d.sub;
		if (!a.e && !b.e && d.w <= 64) {
			if ((k == K_UDiv || k == K_SDiv || k == K_URem || k == K_SRem) && !b.c) report("division-by-zero", "", s.model, true);
			if ((k == K_Shl || k == K_LShr || k == K_AShr) && b.c >= d.w) report("shift-overflow", "", s.model, true);
			uint64_t m = d.w == 64 ? ~0ull : (1ull << d.w) - 1, r;
			switch (k) {
			case K_Add: r = a.c + b.c; break;
			case K_Sub: r = a.c - b.c; break;
			case K_Mul: r = a.c * b.c; break;
			case K_And: r = a.c & b.c; break;
			case K_Or: r = a.c | b.c; break;
			case K_Xor: r = a.c ^ b.c; break;
			default: r = (uint64_t)foldBin(k, a.c, b.c, d.w);
			}
			fr.regs[d.dst] = rvc(r & m);
		} else {
			E x = toE(a, d.w), y = toE(b, d.w);
			if (k == K_UDiv || k == K_SDiv || k == K_URem || k == K_SRem) checkDiv(y);
			if (k == K_Shl || k == K_LShr || k == K_AShr) checkShift(y, d.w);
			fr.regs[d.dst] = fromE(mkBin(k, x, y));
		}
		fr.pc++;
		break; }
	case I_ICmp: {
		RV a = get(fr, d.ops[0]), b = get(fr, d.ops[1]);
		unsigned w = d.w2;
		if (!a.e && !b.e) {
			bool r = false;
			uint64_t x = a.c, y = b.c;
			int64_t sx = w < 64 ? (int64_t)(x << (64 - w)) >> (64 - w) : (int64_t)x;
			int64_t sy = w < 64 ? (int64_t)(y << (64 - w)) >> (64 - w) : (int64_t)y;
			switch (d.sub) {
			case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
			case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
			case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
			case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
			case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
			}
			fr.regs[d.dst] = rvc(r);
		} else {
			E x = toE(a, w), y = toE(b, w), r = nullptr;
			switch (d.sub) {
			case CmpInst::ICMP_EQ: r = mkBin(K_Eq, x, y); break;
			case CmpInst::ICMP_NE: r = mkNot(mkBin(K_Eq, x, y)); break;
			case CmpInst::ICMP_ULT: r = mkBin(K_Ult, x, y); break;
			case CmpInst::ICMP_ULE: r = mkBin(K_Ule, x, y); break;
			case CmpInst::ICMP_UGT: r = mkBin(K_Ult, y, x); break;
			case CmpInst::ICMP_UGE: r = mkBin(K_Ule, y, x); break;
			case CmpInst::ICMP_SLT: r = mkBin(K_Slt, x, y); break;
			case CmpInst::ICMP_SLE: r = mkBin(K_Sle, x, y); break;
			case CmpInst::ICMP_SGT: r = mkBin(K_Slt, y, x); break;
			case CmpInst::ICMP_SGE: r = mkBin(K_Sle, y, x); break;
			}
			fr.regs[d.dst] = fromE(r);
		}
		fr.pc++;
		break; }
	case I_FBin: {
		double x = asF(get(fr, d.ops[0]), d.w), y = asF(get(fr, d.ops[1]), d.w), r = 0;
		switch (d.imm[0]) {
		case Instruction::FAdd: r = d.w == 32 ? (float)x + (float)y : x + y; break;
		case Instruction::FSub: r = d.w == 32 ? (float)x - (float)y : x - y; break;
		case Instruction::FMul: r = d.w == 32 ? (float)x * (float)y : x * y; break;
		case Instruction::FDiv: r = d.w == 32 ? (float)x / (float)y : x / y; break;
		case Instruction::FRem: r = fmod(x, y); break;
		}
		fr.regs[d.dst] = ofF(r, d.w);
		fr.pc++;
		break; }
	case I_FNeg: fr.regs[d.dst] = ofF(-asF(get(fr, d.ops[0]), d.w), d.w); fr.pc++; break;
	case I_FCmp: {
		double x = asF(get(fr, d.ops[0]), d.w2), y = asF(get(fr, d.ops[1]), d.w2);
		bool un = std::isnan(x) || std::isnan(y), r = false;
		switch (d.imm[0]) {
		case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break;
		case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break;
		case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break;
		case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break;
		case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break;
		case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break;
		case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
		case CmpInst::FCMP_TRUE: r = true; break;
		}
		fr.regs[d.dst] = rvc(r);
		fr.pc++;
		break; }
	case I_Cast: {
		RV a = get(fr, d.ops[0]);
		switch (d.imm[0]) {
		case Instruction::Trunc:
			fr.regs[d.dst] = !a.e ? rvc(a.c & (uint64_t)maskw(d.w)) : fromE(mkExtract(a.e, 0, d.w)); break;
		case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
			if (d.w < d.w2) fr.regs[d.dst] = fromE(mkExtract(toE(a, d.w2), 0, d.w));
			else if (d.w > 64) { RV r; r.e = mkZExt(toE(a, d.w2), d.w); fr.regs[d.dst] = r; }
			else fr.regs[d.dst] = !a.e ? a : fromE(mkZExt(a.e, d.w));
			break;
		case Instruction::SExt:
			if (d.w > 64) { RV r; r.e = mkSExt(toE(a, d.w2), d.w); fr.regs[d.dst] = r; }
			else fr.regs[d.dst] = !a.e ? rvc((uint64_t)sextw(a.c, d.w2) & (uint64_t)maskw(d.w)) : fromE(mkSExt(a.e, d.w));
			break;
		case Instruction::BitCast: fr.regs[d.dst] = a; break;
		case Instruction::FPToUI: fr.regs[d.dst] = rvc((uint64_t)asF(a, d.w2) & (uint64_t)maskw(d.w)); break;
		case Instruction::FPToSI: fr.regs[d.dst] = rvc((uint64_t)(int64_t)asF(a, d.w2) & (uint64_t)maskw(d.w)); break;
		case Instruction::UIToFP: if (a.e) a = rvc(concretize(a.e, "integer converted to floating point")); fr.regs[d.dst] = ofF((double)a.c, d.w); break;
		case Instruction::SIToFP: if (a.e) a = rvc(concretize(a.e, "integer converted to floating point")); fr.regs[d.dst] = ofF((double)(int64_t)sextw(a.c, d.w2), d.w); break;
		case Instruction::FPTrunc: case Instruction::FPExt: fr.regs[d.dst] = ofF(asF(a, d.w2), d.w); break;
		}
		fr.pc++;
		break; }
	case I_GEP: {
		RV b = get(fr, d.ops[0]);
		uint64_t cst = d.imm.back();
		bool conc = !b.e;
		for (size_t i = 1; conc && i < d.ops.size(); i++) if (get(fr, d.ops[i]).e) conc = false;
		if (conc) {
			uint64_t r = b.c + cst;
			for (size_t i = 1; i < d.ops.size(); i++) {
				unsigned w = d.imm[2 * (i - 1) + 1];
				uint64_t x = get(fr, d.ops[i]).c;
				if (w < 64) x = (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w));
				r += x * d.imm[2 * (i - 1)];
			}
			fr.regs[d.dst] = rvc(r);
		} else {
			E r = mkBin(K_Add, toE(b, 64), mkConst(cst, 64));
			for (size_t i = 1; i < d.ops.size(); i++) {
				unsigned w = d.imm[2 * (i - 1) + 1];
				E x = mkSExt(toE(get(fr, d.ops[i]), w), 64);
				r = mkBin(K_Add, r, mkBin(K_Mul, x, mkConst(d.imm[2 * (i - 1)], 64)));
			}
			fr.regs[d.dst] = fromE(r);
		}
		fr.pc++;
		break; }
	case I_Load: {
		RV p = get(fr, d.ops[0]);
		RV r;
		if (p.e) {
			if (!symRead(p.e, d.imm[0], d.w, as, r)) {
				uint64_t a = resolveAddr(p.e);
				r = loadBytes(a, d.imm[0], d.w, as);
			}
		} else r = loadBytes(p.c, d.imm[0], d.w, as);
		fr.regs[d.dst] = r;
		fr.pc++;
		break; }
	case I_Store: {
		RV v = get(fr, d.ops[0]), p = get(fr, d.ops[1]);
		if (!p.e || !symWrite(p.e, v, d.imm[0], d.w, as)) {
			uint64_t a = p.e ? resolveAddr(p.e) : p.c;
			storeBytes(a, v, d.imm[0], d.w, as);
		}
		fr.pc++;
		break; }
	case I_Alloca: {
		RV n = get(fr, d.ops[0]);
		uint64_t cnt = n.e ? concretize(n.e, "stack array size") : n.c;
		uint64_t a = newObj(s, d.imm[0] * cnt, d.imm[1], O_STACK, 1);
		fr.allocas.push_back(a);
		fr.regs[d.dst] = rvc(a);
		fr.pc++;
		break; }
	case I_Br: take(fr, d.edges[0]); break;
	case I_CondBr: {
		RV c = get(fr, d.ops[0]);
		bool v = c.e ? forkCond(c.e) : c.c & 1;
		take(fr, d.edges[v ? 0 : 1]);
		break; }
	case I_Switch: {
		RV c = get(fr, d.ops[0]);
		if (c.e) {
			E any = mkFalse();
			int t = -1;
			// decide the target of the model's value; fork per distinct target
			for (size_t i = 0; i < d.imm.size(); i++) {
				E eq = mkBin(K_Eq, c.e, mkConst(d.imm[i], d.w));
				if (forkCond(eq)) { t = i + 1; break; }
				(void)any;
			}
			take(fr, d.edges[t < 0 ? 0 : t]);
		} else {
			int t = 0;
			for (size_t i = 0; i < d.imm.size(); i++) if (d.imm[i] == c.c) { t = i + 1; break; }
			take(fr, d.edges[t]);
		}
		break; }
	case I_Ret: {
		RV r;
		if (!d.ops.empty()) r = get(fr, d.ops[0]);
		for (uint64_t a : fr.allocas) {
			int i = findObjIdx(s, a);
			if (i >= 0) s.objs.erase(s.objs.begin() + i);
		}
		int ret = fr.ret;
		T.sp = fr.sbase;
		T.fr.pop_back();
		if (T.fr.empty()) {
			T.state = T_DONE;
			if (s.cur == 0) finishPath();
			pickNext(s);
			break;
		}
		if (ret >= 0) T.fr.back().regs[ret] = r;
		break; }
	case I_Call: execCall(s, T, d); break;
	case I_Select: {
		RV c = get(fr, d.ops[0]), a = get(fr, d.ops[1]), b = get(fr, d.ops[2]);
		if (!c.e) fr.regs[d.dst] = (c.c & 1) ? a : b;
		else if (a.agg || b.agg || d.w == 0) fr.regs[d.dst] = forkCond(c.e) ? a : b;
		else fr.regs[d.dst] = fromE(mkIte(c.e, toE(a, d.w), toE(b, d.w)));
		fr.pc++;
		break; }
	case I_Unreachable: report("unreachable", "unreachable code executed", s.model, true); break;
	case I_Fence: fr.pc++; break;
	case I_CmpXchg: {
		RV p = get(fr, d.ops[0]), ex = get(fr, d.ops[1]), nv = get(fr, d.ops[2]);
		uint64_t a = p.e ? resolveAddr(p.e) : p.c;
		RV old = loadBytes(a, d.imm[0], d.w, as);
		E eq = mkBin(K_Eq, toE(old, d.w), toE(ex, d.w));
		bool ok = forkCond(eq);
		if (ok) storeBytes(a, nv, d.imm[0], d.w, as);
		RV r; r.agg = new std::vector<RV>{old, rvc(ok)};
		fr.regs[d.dst] = r;
		fr.pc++;
		break; }
	case I_RMW: {
		RV p = get(fr, d.ops[0]), v = get(fr, d.ops[1]);
		uint64_t a = p.e ? resolveAddr(p.e) : p.c;
		RV old = loadBytes(a, d.imm[0], d.w, as);
		E x = toE(old, d.w), y = toE(v, d.w), r;
		switch (d.sub) {
		case AtomicRMWInst::Xchg: r = y; break;
		case AtomicRMWInst::Add: r = mkBin(K_Add, x, y); break;
		case AtomicRMWInst::Sub: r = mkBin(K_Sub, x, y); break;
		case AtomicRMWInst::And: r = mkBin(K_And, x, y); break;
		case AtomicRMWInst::Or: r = mkBin(K_Or, x, y); break;
		case AtomicRMWInst::Xor: r = mkBin(K_Xor, x, y); break;
		default: markIncomplete("atomicrmw"); r = x;
		}
		storeBytes(a, fromE(r), d.imm[0], d.w, as);
		fr.regs[d.dst] = old;
		fr.pc++;
		break; }
	case I_Extract: {
		RV a = get(fr, d.ops[0]);
		for (auto i : d.imm) a = a.agg ? (*a.agg)[i] : rvc(0);
		fr.regs[d.dst] = a;
		fr.pc++;
		break; }
	case I_Insert: {
		RV a = get(fr, d.ops[0]);
		RV r; r.agg = a.agg ? new std::vector<RV>(*a.agg) : new std::vector<RV>(8);
		if (d.imm.size() != 1) markIncomplete("nested insertvalue");
		(*r.agg)[d.imm[0]] = get(fr, d.ops[1]);
		fr.regs[d.dst] = r;
		fr.pc++;
		break; }
	case I_Freeze: fr.regs[d.dst] = get(fr, d.ops[0]); fr.pc++; break;
	case I_Bad: {
		std::string str; raw_string_ostream os(str); d.I->print(os);
		markIncomplete("unsupported instruction:" + str); }
	}
}

static void pickNext(State &s)
{
	// the current thread cannot continue; wake a joiner when all others ended
	std::vector<int> run;
	for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].state == T_RUN) run.push_back(t);
	if (run.empty()) {
		if (s.th[0].state == T_JOIN) {
			bool all = true;
			for (size_t t = 1; t < s.th.size(); t++) if (s.th[t].state != T_DONE) all = false;
			if (all) { s.th[0].state = T_RUN; s.th.resize(1); s.cur = 0; return; }
		}
		report("deadlock", "no runnable thread", s.model, true);
	}
	for (size_t i = 1; i < run.size(); i++) {
		SP n = cloneState(s);
		st.schedForks++;
		n->cur = run[i];
		n->sched.push_back(run[i]);
		n->th[run[i]].skipSched = true;
		queue.push_back(std::move(n));
	}
	s.cur = run[0];
	s.sched.push_back(run[0]);
	s.th[run[0]].skipSched = true;
}
#include "calls.inc"
