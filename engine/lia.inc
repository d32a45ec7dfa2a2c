// Exact translation of the linear fragment of bit-vector expressions into
// integer arithmetic.  Sums of many sizes are hard for bit-blasting and easy
// for a linear-arithmetic solver.  Wrap-around is kept exact: interval bounds
// decide where it cannot happen, an if-then-else (or mod) models it elsewhere.
// Anything outside the fragment makes the translation fail, and the bit-vector
// solver is used.  Every model is checked against the bit-vector expressions.
typedef __int128 i128;
struct Lin { Z3_ast t; i128 lo, hi; };
struct LiaFail { };
static std::unordered_map<E, Lin> liaUm, liaSm;
static std::unordered_map<E, Z3_ast> liaBm;
static std::unordered_map<E, char> liaBad;
static bool liaUsesDiv;
static std::unordered_map<E, char> liaDivs;

static Z3_sort intSort()
{
	static Z3_sort s;
	if (!s) { s = Z3_mk_int_sort(zc); Z3_inc_ref(zc, Z3_sort_to_ast(zc, s)); }
	return s;
}
static Z3_ast liaNum(i128 v)
{
	static std::map<i128, Z3_ast> m;
	auto it = m.find(v);
	if (it != m.end()) return it->second;
	std::string s;
	u128 x = v < 0 ? (u128)-v : (u128)v;
	do { s.insert(s.begin(), '0' + (int)(x % 10)); x /= 10; } while (x);
	if (v < 0) s.insert(s.begin(), '-');
	return m[v] = keep(Z3_mk_numeral(zc, s.c_str(), intSort()));
}
static Z3_ast zadd(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_add(zc, 2, x)); }
static Z3_ast zsub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_sub(zc, 2, x)); }
static Z3_ast zmul(Z3_ast a, i128 c) { Z3_ast x[2] = {liaNum(c), a}; return c == 1 ? a : keep(Z3_mk_mul(zc, 2, x)); }
static Z3_ast zite(Z3_ast c, Z3_ast a, Z3_ast b) { return keep(Z3_mk_ite(zc, keep(c), a, b)); }
static Lin liaU(E e);
static Lin liaS(E e);
static Z3_ast liaB(E e);
static const i128 one = 1;

static Lin liaWrapU(Lin x, unsigned w)	// into [0, 2^w)
{
	i128 m = one << w;
	if (x.lo >= 0 && x.hi < m) return x;
	if (x.lo >= -m && x.hi < 2 * m) {
		Z3_ast t = x.t;
		Z3_ast r = t;
		if (x.hi >= m) r = zite(Z3_mk_ge(zc, t, liaNum(m)), zsub(t, liaNum(m)), r);
		if (x.lo < 0) r = zite(Z3_mk_lt(zc, t, liaNum(0)), zadd(t, liaNum(m)), r);
		return {r, 0, m - 1};
	}
	liaUsesDiv = true;
	return {keep(Z3_mk_mod(zc, x.t, liaNum(m))), 0, m - 1};
}

static Lin liaU1(E e)
{
	unsigned w = e->w;
	if (w > 100) throw LiaFail();
	i128 top = (one << w) - 1;
	if (w == 1 && e->k != K_Const && e->k != K_Var && e->k != K_Extract)
		return {zite(liaB(e), liaNum(1), liaNum(0)), 0, 1};
	switch (e->k) {
	case K_Const: return {liaNum((i128)e->c), (i128)e->c, (i128)e->c};
	case K_Var: {
		std::string n = "i" + std::to_string((uint64_t)e->c);
		return {keep(Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), intSort())), 0, top}; }
	case K_ZExt: return liaU(e->a[0]);
	case K_SExt: return liaWrapU(liaS(e->a[0]), w);
	case K_Concat: {
		Lin h = liaU(e->a[0]), l = liaU(e->a[1]);
		i128 m = one << e->a[1]->w;
		return {zadd(zmul(h.t, m), l.t), h.lo * m + l.lo, h.hi * m + l.hi}; }
	case K_Add: {
		Lin a = liaU(e->a[0]);
		if (e->a[1]->isConst()) {
			i128 c = (i128)e->a[1]->c;
			if (c > top / 2) c -= top + 1;
			return liaWrapU({zadd(a.t, liaNum(c)), a.lo + c, a.hi + c}, w);
		}
		Lin b = liaU(e->a[1]);
		return liaWrapU({zadd(a.t, b.t), a.lo + b.lo, a.hi + b.hi}, w); }
	case K_Sub: {
		Lin a = liaU(e->a[0]), b = liaU(e->a[1]);
		return liaWrapU({zsub(a.t, b.t), a.lo - b.hi, a.hi - b.lo}, w); }
	case K_Mul: {
		if (!e->a[1]->isConst()) throw LiaFail();
		Lin a = liaU(e->a[0]);
		i128 c = (i128)e->a[1]->c;
		if (c >= (one << 40) || a.hi >= (one << 80)) throw LiaFail();
		return liaWrapU({zmul(a.t, c), a.lo * c, a.hi * c}, w); }
	case K_Extract: {
		Lin a = liaU(e->a[0]);
		unsigned off = (unsigned)e->c;
		if (off) {
			i128 d = one << off;
			if (a.hi >= d) {
				liaUsesDiv = true;
				a = {keep(Z3_mk_div(zc, a.t, liaNum(d))), a.lo >> off, a.hi >> off};
			} else a = {liaNum(0), 0, 0};
		}
		return liaWrapU(a, w); }
	case K_UDiv: case K_URem: {
		if (!e->a[1]->isConst() || !e->a[1]->c) throw LiaFail();
		Lin a = liaU(e->a[0]);
		i128 c = (i128)e->a[1]->c;
		liaUsesDiv = true;
		if (e->k == K_UDiv) return {keep(Z3_mk_div(zc, a.t, liaNum(c))), a.lo / c, a.hi / c};
		if (a.hi < c) return a;
		return {keep(Z3_mk_mod(zc, a.t, liaNum(c))), 0, c - 1}; }
	case K_Ite: {
		Lin a = liaU(e->a[1]), b = liaU(e->a[2]);
		return {zite(liaB(e->a[0]), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
	default: throw LiaFail();
	}
}

static Lin liaS1(E e)
{
	unsigned w = e->w;
	if (w > 100) throw LiaFail();
	i128 half = one << (w - 1), m = one << w;
	switch (e->k) {
	case K_Const: { i128 v = sextw(e->c, w); return {liaNum(v), v, v}; }
	case K_SExt: return liaS(e->a[0]);
	case K_ZExt: return liaU(e->a[0]);
	case K_Ite: {
		Lin a = liaS(e->a[1]), b = liaS(e->a[2]);
		return {zite(liaB(e->a[0]), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
	case K_Add: case K_Sub: {
		Lin a = liaS(e->a[0]), b = liaS(e->a[1]);
		Lin r = e->k == K_Add ? Lin{zadd(a.t, b.t), a.lo + b.lo, a.hi + b.hi} : Lin{zsub(a.t, b.t), a.lo - b.hi, a.hi - b.lo};
		if (r.lo >= -half && r.hi < half) return r;
		Z3_ast t = r.t;
		if (r.hi >= half) t = zite(Z3_mk_ge(zc, r.t, liaNum(half)), zsub(r.t, liaNum(m)), t);
		if (r.lo < -half) t = zite(Z3_mk_lt(zc, r.t, liaNum(-half)), zadd(r.t, liaNum(m)), t);
		return {t, -half, half - 1}; }
	default: {
		Lin u = liaU(e);
		if (u.hi < half) return u;
		return {zite(Z3_mk_ge(zc, u.t, liaNum(half)), zsub(u.t, liaNum(m)), u.t), -half, half - 1}; }
	}
}

static Z3_ast liaB1(E e)
{
	auto signedish = [](E x) { return x->k == K_SExt || x->k == K_Sub; };
	switch (e->k) {
	case K_Const: return e->c ? Z3_mk_true(zc) : Z3_mk_false(zc);
	case K_Ult: return Z3_mk_lt(zc, liaU(e->a[0]).t, liaU(e->a[1]).t);
	case K_Ule: return Z3_mk_le(zc, liaU(e->a[0]).t, liaU(e->a[1]).t);
	case K_Slt: return Z3_mk_lt(zc, liaS(e->a[0]).t, liaS(e->a[1]).t);
	case K_Sle: return Z3_mk_le(zc, liaS(e->a[0]).t, liaS(e->a[1]).t);
	case K_Eq:
		if (e->a[0]->w == 1) return Z3_mk_iff(zc, liaB(e->a[0]), liaB(e->a[1]));
		if (signedish(e->a[0]) || signedish(e->a[1])) return Z3_mk_eq(zc, liaS(e->a[0]).t, liaS(e->a[1]).t);
		return Z3_mk_eq(zc, liaU(e->a[0]).t, liaU(e->a[1]).t);
	case K_And: { Z3_ast x[2] = {liaB(e->a[0]), liaB(e->a[1])}; return Z3_mk_and(zc, 2, x); }
	case K_Or: { Z3_ast x[2] = {liaB(e->a[0]), liaB(e->a[1])}; return Z3_mk_or(zc, 2, x); }
	case K_Xor: case K_Add: case K_Sub:
		return Z3_mk_xor(zc, liaB(e->a[0]), liaB(e->a[1]));
	case K_Ite: return Z3_mk_ite(zc, liaB(e->a[0]), liaB(e->a[1]), liaB(e->a[2]));
	case K_Var: case K_Extract: return Z3_mk_eq(zc, liaU(e).t, liaNum(1));
	default: throw LiaFail();
	}
}

// memoised; remembers failures and the use of div/mod per sub-expression
template <class T, class F> static T liaMemo(std::unordered_map<E, T> &m, E e, F f)
{
	auto it = m.find(e);
	if (it != m.end()) { if (liaDivs.count(e)) liaUsesDiv = true; return it->second; }
	if (liaBad.count(e)) throw LiaFail();
	bool before = liaUsesDiv;
	liaUsesDiv = false;
	try {
		T r = f(e);
		m.emplace(e, r);
		if (liaUsesDiv) liaDivs[e] = 1;
		liaUsesDiv |= before;
		return r;
	} catch (LiaFail &) { liaBad[e] = 1; throw; }
}
static Lin liaU(E e) { return liaMemo(liaUm, e, liaU1); }
static Lin liaS(E e) { return liaMemo(liaSm, e, liaS1); }
static Z3_ast liaB(E e) { return liaMemo(liaBm, e, [](E x) { return keep(liaB1(x)); }); }

// 1/0/-1 as the other solvers; the model of a satisfiable query in out
static int liaSolve(const std::vector<E> &sl, E q, const std::vector<uint32_t> &vs, Model &out, unsigned ms)
{
	std::vector<Z3_ast> as;
	liaUsesDiv = false;
	try {
		for (E c : sl) as.push_back(liaB(c));
		as.push_back(liaB(q));
	} catch (LiaFail &) { return -2; }
	static Z3_solver ls;
	if (!ls) {
		Z3_tactic t = Z3_mk_tactic(zc, "smt");
		Z3_tactic_inc_ref(zc, t);
		ls = Z3_mk_solver_from_tactic(zc, t);
		Z3_solver_inc_ref(zc, ls);
	}
	setTimeout(ls, liaUsesDiv ? std::min(ms, 3000u) : std::min(ms, 6000u));
	for (auto a : as) Z3_solver_assert(zc, ls, a);
	for (auto v : vs) {
		E ve = mkVar(v, varWidths[v & 15]);
		Lin l = liaU(ve);
		Z3_solver_assert(zc, ls, Z3_mk_ge(zc, l.t, liaNum(0)));
		Z3_solver_assert(zc, ls, Z3_mk_le(zc, l.t, liaNum(l.hi)));
	}
	Z3_lbool r = Z3_solver_check(zc, ls);
	int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
	if (res == 1) {
		Z3_model zm = Z3_solver_get_model(zc, ls);
		Z3_model_inc_ref(zc, zm);
		for (auto v : vs) {
			Z3_ast val = 0;
			uint64_t x = 0;
			if (Z3_model_eval(zc, zm, liaU(mkVar(v, varWidths[v & 15])).t, true, &val) && val)
				Z3_get_numeral_uint64(zc, val, &x);
			if (out.size() <= v) out.resize(v + 1, 0);
			out[v] = x;
		}
		Z3_model_dec_ref(zc, zm);
		bool ok = evalExpr(q, out) == 1;
		for (E c : sl) ok = ok && evalExpr(c, out) == 1;
		if (!ok) { fprintf(stderr, "integer encoding disagrees with bit-vectors\n"); _exit(4); }
	}
	Z3_solver_reset(zc, ls);
	return res;
}
