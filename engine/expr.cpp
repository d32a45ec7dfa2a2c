#include "expr.h"

std::unordered_map<ExprKey, E, ExprHash> exprTab;
std::vector<E> allExprs;
static std::vector<uint32_t> noVars;

static std::vector<uint32_t> *unionVars(std::vector<uint32_t> *x, std::vector<uint32_t> *y)
{
	if (x == y || y->empty()) return x;
	if (x->empty()) return y;
	if (std::includes(x->begin(), x->end(), y->begin(), y->end())) return x;
	if (std::includes(y->begin(), y->end(), x->begin(), x->end())) return y;
	auto *r = new std::vector<uint32_t>();
	r->reserve(x->size() + y->size());
	std::set_union(x->begin(), x->end(), y->begin(), y->end(), std::back_inserter(*r));
	return r;
}

E mkRaw(Kind k, unsigned w, u128 c, E a0, E a1, E a2)
{
	if (w < 1 || w > 128 || (k == K_ZExt && a0->w >= w) || (k == K_SExt && a0->w >= w)) {
		fprintf(stderr, "bad expr kind %d width %u\n", (int)k, w);
		abort();
	}
	ExprKey key{k, (uint16_t)w, c, {a0, a1, a2}};
	auto it = exprTab.find(key);
	if (it != exprTab.end())
		return it->second;
	E e = new Expr();
	e->k = k; e->w = w; e->c = c;
	e->a[0] = a0; e->a[1] = a1; e->a[2] = a2;
	e->id = allExprs.size();
	e->vars = &noVars;
	{
		uint64_t h = 0x1234567 + k * 0x9e3779b97f4a7c15ull + w * 0x100000001b3ull;
		auto mx = [&](uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 29; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 32; };
		mx((uint64_t)c); mx((uint64_t)(c >> 64));
		if (a0) mx(a0->sh);
		if (a1) mx(a1->sh + 1);
		if (a2) mx(a2->sh + 2);
		e->sh = h;
	}
	if (k == K_Var) e->vars = new std::vector<uint32_t>(1, (uint32_t)c);
	for (int i = 0; i < 3; i++)
		if (e->a[i]) e->vars = unionVars(e->vars, e->a[i]->vars);
	allExprs.push_back(e);
	exprTab.emplace(key, e);
	return e;
}

u128 foldBin(Kind k, u128 x, u128 y, unsigned w)
{
	u128 m = maskw(w);
	switch (k) {
	case K_Add: return (x + y) & m;
	case K_Sub: return (x - y) & m;
	case K_Mul: return (x * y) & m;
	case K_UDiv: return y ? (x / y) & m : m;
	case K_URem: return y ? (x % y) & m : x;
	case K_SDiv: {
		__int128 a = sextw(x, w), b = sextw(y, w);
		if (b == 0) return a < 0 ? 1 : m;
		if (b == -1) return (u128)(0 - (u128)a) & m;
		return (u128)(a / b) & m; }
	case K_SRem: {
		__int128 a = sextw(x, w), b = sextw(y, w);
		if (b == 0) return x;
		if (b == -1) return 0;
		return (u128)(a % b) & m; }
	case K_And: return x & y;
	case K_Or: return x | y;
	case K_Xor: return x ^ y;
	case K_Shl: return y >= w ? 0 : (x << (unsigned)y) & m;
	case K_LShr: return y >= w ? 0 : (x >> (unsigned)y);
	case K_AShr: {
		__int128 a = sextw(x, w);
		if (y >= w) return (a < 0 ? ~(u128)0 : 0) & m;
		return (u128)(a >> (unsigned)y) & m; }
	case K_Eq: return x == y;
	case K_Ult: return x < y;
	case K_Ule: return x <= y;
	case K_Slt: return sextw(x, w) < sextw(y, w);
	case K_Sle: return sextw(x, w) <= sextw(y, w);
	default: abort();
	}
}

static bool isCmp(Kind k) { return k >= K_Eq && k <= K_Sle; }
static bool isComm(Kind k)
{
	return k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq;
}
static bool isPow2(u128 c) { return c && !(c & (c - 1)); }
static unsigned lg(u128 c) { unsigned r = 0; while (c >>= 1) r++; return r; }

E mkNot(E a)
{
	if (a->w != 1) return mkBin(K_Xor, a, mkConst(maskw(a->w), a->w));
	if (a->isConst()) return mkConst(!a->c, 1);
	switch (a->k) {
	case K_Xor:
		if (a->a[1]->isConst() && a->a[1]->c == 1) return a->a[0];
		break;
	case K_Ult: return mkRaw(K_Ule, 1, 0, a->a[1], a->a[0]);
	case K_Ule: return mkRaw(K_Ult, 1, 0, a->a[1], a->a[0]);
	case K_Slt: return mkRaw(K_Sle, 1, 0, a->a[1], a->a[0]);
	case K_Sle: return mkRaw(K_Slt, 1, 0, a->a[1], a->a[0]);
	default: break;
	}
	return mkRaw(K_Xor, 1, 0, a, mkConst(1, 1));
}

// e as a number of n bits (sg: two's complement) extended to its width
static bool narrowOf(E e, unsigned &n, bool &sg)
{
	if (e->k == K_ZExt) { n = e->a[0]->w; sg = false; return true; }
	if (e->k == K_SExt) { n = e->a[0]->w; sg = true; return true; }
	if (e->isConst()) {
		n = 1;
		while (n < e->w && (e->c >> n)) n++;
		sg = false;
		if (n < e->w) return true;
		u128 inv = ~e->c & maskw(e->w);	// a small negative number
		n = 1;
		while (n < e->w && (inv >> (n - 1))) n++;
		sg = true;
		return n < e->w;
	}
	return false;
}
static E atWidth(E e, unsigned n)
{
	if (e->isConst()) return mkConst(e->c, n);
	if (e->k == K_ZExt) return mkZExt(e->a[0], n);
	return mkSExt(e->a[0], n);
}
// e = t + c without wrap-around
static E baseOf(E e, u128 &c)
{
	c = 0;
	if (e->k == K_ZExt && e->a[0]->k == K_Add && e->a[0]->a[1]->isConst() && e->a[0]->a[0]->k == K_ZExt) {
		E x = e->a[0];
		if (!(x->a[1]->c >> (x->w - 1))) {
			c = x->a[1]->c;
			return mkZExt(x->a[0], e->w);
		}
	}
	return e;
}

E mkBin(Kind k, E a, E b)
{
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d %d\n", k, a->w, b->w); abort(); }
	unsigned rw = isCmp(k) ? 1 : w;
	if (a->isConst() && b->isConst())
		return mkConst(foldBin(k, a->c, b->c, w), rw);
	// constants on the right for commutative operators
	if (isComm(k)) {
		if (a->isConst()) std::swap(a, b);
		else if (!b->isConst() && a->id > b->id) std::swap(a, b);
	}
	u128 ones = maskw(w);
	if (k == K_Sub || k == K_Eq || k == K_Ult || k == K_Ule) {
		u128 ca, cb;
		E ta = baseOf(a, ca), tb = baseOf(b, cb);
		if (ta == tb && (ca || cb)) {
			if (k == K_Sub) return mkConst(ca - cb, w);
			return mkConst(k == K_Eq ? ca == cb : k == K_Ult ? ca < cb : ca <= cb, 1);
		}
	}
	// zext(x) + c where c has no bits under x: a concatenation
	if (k == K_Add && b->isConst() && a->k == K_ZExt && b->c && (b->c & maskw(a->a[0]->w)) == 0)
		return mkConcat(mkConst(b->c >> a->a[0]->w, w - a->a[0]->w), a->a[0]);
	// (h . l) + c with constant l and c: the carry out of l is known
	if (k == K_Add && b->isConst()) {
		E x = a->k == K_ZExt ? a->a[0] : a;
		if (x->k == K_Concat && x->a[1]->isConst()) {
			unsigned lw = x->a[1]->w;
			u128 lo = x->a[1]->c + (b->c & maskw(lw));
			E h = mkZExt(x->a[0], w - lw);
			return mkConcat(mkBin(K_Add, h, mkConst((b->c >> lw) + (lo >> lw), w - lw)), mkConst(lo, lw));
		}
	}
	// arithmetic and comparisons of extended operands at the width they need
	if (k == K_Add || k == K_Sub || (k >= K_Eq && k <= K_Sle)) {
		unsigned na, nb;
		bool sa, sb;
		if (!(a->isConst() && b->isConst()) && narrowOf(a, na, sa) && narrowOf(b, nb, sb)) {
			bool sg = sa || sb || k == K_Sub || k == K_Slt || k == K_Sle;
			if (sg) { if (!sa) na++; if (!sb) nb++; }
			unsigned n = std::max(na, nb);
			if (k == K_Add || k == K_Sub) {
				n++;
				if (n < w && !(b->isConst() && b->c == 0)) {
					E r = mkBin(k, atWidth(a, n), atWidth(b, n));
					return sg ? mkSExt(r, w) : mkZExt(r, w);
				}
			} else if (n < w) {
				return mkBin(k, atWidth(a, n), atWidth(b, n));
			}
		}
	}
	if (w == 1) {
		if (k == K_Mul) k = K_And;
		if (k == K_Add || k == K_Sub) k = K_Xor;
		if (k == K_Shl || k == K_LShr) return mkBin(K_And, a, mkNot(b));
		if (k == K_AShr) return a;
		if (k == K_Ult) return mkBin(K_And, mkNot(a), b);
		if (k == K_Ule) return mkBin(K_Or, mkNot(a), b);
		if (k == K_Slt) return mkBin(K_And, a, mkNot(b));
		if (k == K_Sle) return mkBin(K_Or, a, mkNot(b));
		if (k == K_UDiv || k == K_SDiv) return mkBin(K_Or, a, mkNot(b));
		if (k == K_URem || k == K_SRem) return mkBin(K_And, a, mkNot(b));
	}
	switch (k) {
	case K_Add:
		if (b->isConst()) {
			if (b->c == 0) return a;
			if (a->k == K_Add && a->a[1]->isConst())
				return mkBin(K_Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
			if (a->k == K_Ite && a->a[1]->isConst() && a->a[2]->isConst())
				return mkIte(a->a[0], mkConst(a->a[1]->c + b->c, w), mkConst(a->a[2]->c + b->c, w));
		} else {
			// pull constants outwards
			if (a->k == K_Add && a->a[1]->isConst())
				return mkBin(K_Add, mkBin(K_Add, a->a[0], b), a->a[1]);
			if (b->k == K_Add && b->a[1]->isConst())
				return mkBin(K_Add, mkBin(K_Add, a, b->a[0]), b->a[1]);
			if (b->k == K_Sub && b->a[1] == a) return b->a[0];
			if (a->k == K_Sub && a->a[1] == b) return a->a[0];
		}
		break;
	case K_Sub:
		if (b->isConst()) return mkBin(K_Add, a, mkConst(0 - b->c, w));
		if (a == b) return mkConst(0, w);
		if (a->k == K_Add) {
			if (a->a[0] == b) return a->a[1];
			if (a->a[1] == b) return a->a[0];
			if (a->a[1]->isConst())
				return mkBin(K_Add, mkBin(K_Sub, a->a[0], b), a->a[1]);
		}
		if (b->k == K_Add && b->a[1]->isConst())
			return mkBin(K_Add, mkBin(K_Sub, a, b->a[0]), mkConst(0 - b->a[1]->c, w));
		break;
	case K_Mul:
		if (b->isConst()) {
			if (b->c == 0) return b;
			if (b->c == 1) return a;
			if (isPow2(b->c)) return mkBin(K_Shl, a, mkConst(lg(b->c), w));
		}
		break;
	case K_UDiv:
		if (b->isConst()) {
			if (b->c == 1) return a;
			if (isPow2(b->c)) return mkBin(K_LShr, a, mkConst(lg(b->c), w));
		}
		break;
	case K_URem:
		if (b->isConst() && isPow2(b->c))
			return mkBin(K_And, a, mkConst(b->c - 1, w));
		break;
	case K_And:
		if (a == b) return a;
		if (b->isConst()) {
			if (b->c == 0) return b;
			if (b->c == ones) return a;
			if (a->k == K_And && a->a[1]->isConst())
				return mkBin(K_And, a->a[0], mkConst(a->a[1]->c & b->c, w));
			if (isPow2(b->c + 1)) {
				unsigned n = lg(b->c + 1);
				return mkZExt(mkExtract(a, 0, n), w);
			}
			{	// ...111000: the low bits cleared
				u128 inv = ~b->c & ones;
				if (isPow2(inv + 1)) {
					unsigned n = lg(inv + 1);
					return mkConcat(mkExtract(a, n, w - n), mkConst(0, n));
				}
			}
			if (a->k == K_Ite && a->a[1]->isConst() && a->a[2]->isConst())
				return mkIte(a->a[0], mkConst(a->a[1]->c & b->c, w), mkConst(a->a[2]->c & b->c, w));
		}
		break;
	case K_Or:
		if (a == b) return a;
		if (b->isConst()) {
			if (b->c == 0) return a;
			if (b->c == ones) return b;
		} else {
			// (h . 0) | zext(l)  =  h . l
			for (int i = 0; i < 2; i++) {
				E x = i ? b : a, y = i ? a : b;
				if (x->k == K_Concat && x->a[1]->isConst() && x->a[1]->c == 0 &&
				    y->k == K_ZExt && y->a[0]->w <= x->a[1]->w)
					return mkConcat(x->a[0], mkZExt(y->a[0], x->a[1]->w));
				if (x->k == K_ZExt && x->a[0]->k == K_Concat && x->a[0]->a[1]->isConst() &&
				    x->a[0]->a[1]->c == 0 && y->k == K_ZExt && y->a[0]->w <= x->a[0]->a[1]->w)
					return mkZExt(mkConcat(x->a[0]->a[0], mkZExt(y->a[0], x->a[0]->a[1]->w)), w);
			}
		}
		break;
	case K_Xor:
		if (a == b) return mkConst(0, w);
		if (b->isConst()) {
			if (b->c == 0) return a;
			if (w == 1) return mkNot(a);
			if (a->k == K_Xor && a->a[1]->isConst())
				return mkBin(K_Xor, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
		}
		break;
	case K_Shl: case K_LShr: case K_AShr:
		if (b->isConst()) {
			if (b->c == 0) return a;
			if (b->c >= w && k != K_AShr) return mkConst(0, w);
			if (k == K_Shl) {
				unsigned s = (unsigned)b->c;
				return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
			}
			if (k == K_LShr) {
				unsigned s = (unsigned)b->c;
				return mkZExt(mkExtract(a, s, w - s), w);
			}
		}
		if (a->isConst() && a->c == 0) return a;
		break;
	case K_Eq:
		if (a == b) return mkTrue();
		if (w == 1 && b->isConst()) return b->c ? a : mkNot(a);
		if (b->isConst()) {
			if (a->k == K_ZExt) {
				unsigned iw = a->a[0]->w;
				if (b->c & ~maskw(iw)) return mkFalse();
				return mkBin(K_Eq, a->a[0], mkConst(b->c, iw));
			}
			if (a->k == K_SExt) {
				unsigned iw = a->a[0]->w;
				u128 t = b->c & maskw(iw);
				if (((u128)sextw(t, iw) & maskw(w)) != b->c) return mkFalse();
				return mkBin(K_Eq, a->a[0], mkConst(t, iw));
			}
			if (a->k == K_Add && a->a[1]->isConst())
				return mkBin(K_Eq, a->a[0], mkConst(b->c - a->a[1]->c, w));
			if (a->k == K_Concat) {
				unsigned lw = a->a[1]->w;
				if (a->a[1]->isConst()) {
					if ((b->c & maskw(lw)) != a->a[1]->c) return mkFalse();
					return mkBin(K_Eq, a->a[0], mkConst(b->c >> lw, a->a[0]->w));
				}
				if (a->a[0]->isConst()) {
					if ((b->c >> lw) != a->a[0]->c) return mkFalse();
					return mkBin(K_Eq, a->a[1], mkConst(b->c, lw));
				}
			}
			if (a->k == K_Ite && (a->a[1]->isConst() || a->a[2]->isConst()))
				return mkIte(a->a[0], mkBin(K_Eq, a->a[1], b), mkBin(K_Eq, a->a[2], b));
		} else {
			if (a->k == K_Add && b->k == K_Add && a->a[1] == b->a[1])
				return mkBin(K_Eq, a->a[0], b->a[0]);
			if (a->k == K_Add && a->a[1]->isConst() && a->a[0] == b)
				return mkFalse();
			if (b->k == K_Add && b->a[1]->isConst() && b->a[0] == a)
				return mkFalse();
			if (a->k == K_ZExt && b->k == K_ZExt) {
				unsigned n = std::max(a->a[0]->w, b->a[0]->w);
				return mkBin(K_Eq, mkZExt(a->a[0], n), mkZExt(b->a[0], n));
			}
			if (a->k == K_Concat && b->k == K_Concat && a->a[1] == b->a[1])
				return mkBin(K_Eq, a->a[0], b->a[0]);
		}
		break;
	case K_Ult: case K_Ule:
		if (a == b) return mkConst(k == K_Ule, 1);
		if (b->isConst()) {
			if (k == K_Ult && b->c == 0) return mkFalse();
			if (k == K_Ult && b->c == 1) return mkBin(K_Eq, a, mkConst(0, w));
			if (k == K_Ule && b->c == ones) return mkTrue();
			if (k == K_Ule && b->c == 0) return mkBin(K_Eq, a, b);
			if (a->k == K_ZExt) {
				unsigned iw = a->a[0]->w;
				if (b->c > maskw(iw)) return mkTrue();
				return mkBin(k, a->a[0], mkConst(b->c, iw));
			}
			if (a->k == K_Concat && a->a[1]->isConst()) {
				// h.l <= B  iff  h < Bh or (h == Bh and l <= Bl)
				unsigned lw = a->a[1]->w;
				u128 bl = b->c & maskw(lw);
				bool le = k == K_Ule ? a->a[1]->c <= bl : a->a[1]->c < bl;
				return mkBin(le ? K_Ule : K_Ult, a->a[0], mkConst(b->c >> lw, a->a[0]->w));
			}
			if (a->k == K_Ite && (a->a[1]->isConst() || a->a[2]->isConst()))
				return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
		}
		if (a->isConst()) {
			if (b->k == K_Concat && b->a[1]->isConst()) {
				unsigned lw = b->a[1]->w;
				u128 al = a->c & maskw(lw);
				bool le = k == K_Ule ? al <= b->a[1]->c : al < b->a[1]->c;
				return mkBin(le ? K_Ule : K_Ult, mkConst(a->c >> lw, b->a[0]->w), b->a[0]);
			}
			if (k == K_Ult && a->c == ones) return mkFalse();
			if (k == K_Ult && a->c == 0) return mkNot(mkBin(K_Eq, b, a));
			if (k == K_Ule && a->c == 0) return mkTrue();
			if (b->k == K_ZExt) {
				unsigned iw = b->a[0]->w;
				if (a->c > maskw(iw)) return mkFalse();
				return mkBin(k, mkConst(a->c, iw), b->a[0]);
			}
			if (b->k == K_Ite && (b->a[1]->isConst() || b->a[2]->isConst()))
				return mkIte(b->a[0], mkBin(k, a, b->a[1]), mkBin(k, a, b->a[2]));
		}
		if (a->k == K_ZExt && b->k == K_ZExt) {
			unsigned n = std::max(a->a[0]->w, b->a[0]->w);
			return mkBin(k, mkZExt(a->a[0], n), mkZExt(b->a[0], n));
		}
		if (a->k == K_Concat && b->k == K_Concat && a->a[1] == b->a[1])
			return mkBin(k, a->a[0], b->a[0]);
		break;
	case K_Slt: case K_Sle:
		if (a == b) return mkConst(k == K_Sle, 1);
		// both known non-negative: use the unsigned comparison
		{
			auto nonneg = [](E x) {
				if (x->isConst()) return !((x->c >> (x->w - 1)) & 1);
				return x->k == K_ZExt;
			};
			if (nonneg(a) && nonneg(b))
				return mkBin(k == K_Slt ? K_Ult : K_Ule, a, b);
		}
		break;
	default: break;
	}
	return mkRaw(k, rw, 0, a, b);
}

E mkZExt(E a, unsigned w)
{
	if (a->w == w) return a;
	if (a->isConst()) return mkConst(a->c, w);
	if (a->k == K_ZExt) return mkZExt(a->a[0], w);
	return mkRaw(K_ZExt, w, 0, a);
}

E mkSExt(E a, unsigned w)
{
	if (a->w == w) return a;
	if (a->isConst()) return mkConst((u128)sextw(a->c, a->w), w);
	if (a->k == K_ZExt) return mkZExt(a->a[0], w);
	if (a->k == K_SExt) return mkSExt(a->a[0], w);
	return mkRaw(K_SExt, w, 0, a);
}

E mkExtract(E a, unsigned off, unsigned w)
{
	if (off == 0 && w == a->w) return a;
	if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
	if (a->isConst()) return mkConst(a->c >> off, w);
	switch (a->k) {
	case K_Extract: return mkExtract(a->a[0], off + (unsigned)a->c, w);
	case K_ZExt: {
		unsigned iw = a->a[0]->w;
		if (off >= iw) return mkConst(0, w);
		if (off + w <= iw) return mkExtract(a->a[0], off, w);
		return mkZExt(mkExtract(a->a[0], off, iw - off), w); }
	case K_SExt: {
		unsigned iw = a->a[0]->w;
		if (off + w <= iw) return mkExtract(a->a[0], off, w);
		if (off == 0) return mkSExt(a->a[0], w);
		break; }
	case K_Concat: {
		unsigned lw = a->a[1]->w;
		if (off >= lw) return mkExtract(a->a[0], off - lw, w);
		if (off + w <= lw) return mkExtract(a->a[1], off, w);
		return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off)); }
	case K_Ite:
		if (a->a[1]->isConst() || a->a[2]->isConst())
			return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
		break;
	case K_And: case K_Or: case K_Xor:
		return mkBin(a->k, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
	case K_Add: case K_Sub: case K_Mul:
		if (off == 0 && w >= 8)
			return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
		break;
	default: break;
	}
	return mkRaw(K_Extract, w, off, a);
}

E mkConcat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if (hi->w == 0) return lo;
	if (lo->w == 0) return hi;
	if (hi->isConst() && lo->isConst()) return mkConst((hi->c << lo->w) | lo->c, w);
	if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
	if (hi->k == K_Extract && lo->k == K_Extract && hi->a[0] == lo->a[0] &&
	    hi->c == lo->c + lo->w)
		return mkExtract(hi->a[0], (unsigned)lo->c, w);
	// (concat (extract x n m) lo-is-whole-prefix): x = lo widened
	if (hi->k == K_ZExt)
		return mkZExt(mkConcat(hi->a[0], lo), w);
	if (lo->k == K_Concat)
		return mkConcat(mkConcat(hi, lo->a[0]), lo->a[1]);
	if (hi->k == K_Concat && hi->a[1]->k == K_Extract && lo->k == K_Extract &&
	    hi->a[1]->a[0] == lo->a[0] && hi->a[1]->c == lo->c + lo->w)
		return mkConcat(hi->a[0], mkExtract(lo->a[0], (unsigned)lo->c, hi->a[1]->w + lo->w));
	if (hi->k == K_Concat && hi->a[1]->isConst() && lo->isConst())
		return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
	// ite bytes of the same condition
	if (hi->k == K_Ite && lo->k == K_Ite && hi->a[0] == lo->a[0])
		return mkIte(hi->a[0], mkConcat(hi->a[1], lo->a[1]), mkConcat(hi->a[2], lo->a[2]));
	if (hi->isConst() && lo->k == K_Ite && lo->a[1]->isConst() && lo->a[2]->isConst())
		return mkIte(lo->a[0], mkConcat(hi, lo->a[1]), mkConcat(hi, lo->a[2]));
	if (lo->isConst() && hi->k == K_Ite && hi->a[1]->isConst() && hi->a[2]->isConst())
		return mkIte(hi->a[0], mkConcat(hi->a[1], lo), mkConcat(hi->a[2], lo));
	return mkRaw(K_Concat, w, 0, hi, lo);
}

E mkIte(E c, E a, E b)
{
	if (c->isConst()) return c->c ? a : b;
	if (a == b) return a;
	if (a->w == 1) {
		if (a->isConst() && b->isConst()) return a->c ? c : mkNot(c);
		if (a->isConst()) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
		if (b->isConst()) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
	}
	if (c->k == K_Xor && c->w == 1 && c->a[1]->isConst() && c->a[1]->c == 1)
		return mkIte(c->a[0], b, a);
	return mkRaw(K_Ite, a->w, 0, c, a, b);
}

static std::vector<uint32_t> stamp;
static std::vector<u128> sval;
static uint32_t curStamp;

static u128 evalRec(E e, const Model &m)
{
	if (e->k == K_Const) return e->c;
	if (e->k == K_Var) {
		uint64_t i = (uint64_t)e->c;
		return (i < m.size() ? m[i] : 0) & maskw(e->w);
	}
	if (stamp[e->id] == curStamp) return sval[e->id];
	u128 r;
	switch (e->k) {
	case K_ZExt: r = evalRec(e->a[0], m); break;
	case K_SExt: r = (u128)sextw(evalRec(e->a[0], m), e->a[0]->w) & maskw(e->w); break;
	case K_Extract: r = (evalRec(e->a[0], m) >> (unsigned)e->c) & maskw(e->w); break;
	case K_Concat: r = (evalRec(e->a[0], m) << e->a[1]->w) | evalRec(e->a[1], m); break;
	case K_Ite: r = evalRec(e->a[0], m) ? evalRec(e->a[1], m) : evalRec(e->a[2], m); break;
	default: {
		u128 x = evalRec(e->a[0], m), y = evalRec(e->a[1], m);
		r = foldBin(e->k, x, y, e->a[0]->w); }
	}
	stamp[e->id] = curStamp;
	sval[e->id] = r;
	return r;
}

u128 evalExpr(E e, const Model &m)
{
	if (e->k == K_Const) return e->c;
	if (stamp.size() < allExprs.size()) {
		stamp.resize(allExprs.size() * 2, 0);
		sval.resize(allExprs.size() * 2);
	}
	curStamp++;
	return evalRec(e, m);
}
