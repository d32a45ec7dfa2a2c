// Hash-consed bit-vector expressions with light simplification.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>

typedef unsigned __int128 u128;

enum Kind : uint8_t {
	K_Const, K_Var, K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
	K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr, K_Eq, K_Ult, K_Ule, K_Slt,
	K_Sle, K_ZExt, K_SExt, K_Extract, K_Concat, K_Ite
};

struct Expr {
	Kind k;
	uint16_t w;
	uint32_t id;
	u128 c;			// constant, var index, or extract offset
	uint64_t sh;		// structural hash (stable across worker processes)
	Expr *a[3];
	std::vector<uint32_t> *vars;	// sorted variable ids
	bool isConst() const { return k == K_Const; }
};
typedef Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline __int128 sextw(u128 v, unsigned w)
{
	if (w >= 128)
		return (__int128)v;
	u128 m = (u128)1 << (w - 1);
	return (__int128)((v ^ m) - m);
}

struct ExprKey {
	Kind k; uint16_t w; u128 c; E a[3];
	bool operator==(const ExprKey &o) const {
		return k == o.k && w == o.w && c == o.c && a[0] == o.a[0] &&
		       a[1] == o.a[1] && a[2] == o.a[2];
	}
};
struct ExprHash {
	size_t operator()(const ExprKey &x) const {
		uint64_t h = x.k * 0x9e3779b97f4a7c15ull + x.w;
		auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
		mix((uint64_t)x.c); mix((uint64_t)(x.c >> 64));
		for (int i = 0; i < 3; i++) mix(x.a[i] ? x.a[i]->id + 1 : 0);
		return h;
	}
};

extern std::unordered_map<ExprKey, E, ExprHash> exprTab;
extern std::vector<E> allExprs;

E mkRaw(Kind k, unsigned w, u128 c, E a0 = nullptr, E a1 = nullptr, E a2 = nullptr);
static inline E mkConst(u128 v, unsigned w) { return mkRaw(K_Const, w, v & maskw(w)); }
static inline E mkVar(uint32_t idx, unsigned w) { return mkRaw(K_Var, w, idx); }
E mkBin(Kind k, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
static inline E mkTrue() { return mkConst(1, 1); }
static inline E mkFalse() { return mkConst(0, 1); }
E mkNot(E a);
static inline E mkAnd1(E a, E b) { return mkBin(K_And, a, b); }
static inline E mkOr1(E a, E b) { return mkBin(K_Or, a, b); }
u128 foldBin(Kind k, u128 x, u128 y, unsigned w);

typedef std::vector<uint64_t> Model;	// by variable index
u128 evalExpr(E e, const Model &m);
