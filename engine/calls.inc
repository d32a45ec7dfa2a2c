// External calls: harness intrinsics (vp_*), libc models, LLVM intrinsics.

static void retv(State &s, DInst &d, const RV &v)
{
	Frame &fr = s.th[s.cur].fr.back();
	if (d.dst >= 0) fr.regs[d.dst] = v;
	fr.pc++;
}

static uint64_t concArg(const RV &v, unsigned w, const char *what)
{
	if (!v.e) return v.c;
	(void)w;
	return concretize(v.e, what);
}

// Is [a, a+n) inside one live object (n may be symbolic)? -> i1
static E inObject(uint64_t a, E n)
{
	State &s = *cur;
	int i = findObjIdx(s, a);
	if (i < 0) return mkBin(K_Eq, n, mkConst(0, 64));
	Obj *o = s.objs[i].get();
	if (!o->alive) return mkFalse();
	E sz = o->symSize ? o->symSize : mkConst(o->size, 64);
	E room = mkBin(K_Sub, sz, mkConst(a - o->base, 64));
	E ok = mkAnd1(mkBin(K_Ule, mkConst(a - o->base, 64), sz), mkBin(K_Ule, n, room));
	return ok;
}

static void execCall(State &s, Thread &T, DInst &d)
{
	Frame &fr = T.fr.back();
	if (d.callee) {
		std::vector<RV> args;
		for (auto &o : d.ops) args.push_back(get(fr, o));
		Func *f = d.callee;
		fr.pc++;
		pushFrame(s, s.cur, f, args, d.dst, d.w);
		return;
	}
	if (d.ext == "__indirect") {
		RV p = get(fr, d.ops.back());
		uint64_t a = p.e ? concretize(p.e, "function pointer") : p.c;
		auto it = funcAt.find(a);
		if (it == funcAt.end()) report("bad-call", "call through an invalid function pointer", s.model, true);
		std::vector<RV> args;
		for (size_t i = 0; i + 1 < d.ops.size(); i++) args.push_back(get(fr, d.ops[i]));
		fr.pc++;
		pushFrame(s, s.cur, it->second, args, d.dst, d.w);
		return;
	}
	const std::string &n = d.ext;
	auto A = [&](int i) { return get(fr, d.ops[i]); };
	auto W = [&](int i) { return (unsigned)d.imm[i]; };
	auto EA = [&](int i) { return toE(A(i), W(i)); };
	if (n == "__inline_asm") { retv(s, d, rvc(0)); return; }	// compiler barriers
	// ---- harness intrinsics
	if (n[0] == 'v' && n.compare(0, 3, "vp_") == 0) {
		if (n == "vp_u64") {
			E v = freshVar(s, 64);
			s.inputs.push_back(v);
			retv(s, d, fromE(v));
			return;
		}
		if (n == "vp_range") {
			uint64_t lo = concArg(A(0), 64, "range"), hi = concArg(A(1), 64, "range");
			if (lo > hi) { st.killed++; endPath(); }
			if (lo == hi) { s.inputs.push_back(mkConst(lo, 64)); retv(s, d, rvc(lo)); return; }
			unsigned w = 1;
			while (w < 64 && (hi >> w)) w++;
			E x = freshVar(s, w);
			E v = mkZExt(x, 64);
			s.inputs.push_back(v);
			if (s.model.size() <= x->c) s.model.resize((size_t)x->c + 1, 0);
			s.model[(size_t)x->c] = lo;
			addCons(s, mkBin(K_Ule, mkConst(lo, 64), v));
			addCons(s, mkBin(K_Ule, v, mkConst(hi, 64)));
			retv(s, d, fromE(v));
			return;
		}
		if (n == "vp_choose") {
			// an arbitrary value of [0, n), the path split on it
			uint64_t k = concArg(A(0), 64, "choice");
			if (k == 0) { st.killed++; endPath(); }
			for (uint64_t i = 1; i < k; i++) {
				SP t = cloneState(s);
				t->depth++;
				t->inputs.push_back(mkConst(i, 64));
				retv(*t, d, rvc(i));
				queue.push_back(std::move(t));
			}
			s.depth++;
			s.inputs.push_back(mkConst(0, 64));
			retv(s, d, rvc(0));
			return;
		}
		if (n == "vp_merge") {
			// drop the path when this very state was reached before
			fr.pc++;
			st.points++;
			if (visited && seenState(s)) { st.merged++; endPath(); }
			return;
		}
		if (n == "vp_check") {
			RV c = A(0);
			std::string msg = readCStr(A(1).c);
			E e = c.e ? mkNot(mkBin(K_Eq, c.e, mkConst(0, c.e->w))) : mkConst(c.c != 0, 1);
			obligation(e, "assert", msg);
			T.fr.back().pc++;
			return;
		}
		if (n == "vp_assume") {
			RV c = A(0);
			E e = c.e ? mkNot(mkBin(K_Eq, c.e, mkConst(0, c.e->w))) : mkConst(c.c != 0, 1);
			assume(e);
			T.fr.back().pc++;
			return;
		}
		if (n == "vp_end") { finishPath(); }
		if (n == "vp_witness") { witnesses[readCStr(A(0).c)]++; fr.pc++; return; }
		if (n == "vp_log") { s.log.push_back({readCStr(A(0).c), EA(1)}); fr.pc++; return; }
		if (n == "vp_concretize") {
			RV v = A(0);
			uint64_t c = v.e ? concretize(v.e, "harness") : v.c;
			retv(s, d, rvc(c));
			return;
		}
		if (n == "vp_alloc") {	// size, align, zero
			uint64_t al = concArg(A(1), 64, "align");
			uint64_t z = A(2).c;
			retv(s, d, rvc(allocObj(EA(0), al, O_RAW, z ? 0 : 1)));
			return;
		}
		if (n == "vp_dealloc") { freeObj(concArg(A(0), 64, "free"), "vp_dealloc"); fr.pc++; return; }
		if (n == "vp_protect" || n == "vp_unprotect") {
			poisonRange(concArg(A(0), 64, "protect"), concArg(A(1), 64, "protect"), 2, n == "vp_protect");
			fr.pc++;
			return;
		}
		if (n == "vp_accessible") {
			uint64_t a = concArg(A(0), 64, "pointer");
			retv(s, d, fromE(mkZExt(inObject(a, EA(1)), d.w)));
			return;
		}
		if (n == "vp_is_poisoned") {	// one byte: 1 poisoned/dead, 0 fine
			uint64_t a = concArg(A(0), 64, "pointer");
			int i = findObjIdx(s, a);
			uint64_t r = 1;
			if (i >= 0 && s.objs[i]->alive) {
				uint64_t off = a - s.objs[i]->base;
				Page *p = s.objs[i]->ro_page(off / PG);
				r = p ? (p->poison[off % PG] != 0) : 0;
			}
			retv(s, d, rvc(r));
			return;
		}
		if (n == "vp_symbolic") {	// fresh bytes
			uint64_t a = concArg(A(0), 64, "pointer"), k = concArg(A(1), 64, "size");
			for (uint64_t i = 0; i < k; i++) {
				E v = freshVar(s, 8);
				s.inputs.push_back(mkZExt(v, 64));
				storeBytes(a + i, fromE(v), 1, 8, false);
			}
			fr.pc++;
			return;
		}
		if (n == "vp_shared") {
			uint64_t a = concArg(A(0), 64, "pointer");
			int i = findObjIdx(s, a);
			if (i < 0) report("bad-call", "vp_shared", s.model, true);
			rwObj(s, i)->shared = true;
			fr.pc++;
			return;
		}
		if (n == "vp_spawn") {
			uint64_t fa = A(0).c;
			auto it = funcAt.find(fa);
			if (it == funcAt.end()) report("bad-call", "vp_spawn", s.model, true);
			RV arg = A(1);
			fr.pc++;
			s.th.emplace_back();
			int t = s.th.size() - 1;
			for (auto *g : tlsVars) {	// a private copy per thread
				uint64_t a = newObj(s, DL->getTypeAllocSize(g->getValueType()), std::max<uint64_t>(16, DL->getPreferredAlign(g).value()), O_GLOBAL, 0);
				if (g->hasInitializer()) initGlobal(s, a, g->getInitializer(), 0);
				s.th[t].tls.push_back(a);
			}
			pushFrame(s, t, it->second, {arg}, -1, 0);
			return;
		}
		if (n == "vp_join") {
			fr.pc++;
			if (s.th.size() == 1) return;
			s.th[0].state = T_JOIN;
			pickNext(s);
			return;
		}
		if (n == "vp_tid") { retv(s, d, rvc(s.cur)); return; }
		if (n == "vp_is_symbolic_run") { retv(s, d, rvc(1)); return; }
		errs() << "unknown intrinsic " << n << "\n";
		exit(3);
	}
	// ---- LLVM intrinsics
	if (n.compare(0, 5, "llvm.") == 0) {
		const char *c = n.c_str() + 5;
		auto is = [&](const char *p) { return strncmp(c, p, strlen(p)) == 0; };
		if (is("memcpy.") || is("memmove.")) {
			uint64_t k = concArg(A(2), 64, "memcpy size");
			uint64_t dd = concArg(A(0), 64, "address"), ss = concArg(A(1), 64, "address");
			if (is("memcpy.") && dd != ss && dd < ss + k && ss < dd + k) report("memcpy-overlap", "memcpy() of overlapping memory", s.model, true);
			copyBytes(dd, ss, k, T.fr.back().asan);
			T.fr.back().pc++;
			return;
		}
		if (is("memset.")) {
			uint64_t k = concArg(A(2), 64, "memset size");
			uint64_t dd = concArg(A(0), 64, "address");
			setBytes(dd, A(1), k, fr.asan);
			fr.pc++;
			return;
		}
		if (is("expect.")) { retv(s, d, A(0)); return; }
		if (is("assume")) { fr.pc++; return; }
		if (is("dbg.") || is("donothing") || is("prefetch")) { fr.pc++; return; }
		if (is("trap") || is("debugtrap")) report("trap", "trap", s.model, true);
		if (is("threadlocal.address")) {
			RV a = A(0);
			auto &tls = s.th[s.cur].tls;
			if (!a.e) for (size_t i = 0; i < tls.size(); i++) if (gaddr[tlsVars[i]] == (uint64_t)a.c) { a = rvc(tls[i]); break; }
			retv(s, d, a);
			return;
		}
		if (is("stacksave")) { retv(s, d, rvc(0)); return; }
		if (is("stackrestore")) { fr.pc++; return; }
		if (is("is.constant.")) { retv(s, d, rvc(0)); return; }
		if (is("objectsize.")) { retv(s, d, rvc(~0ull)); return; }
		if (is("ptrmask.")) { retv(s, d, fromE(mkBin(K_And, EA(0), EA(1)))); return; }
		unsigned w = d.ops.size() ? W(0) : 0;
		auto ovf = [&](Kind k, bool sg) {
			E x = EA(0), y = EA(1);
			unsigned ww = k == K_Mul ? 2 * w : w + 1;
			E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
			E R = mkBin(k, X, Y);
			E r = mkExtract(R, 0, w);
			E o = mkNot(mkBin(K_Eq, sg ? mkSExt(r, ww) : mkZExt(r, ww), R));
			RV v; v.agg = new std::vector<RV>{fromE(r), fromE(o)};
			retv(s, d, v);
		};
		if (is("uadd.with.overflow")) { ovf(K_Add, false); return; }
		if (is("sadd.with.overflow")) { ovf(K_Add, true); return; }
		if (is("usub.with.overflow")) { ovf(K_Sub, false); return; }
		if (is("ssub.with.overflow")) { ovf(K_Sub, true); return; }
		if (is("umul.with.overflow")) { ovf(K_Mul, false); return; }
		if (is("smul.with.overflow")) { ovf(K_Mul, true); return; }
		if (is("umin.")) { E x = EA(0), y = EA(1); retv(s, d, fromE(mkIte(mkBin(K_Ult, x, y), x, y))); return; }
		if (is("umax.")) { E x = EA(0), y = EA(1); retv(s, d, fromE(mkIte(mkBin(K_Ult, x, y), y, x))); return; }
		if (is("smin.")) { E x = EA(0), y = EA(1); retv(s, d, fromE(mkIte(mkBin(K_Slt, x, y), x, y))); return; }
		if (is("smax.")) { E x = EA(0), y = EA(1); retv(s, d, fromE(mkIte(mkBin(K_Slt, x, y), y, x))); return; }
		if (is("abs.")) { E x = EA(0); retv(s, d, fromE(mkIte(mkBin(K_Slt, x, mkConst(0, w)), mkBin(K_Sub, mkConst(0, w), x), x))); return; }
		if (is("usub.sat.")) { E x = EA(0), y = EA(1); retv(s, d, fromE(mkIte(mkBin(K_Ult, x, y), mkConst(0, w), mkBin(K_Sub, x, y)))); return; }
		if (is("uadd.sat.")) { E x = EA(0), y = EA(1), z = mkBin(K_Add, x, y); retv(s, d, fromE(mkIte(mkBin(K_Ult, z, x), mkConst(maskw(w), w), z))); return; }
		if (is("ctlz.")) {	// fork on the position of the leading one
			E x = EA(0);
			if (x->isConst()) { retv(s, d, fromE(clz(x))); return; }
			uint64_t v = (uint64_t)evalExpr(x, s.model);
			int k = -1;
			while (k + 1 < x->w && k + 1 < 64 && (v >> (k + 1))) k++;
			if (k >= 0) forkCond(mkBin(K_Ule, mkConst((u128)1 << k, x->w), x));
			if (k + 1 < x->w) forkCond(mkBin(K_Ult, x, mkConst((u128)1 << (k + 1), x->w)));
			retv(s, d, rvc(x->w - 1 - k));
			return;
		}
		if (is("cttz.")) { retv(s, d, fromE(ctz(EA(0)))); return; }
		if (is("ctpop.")) {
			E x = EA(0), r = mkConst(0, w);
			for (unsigned i = 0; i < w; i++) r = mkBin(K_Add, r, mkZExt(mkExtract(x, i, 1), w));
			retv(s, d, fromE(r));
			return;
		}
		if (is("bswap.")) {
			E x = EA(0), r = mkExtract(x, 0, 8);
			for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(x, 8 * i, 8));
			retv(s, d, fromE(r));
			return;
		}
		if (is("fshl.") || is("fshr.")) {
			E x = EA(0), y = EA(1), z = mkBin(K_URem, EA(2), mkConst(w, w));
			E cc = mkConcat(x, y), zz = mkZExt(z, 2 * w);
			E r = is("fshl.") ? mkExtract(mkBin(K_Shl, cc, zz), w, w) : mkExtract(mkBin(K_LShr, cc, zz), 0, w);
			retv(s, d, fromE(r));
			return;
		}
		auto f1 = [&](double (*fn)(double)) { retv(s, d, ofF(fn(asF(A(0), w)), w)); };
		if (is("fabs.")) { f1(fabs); return; }
		if (is("floor.")) { f1(floor); return; }
		if (is("ceil.")) { f1(ceil); return; }
		if (is("round.")) { f1(round); return; }
		if (is("sqrt.")) { f1(sqrt); return; }
		if (is("log2.")) { f1(log2); return; }
		if (is("log.")) { f1(log); return; }
		if (is("exp.")) { f1(exp); return; }
		if (is("pow.")) { retv(s, d, ofF(pow(asF(A(0), w), asF(A(1), w)), w)); return; }
		if (is("fmuladd.") || is("fma.")) {
			double x = asF(A(0), w), y = asF(A(1), w), z = asF(A(2), w);
			retv(s, d, ofF(w == 32 ? (float)x * (float)y + (float)z : x * y + z, w));
			return;
		}
		markIncomplete("unsupported intrinsic " + n);
	}
	// ---- libc
	if (n == "malloc") { retv(s, d, rvc(allocObj(EA(0), 16, O_HEAP, 1))); return; }
	if (n == "calloc") {
		E sz = mkBin(K_Mul, EA(0), EA(1));
		retv(s, d, rvc(allocObj(sz, 16, O_HEAP, 0)));
		return;
	}
	if (n == "aligned_alloc" || n == "memalign") {
		uint64_t al = concArg(A(0), 64, "align");
		retv(s, d, rvc(allocObj(EA(1), al, O_HEAP, 1)));
		return;
	}
	if (n == "realloc") {
		uint64_t p = concArg(A(0), 64, "pointer"), k = concArg(A(1), 64, "size");
		uint64_t q = newObj(s, k, 16, O_HEAP, 1);
		if (p) {
			int i = findObjIdx(s, p);
			if (i < 0 || s.objs[i]->base != p || !s.objs[i]->alive) report("bad-free", "realloc", s.model, true);
			copyBytes(q, p, std::min<uint64_t>(k, s.objs[i]->size), false);
			freeObj(p, "realloc");
		}
		retv(s, d, rvc(q));
		return;
	}
	if (n == "free") { freeObj(concArg(A(0), 64, "free"), "free"); fr.pc++; return; }
	if (n == "memcpy" || n == "memmove") {
		uint64_t k = concArg(A(2), 64, "memcpy size"), dd = concArg(A(0), 64, "address"), ss = concArg(A(1), 64, "address");
		if (n == "memcpy" && dd != ss && dd < ss + k && ss < dd + k) report("memcpy-overlap", "memcpy() of overlapping memory", s.model, true);
		copyBytes(dd, ss, k, fr.asan);
		retv(s, d, rvc(dd));
		return;
	}
	if (n == "memset") {
		uint64_t k = concArg(A(2), 64, "memset size"), dd = concArg(A(0), 64, "address");
		RV v = A(1);
		if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255;
		setBytes(dd, v, k, fr.asan);
		retv(s, d, rvc(dd));
		return;
	}
	if (n == "memcmp" || n == "bcmp") {
		uint64_t k = concArg(A(2), 64, "memcmp size"), x = concArg(A(0), 64, "address"), y = concArg(A(1), 64, "address");
		E r = mkConst(0, 32);
		for (uint64_t i = k; i-- > 0;) {
			E p = toE(loadBytes(x + i, 1, 8, fr.asan), 8), q = toE(loadBytes(y + i, 1, 8, fr.asan), 8);
			r = mkIte(mkBin(K_Eq, p, q), r, mkIte(mkBin(K_Ult, p, q), mkConst((u128)-1, 32), mkConst(1, 32)));
		}
		retv(s, d, fromE(r));
		return;
	}
	if (n == "strlen") { retv(s, d, rvc(readCStr(concArg(A(0), 64, "address")).size())); return; }
	if (n == "__assert_fail" || n == "__assert") {
		report("assert", "assertion in the code: " + readCStr(A(0).c), s.model, true);
	}
	if (n == "abort") report("abort", "abort() called", s.model, true);
	if (n == "exit" || n == "_exit") report("exit", "exit() called", s.model, true);
	if (n == "__asan_poison_memory_region" || n == "__asan_unpoison_memory_region") {
		poisonRange(concArg(A(0), 64, "poison"), concArg(A(1), 64, "poison"), 1, n == "__asan_poison_memory_region");
		fr.pc++;
		return;
	}
	if (n == "__asan_address_is_poisoned") {
		uint64_t a = concArg(A(0), 64, "pointer");
		int i = findObjIdx(s, a);
		uint64_t r = 1;
		if (i >= 0 && s.objs[i]->alive) {
			uint64_t off = a - s.objs[i]->base;
			Page *p = s.objs[i]->ro_page(off / PG);
			r = p ? (p->poison[off % PG] & 1) : 0;
		}
		retv(s, d, rvc(r));
		return;
	}
	if (n == "sysconf" || n == "getpagesize") { retv(s, d, rvc(4096)); return; }
	if (n == "pthread_self") { retv(s, d, rvc(1)); return; }
	if (n == "pthread_equal") { retv(s, d, fromE(mkZExt(mkBin(K_Eq, EA(0), EA(1)), d.w))); return; }
	if (n == "fprintf" || n == "printf" || n == "puts" || n == "fputs" || n == "putchar" || n == "fflush" || n == "perror" ||
	    n == "fwrite" || n == "fputc" || n == "putc") {
		retv(s, d, rvc(0));
		return;
	}
	if (n == "pow" || n == "powf") { retv(s, d, ofF(n == "powf" ? powf(asF(A(0), 32), asF(A(1), 32)) : pow(asF(A(0), 64), asF(A(1), 64)), d.w)); return; }
	if (n == "log" || n == "log2" || n == "exp" || n == "floor" || n == "ceil" || n == "round" || n == "sqrt" || n == "log10") {
		double x = asF(A(0), 64), r = n == "log" ? log(x) : n == "log2" ? log2(x) : n == "exp" ? exp(x) : n == "floor" ? floor(x) : n == "ceil" ? ceil(x) : n == "round" ? round(x) : n == "sqrt" ? sqrt(x) : log10(x);
		retv(s, d, ofF(r, 64));
		return;
	}
	if (n == "logf" || n == "log2f" || n == "expf" || n == "floorf" || n == "ceilf" || n == "roundf" || n == "sqrtf") {
		float x = asF(A(0), 32), r = n == "logf" ? logf(x) : n == "log2f" ? log2f(x) : n == "expf" ? expf(x) : n == "floorf" ? floorf(x) : n == "ceilf" ? ceilf(x) : n == "roundf" ? roundf(x) : sqrtf(x);
		retv(s, d, ofF(r, 32));
		return;
	}
	if (n == "__errno_location") {
		static uint64_t a;
		a = gaddr.empty() ? 0 : gaddr.begin()->second;
		markIncomplete("errno");
	}
	markIncomplete("call of an unmodelled function " + n);
}

// ---------------------------------------------------------------- set-up
static void initGlobal(State &s, uint64_t base, const Constant *C, uint64_t off)
{
	Type *t = C->getType();
	if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
	if (auto *cds = dyn_cast<ConstantDataSequential>(C)) {
		uint64_t es = DL->getTypeAllocSize(cds->getElementType());
		for (unsigned i = 0; i < cds->getNumElements(); i++) {
			uint64_t v = cds->getElementType()->isIntegerTy() ? cds->getElementAsInteger(i)
				: cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
			storeBytes(base + off + i * es, rvc(v), es, es * 8, false);
		}
		return;
	}
	if (auto *cs = dyn_cast<ConstantStruct>(C)) {
		auto *sl = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(s, base, cs->getOperand(i), off + sl->getElementOffset(i));
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(C)) {
		uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
		for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, base, ca->getOperand(i), off + i * es);
		return;
	}
	RV v = constVal(C);
	storeBytes(base + off, v, DL->getTypeStoreSize(t), widthOf(t), false);
}

static std::string jsonEsc(const std::string &x)
{
	std::string r;
	for (char c : x) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r;
}

static void writeResult(const std::string &path)
{
	std::ofstream o(path + ".tmp");
	o << "{\n";
	auto kv = [&](const char *k, uint64_t v) { o << " \"" << k << "\": " << v << ",\n"; };
	kv("paths", st.paths); kv("killed", st.killed); kv("forks", st.forks); kv("instrs", st.instrs);
	kv("queries", st.queries); kv("sat", st.qsat); kv("unsat", st.qunsat); kv("unknown", st.qunknown); kv("lia", st.lia);
	kv("cached", st.qcache); kv("obligations", st.obligations); kv("memchecks", st.memchecks);
	kv("sched_forks", st.schedForks); kv("max_depth", st.maxDepth);
	kv("budget_paths", st.pathsBudget); kv("merged", st.merged); kv("merge_points", st.points); kv("visited_full", visitedFull); kv("exprs", allExprs.size());
	o << " \"solver_s\": " << st.solver << ",\n";
	auto mp = [&](const char *k, const std::map<std::string, uint64_t> &m) {
		o << " \"" << k << "\": {";
		bool first = true;
		for (auto &p : m) { o << (first ? "" : ", ") << '"' << jsonEsc(p.first) << "\": " << p.second; first = false; }
		o << "},\n";
	};
	mp("incomplete", incomplete); mp("witnesses", witnesses);
	std::map<std::string, uint64_t> fr;
	for (auto &p : funcs) if (p.second->inRepo && p.second->calls) fr[p.second->file + ":" + p.first->getName().str()] += p.second->calls;
	mp("functions", fr);
	auto ins = [&](const std::vector<uint64_t> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << '"' << v[i] << '"'; o << "]"; };
	auto sch = [&](const std::vector<int> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i]; o << "]"; };
	auto lg = [&](const std::vector<std::pair<std::string, uint64_t>> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << "[\"" << jsonEsc(v[i].first) << "\", \"" << v[i].second << "\"]"; o << "]"; };
	o << " \"violations\": [";
	for (size_t i = 0; i < violations.size(); i++) {
		auto &v = violations[i];
		o << (i ? ",\n" : "\n") << "  {\"kind\": \"" << jsonEsc(v.kind) << "\", \"msg\": \"" << jsonEsc(v.msg) << "\", \"loc\": \"" << jsonEsc(v.loc)
		  << "\", \"stack\": \"" << jsonEsc(v.stack) << "\", \"inputs\": ";
		ins(v.inputs); o << ", \"sched\": "; sch(v.sched); o << ", \"log\": "; lg(v.log); o << "}";
	}
	o << "],\n \"samples\": [";
	for (size_t i = 0; i < samples.size(); i++) {
		o << (i ? ",\n" : "\n") << "  {\"inputs\": "; ins(samples[i].inputs); o << ", \"sched\": "; sch(samples[i].sched);
		o << ", \"log\": "; lg(samples[i].log); o << "}";
	}
	o << "],\n \"end\": 1\n}\n";
	o.close();
	rename((path + ".tmp").c_str(), path.c_str());
}


static uint64_t rssMb()
{
	FILE *f = fopen("/proc/self/statm", "r");
	if (!f) return 0;
	unsigned long a = 0, b = 0;
	if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
	fclose(f);
	return b * 4096 / (1 << 20);
}

static std::string outName;
static double lastFork;
static void drain();
[[noreturn]] static void explorer()
{
	uint64_t id = __sync_fetch_and_add(&shared->next, 1);
	Stats zero; st = zero;
	incomplete.clear(); witnesses.clear(); forkAt.clear(); violations.clear(); samples.clear(); sampleSeen = 0;
	for (auto &q : funcs) q.second->calls = 0;
	optSeed += id;
	lastFork = now();
	drain();
	if (forkFile) {
		FILE *f = fopen(forkFile, "a");
		for (auto &x : forkAt) fprintf(f, "%lu %s\n", (unsigned long)x.second, x.first.c_str());
		fclose(f);
	}
	writeResult(outName + ".w" + std::to_string(shared->next) + "." + std::to_string(getpid()));
	__sync_fetch_and_sub(&shared->active, 1);
	_exit(0);
}

// Hand half of the pending states to a new process if a core is idle.
static void shareWork(bool inPath)
{
	if (optWorkers <= 1 || shared->stop || queue.size() + inPath < 2 || shared->active >= (int)optWorkers) return;
	if (now() - lastFork < 0.02) return;
	if (__sync_fetch_and_add(&shared->active, 1) >= (int)optWorkers) { __sync_fetch_and_sub(&shared->active, 1); return; }
	lastFork = now();
	std::deque<SP> mine, theirs;
	bool t = true;
	for (auto &x : queue) { (t ? theirs : mine).push_back(std::move(x)); t = !t; }
	pid_t p = fork();
	if (p < 0) {
		__sync_fetch_and_sub(&shared->active, 1);
		for (auto &x : theirs) mine.push_back(std::move(x));
		queue.swap(mine);
		return;
	}
	if (p == 0) {
		mine.clear();
		cur.reset();
		queue.swap(theirs);
		explorer();
	}
	queue.swap(mine);
}

static void runState(SP s)
{
	cur = std::move(s);
	try {
		for (unsigned k = 0;; k++) {
			step();
			if ((k & 0xfff) == 0xfff && (shared->stop || now() - tStart > optMaxTime)) {
				if (!shared->stop) incomplete["time"]++;
				break;
			}
			if ((k & 0xfff) == 0xfff) shareWork(true);
		}
	} catch (PathEnd &) { }
	cur.reset();
}

static bool timeUp()
{
	static unsigned n;
	if (now() - tStart > optMaxTime) return true;
	if ((++n & 255) == 0 && rssMb() > optMemMb) { incomplete["memory"]++; return true; }
	return false;
}

static void drain()
{
	while (!queue.empty() && !shared->stop) {
		if (timeUp()) { incomplete["time"] += queue.size(); queue.clear(); break; }
		SP x = std::move(queue.back());
		queue.pop_back();
		runState(std::move(x));
		shareWork(false);
	}
}

// Insert a call before each access that may be a scheduling point, so that a
// native build of the same bitcode can be driven through the same schedule.
static int instrument(const char *in, const char *out)
{
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(in, err, ctx);
	if (!m) { err.print("sse", errs()); return 2; }
	auto fn = m->getOrInsertFunction("vp_sched_point", Type::getVoidTy(ctx), PointerType::get(ctx, 0), Type::getInt32Ty(ctx));
	auto tlsfn = m->getOrInsertFunction("vp_tls", PointerType::get(ctx, 0), PointerType::get(ctx, 0), Type::getInt64Ty(ctx));
	for (auto &F : *m) {
		if (F.isDeclaration()) continue;
		std::vector<CallInst *> tl;
		for (auto &B : F) for (auto &I : B)
			if (auto *c = dyn_cast<IntrinsicInst>(&I))
				if (c->getIntrinsicID() == Intrinsic::threadlocal_address) tl.push_back(c);
		for (auto *c : tl) {
			auto *g = dyn_cast<GlobalVariable>(c->getArgOperand(0));
			if (!g) continue;
			IRBuilder<> b(c->getNextNode());
			auto *r = b.CreateCall(tlsfn, {c, b.getInt64(m->getDataLayout().getTypeAllocSize(g->getValueType()))});
			c->replaceUsesWithIf(r, [&](Use &u) { return u.getUser() != r; });
		}
		std::vector<Instruction *> v;
		for (auto &B : F) for (auto &I : B)
			if (isa<LoadInst>(I) || isa<StoreInst>(I) || isa<AtomicCmpXchgInst>(I) || isa<AtomicRMWInst>(I)) v.push_back(&I);
		for (auto *I : v) {
			Value *p; bool at;
			if (auto *l = dyn_cast<LoadInst>(I)) { p = l->getPointerOperand(); at = l->isAtomic(); }
			else if (auto *x = dyn_cast<StoreInst>(I)) { p = x->getPointerOperand(); at = x->isAtomic(); }
			else if (auto *c = dyn_cast<AtomicCmpXchgInst>(I)) { p = c->getPointerOperand(); at = true; }
			else { p = cast<AtomicRMWInst>(I)->getPointerOperand(); at = true; }
			IRBuilder<> b(I);
			b.CreateCall(fn, {p, b.getInt32(at)});
		}
	}
	std::error_code ec;
	raw_fd_ostream os(out, ec);
	if (ec) return 2;
	WriteBitcodeToFile(*m, os);
	return 0;
}

int main(int argc, char **argv)
{
	std::string in, out = "sse.json", entry = "main";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if (a == "--out") out = nx();
		else if (a == "--workers") optWorkers = atoi(nx().c_str());
		else if (a == "--max-time") optMaxTime = atof(nx().c_str());
		else if (a == "--max-instr") optMaxInstr = atoll(nx().c_str());
		else if (a == "--query-ms") optQueryMs = atoi(nx().c_str());
		else if (a == "--preempt") optPreempt = atoi(nx().c_str());
		else if (a == "--max-viol") optMaxViol = atoi(nx().c_str());
		else if (a == "--samples") optSamples = atoi(nx().c_str());
		else if (a == "--seed") optSeed = atoi(nx().c_str());
		else if (a == "--mem-mb") optMemMb = atoll(nx().c_str());
		else if (a == "--sym-write") optSymWrite = true;
		else if (a == "--repo") optRepo = nx();
		else if (a == "--entry") entry = nx();
		else if (a == "--dump-smt") smtDump = fopen(nx().c_str(), "w");
		else if (a == "-v") optVerbose = true;
		else if (a == "--instrument") { std::string x = nx(), y = nx(); return instrument(x.c_str(), y.c_str()); }
		else in = a;
	}
	tStart = now();
	shared = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	visited = (Dig *)mmap(0, visitedCap * sizeof(Dig), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (visited == MAP_FAILED) visited = nullptr;
	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(in, err, ctx);
	if (!mod) { err.print("sse", errs()); return 2; }
	M = mod.get();
	DL = &M->getDataLayout();
	initZ3();
	uint64_t fa = 0x10000000;
	for (auto &F : *M) {
		if (F.isDeclaration()) continue;
		Func *f = new Func();
		f->F = &F;
		f->asan = F.hasFnAttribute(Attribute::SanitizeAddress);
		f->always = F.hasFnAttribute(Attribute::AlwaysInline);
		if (auto *sp = F.getSubprogram()) {
			f->file = sp->getFilename().str();
			if (f->file.compare(0, optRepo.size(), optRepo) == 0) { f->inRepo = true; f->file = f->file.substr(optRepo.size()); }
		}
		f->addr = fa; fa += 16;
		funcs[&F] = f;
		funcAt[f->addr] = f;
	}
	SP s0(new State());
	cur = std::move(s0);
	State &s = *cur;
	s.bump = 0x20000000;
	for (auto &G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		uint64_t sz = DL->getTypeAllocSize(G.getValueType());
		uint64_t al = std::max<uint64_t>(16, DL->getPreferredAlign(&G).value());
		uint64_t a = newObj(s, sz, al, O_GLOBAL, 0);
		gaddr[&G] = a;
		if (G.isThreadLocal()) tlsVars.push_back(&G);
	}
	for (auto &G : M->globals()) {
		if (!gaddr.count(&G)) continue;
		int i = findObjIdx(s, gaddr[&G]);
		s.objs[i]->name = G.getName().str();
		if (G.hasInitializer()) initGlobal(s, gaddr[&G], G.getInitializer(), 0);
		if (G.isConstant()) { i = findObjIdx(s, gaddr[&G]); rwObj(s, i)->ro = true; }
	}
	s.bump = 0x100000000ull;
	for (auto &p : funcs) decode(p.second);
	Function *mf = M->getFunction(entry);
	if (!mf || mf->isDeclaration()) { errs() << "no entry " << entry << "\n"; return 2; }
	s.th.emplace_back();
	pushFrame(s, 0, funcs[mf], {}, -1, 0);
	queue.push_back(std::move(cur));

	outName = out;
	if (optWorkers <= 1) {
		drain();
	} else {
		// the main process only waits; every explorer hands half of its
		// pending states to a new process while a core is idle
		prctl(PR_SET_CHILD_SUBREAPER, 1);
		fflush(0);
		shared->active = 1;
		if (fork() == 0) explorer();
		queue.clear();
		int bad = 0, stt;
		for (;;) {
			pid_t p = waitpid(-1, &stt, 0);
			if (p < 0) { if (errno == EINTR) continue; break; }
			if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad++; __sync_fetch_and_sub(&shared->active, 1); }
		}
		if (bad) incomplete["explorer process crashed"] += bad;
	}
	writeResult(out);
	if (optVerbose)
		fprintf(stderr, "main: paths %lu instrs %lu queries %lu solver %.2fs viol %zu t %.2f\n", (unsigned long)st.paths, (unsigned long)st.instrs,
			(unsigned long)st.queries, st.solver, violations.size(), now() - tStart);
	fflush(0);
	_exit(0);
}
