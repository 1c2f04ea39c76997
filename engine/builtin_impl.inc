// Built-in functions and LLVM intrinsics (included from exec.cc)

bool Exec::libm(State& s, const std::string& n, const Inst& in, std::vector<Val>& a, Val& r) {
    Type* t = in.ty; unsigned w = width(t);
    if (!(t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty() || t->isIntegerTy())) return false;
    std::string b = n; if (!b.empty() && (b.back() == 'f' || b.back() == 'l') && b != "modf" && b != "ceil" && b != "erf") b.pop_back();
    if (b == "cei") b = "ceil";
    static const std::set<std::string> known{"pow","exp","exp2","log","log2","log10","sin","cos","tan","atan","atan2","sqrt","floor","ceil","trunc","round","rint","nearbyint","fabs","fmod","cbrt","hypot","ldexp","lround","llround","lrint","llrint","fmin","fmax","copysign","nextafter","scalbn","scalbln"};
    if (!known.count(b)) return false;
    unsigned fw = a.empty() ? 0 : width(in.I->getOperand(0)->getType());
    // exact operations have symbolic counterparts
    if (b == "sqrt") { r = Val(mkFP(E_FSQRT, w, ex(a[0], w))); return true; }
    if (b == "floor" || b == "ceil" || b == "trunc" || b == "round" || b == "rint" || b == "nearbyint") { u32 m = b == "floor" ? 0 : b == "ceil" ? 1 : b == "trunc" ? 2 : b == "round" ? 3 : 4; r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, m)); return true; }
    if (b == "fabs") { u128 m = maskw(w - 1); if (!a[0].e) r = Val(a[0].c & m); else r = Val(mkBin(E_AND, a[0].e, mkConst(w, m))); return true; }
    if (b == "copysign") { u128 sm = (u128)1 << (w - 1); r = Val(mkOr(mkAnd(ex(a[0], w), mkConst(w, maskw(w - 1))), mkAnd(ex(a[1], w), mkConst(w, sm)))); return true; }
    if (b == "fmin" || b == "fmax") {
        Ex x = ex(a[0], w), y = ex(a[1], w); Ex xn = mkFP(E_FUNO, 1, x, x), yn = mkFP(E_FUNO, 1, y, y);
        Ex lt = b == "fmin" ? mkFP(E_FOLT, 1, x, y) : mkFP(E_FOLT, 1, y, x);
        r = Val(mkIte(xn, y, mkIte(yn, x, mkIte(lt, x, y)))); return true;
    }
    for (size_t i = 0; i < a.size(); ++i) if (a[i].e) {
        // integer argument (ldexp etc.) may be enumerated; float arguments cannot
        unsigned wi = width(in.I->getOperand((unsigned)i)->getType());
        if (in.I->getOperand((unsigned)i)->getType()->isIntegerTy()) { a[i] = Val((u128)conc(s, a[i], wi, "libm int")); continue; }
        incomplete(s, "symbolic argument to " + n);
    }
    auto cv = [&](size_t i) -> long double { Type* ty = in.I->getOperand((unsigned)i)->getType(); if (ty->isIntegerTy()) return (long double)(long long)sextw(a[i].c, width(ty)); return bitsToLDx(a[i].c, width(ty)); };
    auto back = [&](long double x) { if (t->isIntegerTy()) r = Val((u128)(long long)x & maskw(w)); else if (w == 32) { float q = (float)x; u32 y; memcpy(&y, &q, 4); r = Val((u128)y); } else if (w == 64) { double q = (double)x; u64 y; memcpy(&y, &q, 8); r = Val((u128)y); } else { u128 v = 0; memcpy(&v, &x, 10); r = Val(v); } };
#define L1(N) if (b == #N) { if (fw == 32) back(N##f((float)cv(0))); else if (fw == 64) back(N((double)cv(0))); else back(N##l(cv(0))); return true; }
#define L2(N) if (b == #N) { if (fw == 32) back(N##f((float)cv(0), (float)cv(1))); else if (fw == 64) back(N((double)cv(0), (double)cv(1))); else back(N##l(cv(0), cv(1))); return true; }
#define L2I(N) if (b == #N) { if (fw == 32) back(N##f((float)cv(0), (int)cv(1))); else if (fw == 64) back(N((double)cv(0), (int)cv(1))); else back(N##l(cv(0), (int)cv(1))); return true; }
    L1(exp) L1(exp2) L1(log) L1(log2) L1(log10) L1(sin) L1(cos) L1(tan) L1(atan) L1(cbrt) L1(lround) L1(llround) L1(lrint) L1(llrint)
    L2(pow) L2(atan2) L2(fmod) L2(hypot) L2(nextafter) L2I(ldexp) L2I(scalbn) L2I(scalbln)
    return false;
}

static Ex ovfExpr(Intrinsic::ID id, unsigned w, Ex a, Ex b, Ex& res) {
    auto Z = [&](Ex x) { return mkZExt(x, 2 * w); }; auto SX = [&](Ex x) { return mkSExt(x, 2 * w); };
    switch (id) {
    case Intrinsic::uadd_with_overflow: res = mkBin(E_ADD, a, b);
        if (isConst(b)) return mkBin(E_ULT, mkConst(w, maskw(w) - b->c), a);
        if (isConst(a)) return mkBin(E_ULT, mkConst(w, maskw(w) - a->c), b);
        return mkBin(E_ULT, mkConst(w + 1, maskw(w)), mkBin(E_ADD, mkZExt(a, w + 1), mkZExt(b, w + 1)));
    case Intrinsic::usub_with_overflow: res = mkBin(E_SUB, a, b); return mkBin(E_ULT, a, b);
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        Op o = id == Intrinsic::sadd_with_overflow ? E_ADD : E_SUB; res = mkBin(o, a, b);
        Ex x = mkBin(o, mkSExt(a, w + 1), mkSExt(b, w + 1)); u128 mx = maskw(w - 1);
        return mkOr(mkBin(E_SLT, mkConst(w + 1, mx), x), mkBin(E_SLT, x, mkConst(w + 1, ~mx & maskw(w + 1)))); }
    case Intrinsic::umul_with_overflow: {
        res = mkBin(E_MUL, a, b);
        if (isConst(b) && b->c) { u128 lim = maskw(w) / b->c; return mkBin(E_ULT, mkConst(w, lim), a); }
        if (isConst(a) && a->c) { u128 lim = maskw(w) / a->c; return mkBin(E_ULT, mkConst(w, lim), b); }
        Ex p = mkBin(E_MUL, Z(a), Z(b)); return mkNot(mkEq(mkExtract(p, w, w), mkConst(w, 0)));
    }
    case Intrinsic::smul_with_overflow: {
        res = mkBin(E_MUL, a, b);
        Ex k = isConst(b) ? b : isConst(a) ? a : nullptr; Ex x = isConst(b) ? a : b;
        if (k && sextw(k->c, w) > 0) { i128 kk = sextw(k->c, w); i128 mx = (i128)(maskw(w) >> 1); i128 mn = -mx - 1; return mkOr(mkBin(E_SLT, mkConst(w, (u128)(mx / kk)), x), mkBin(E_SLT, x, mkConst(w, (u128)(mn / kk)))); }
        if (k && sextw(k->c, w) == -1) return mkEq(x, mkConst(w, (u128)1 << (w - 1)));
        Ex p = mkBin(E_MUL, SX(a), SX(b)); return mkNot(mkEq(p, SX(res)));
    }
    default: return nullptr;
    }
}

bool Exec::intrinsic(State& s, Frame& fr, const Inst& in, Function* F, std::vector<Val>& a, Val& r) {
    auto id = F->getIntrinsicID(); unsigned w = in.w;
    auto A = [&](int i) { return width(in.I->getOperand(i)->getType()); };
    if (in.dst >= 0 && in.ty->isVectorTy()) {
        // element-wise for the common ones
        switch (id) { case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::fabs: break; default: incomplete(s, "vector intrinsic " + F->getName().str()); }
        unsigned ew = width(in.ty->getScalarType()); std::vector<Val> v;
        for (size_t i = 0; i < a[0].e->agg->size(); ++i) {
            Ex x = ex((*a[0].e->agg)[i], ew), y = a.size() > 1 ? ex((*a[1].e->agg)[i], ew) : nullptr;
            if (id == Intrinsic::fabs) v.push_back(Val(mkAnd(x, mkConst(ew, maskw(ew - 1)))));
            else { bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mn = id == Intrinsic::smin || id == Intrinsic::umin; Ex lt = mkBin(sg ? E_SLT : E_ULT, x, y); v.push_back(Val(mn ? mkIte(lt, x, y) : mkIte(lt, y, x))); }
        }
        r = agg(v); return true;
    }
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
        u64 n = conc(s, a[2], A(2), "memcpy size"); if (!n) return true;
        u64 d = conc(s, a[0], 64, "memcpy dst"), q = conc(s, a[1], 64, "memcpy src");
        if (id != Intrinsic::memmove && d != q && ((d < q ? q - d : d - q) < n)) violation(s, "memory", "memcpy with overlapping regions");
        copyMem(s, d, q, n); return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = conc(s, a[2], A(2), "memset size"); if (!n) return true;
        u64 d = conc(s, a[0], 64, "memset dst"); MemObj* o = chk(s, d, n, true, "memset");
        for (u64 i = 0; i < n; ++i) writeBytes(o, (u32)d + (u32)i, 1, a[1]);
        return true;
    }
    case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::invariant_end: return true;
    case Intrinsic::invariant_start: r = Val((u128)0); return true;
    case Intrinsic::stacksave: r = Val((u128)0); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy: r = a[0]; return true;
    case Intrinsic::is_constant: r = Val((u128)0); return true;
    case Intrinsic::objectsize: r = Val((u128)(a[1].c ? 0 : maskw(w))); return true;
    case Intrinsic::threadlocal_address: {
        u64 g = (u64)a[0].c; auto* gv = cast<GlobalVariable>(in.I->getOperand(0)->stripPointerCasts());
        if (s.cur == 0) { r = Val((u128)g); return true; }
        auto& m = s.th[s.cur].tls; auto it = m.find(gv);
        if (it == m.end()) {
            u64 sz = DL.getTypeAllocSize(gv->getValueType()); u64 na = alloc(s, sz, K_TLS, A_NONE, "tls", true);
            if (gv->hasInitializer()) initConst(s.objs.getW((u32)(na >> 32) - 1), 0, gv->getInitializer());
            it = s.th[s.cur].tls.emplace(gv, na).first;
        }
        r = Val((u128)it->second); return true;
    }
    case Intrinsic::eh_typeid_for: r = Val((u128)(u32)typeId((u64)a[0].c)); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: violation(s, "undefined", "trap");
    case Intrinsic::ubsantrap: {
        static const char* nm[] = {"add overflow","builtin unreachable","cfi","divrem overflow","dynamic type cache miss","float cast overflow","function type mismatch","implicit conversion","invalid builtin","invalid objc cast","load invalid value","missing return","mul overflow","negate overflow","nullability arg","nullability return","nonnull arg","nonnull return","out of bounds","pointer overflow","shift out of bounds","sub overflow","type mismatch (null/misaligned)","alignment assumption","vla bound not positive"};
        u64 k = (u64)a[0].c; violation(s, "undefined", std::string("undefined behaviour: ") + (k < 25 ? nm[k] : "?"));
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ow = A(0); if (ow > 64) incomplete(s, "128-bit overflow op");
        Ex res; Ex ov = ovfExpr(id, ow, ex(a[0], ow), ex(a[1], ow), res);
        r = agg({Val(res), Val(ov)}); return true;
    }
    case Intrinsic::uadd_sat: { Ex x = ex(a[0], w), y = ex(a[1], w), q = mkBin(E_ADD, x, y); r = Val(mkIte(mkBin(E_ULT, q, x), mkConst(w, maskw(w)), q)); return true; }
    case Intrinsic::usub_sat: { Ex x = ex(a[0], w), y = ex(a[1], w); r = Val(mkIte(mkBin(E_ULT, x, y), mkConst(w, 0), mkBin(E_SUB, x, y))); return true; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        Ex x = ex(a[0], w), y = ex(a[1], w), res; Ex ov = ovfExpr(id == Intrinsic::sadd_sat ? Intrinsic::sadd_with_overflow : Intrinsic::ssub_with_overflow, w, x, y, res);
        Ex neg = mkBin(E_SLT, x, mkConst(w, 0)); r = Val(mkIte(ov, mkIte(neg, mkConst(w, (u128)1 << (w - 1)), mkConst(w, maskw(w) >> 1)), res)); return true;
    }
    case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax: {
        Ex x = ex(a[0], w), y = ex(a[1], w); bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mn = id == Intrinsic::smin || id == Intrinsic::umin;
        Ex lt = mkBin(sg ? E_SLT : E_ULT, x, y); r = Val(mn ? mkIte(lt, x, y) : mkIte(lt, y, x)); return true;
    }
    case Intrinsic::abs: { Ex x = ex(a[0], w); r = Val(mkIte(mkBin(E_SLT, x, mkConst(w, 0)), mkBin(E_SUB, mkConst(w, 0), x), x)); return true; }
    case Intrinsic::bswap: { Ex x = ex(a[0], w), o = nullptr; for (unsigned i = 0; i < w; i += 8) { Ex b = mkExtract(x, i, 8); o = o ? mkConcat(o, b) : b; } r = Val(o); return true; }
    case Intrinsic::bitreverse: { Ex x = ex(a[0], w), o = nullptr; for (unsigned i = 0; i < w; ++i) { Ex b = mkExtract(x, i, 1); o = o ? mkConcat(o, b) : b; } r = Val(o); return true; }
    case Intrinsic::ctpop: { Ex x = ex(a[0], w), o = mkConst(w, 0); for (unsigned i = 0; i < w; ++i) o = mkBin(E_ADD, o, mkZExt(mkExtract(x, i, 1), w)); r = Val(o); return true; }
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        Ex x = ex(a[0], w), o = mkConst(w, w);
        if (id == Intrinsic::ctlz) for (unsigned i = 0; i < w; ++i) o = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w, w - 1 - i), o);
        else for (unsigned i = w; i-- > 0;) o = mkIte(mkEq(mkExtract(x, i, 1), mkConst(1, 1)), mkConst(w, i), o);
        r = Val(o); return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Ex x = ex(a[0], w), y = ex(a[1], w), z = mkBin(E_UREM, ex(a[2], w), mkConst(w, w));
        Ex inv = mkBin(E_SUB, mkConst(w, w), z); Ex zero = mkEq(z, mkConst(w, 0));
        if (id == Intrinsic::fshl) r = Val(mkIte(zero, x, mkOr(mkBin(E_SHL, x, z), mkBin(E_LSHR, y, inv))));
        else r = Val(mkIte(zero, y, mkOr(mkBin(E_SHL, x, inv), mkBin(E_LSHR, y, z))));
        return true;
    }
    case Intrinsic::fabs: { u128 m = maskw(w - 1); if (!a[0].e) r = Val(a[0].c & m); else r = Val(mkAnd(a[0].e, mkConst(w, m))); return true; }
    case Intrinsic::sqrt: r = Val(mkFP(E_FSQRT, w, ex(a[0], w))); return true;
    case Intrinsic::floor: r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, 0)); return true;
    case Intrinsic::ceil: r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, 1)); return true;
    case Intrinsic::trunc: r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, 2)); return true;
    case Intrinsic::round: r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, 3)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = Val(mkFP(E_FRND, w, ex(a[0], w), nullptr, nullptr, 4)); return true;
    case Intrinsic::copysign: return libm(s, "copysign", in, a, r);
    case Intrinsic::minnum: return libm(s, "fmin", in, a, r);
    case Intrinsic::maxnum: return libm(s, "fmax", in, a, r);
    case Intrinsic::fma: r = Val(mkFP(E_FMA, w, ex(a[0], w), ex(a[1], w), ex(a[2], w))); return true;
    case Intrinsic::fmuladd: r = Val(mkFP(E_FADD, w, mkFP(E_FMUL, w, ex(a[0], w), ex(a[1], w)), ex(a[2], w))); return true;
    case Intrinsic::pow: return libm(s, "pow", in, a, r);
    case Intrinsic::powi: { std::vector<Val> q = a; return libm(s, "pow", in, q, r); }
    case Intrinsic::exp: return libm(s, "exp", in, a, r);
    case Intrinsic::exp2: return libm(s, "exp2", in, a, r);
    case Intrinsic::log: return libm(s, "log", in, a, r);
    case Intrinsic::log10: return libm(s, "log10", in, a, r);
    case Intrinsic::log2: return libm(s, "log2", in, a, r);
    case Intrinsic::ldexp: return libm(s, "ldexp", in, a, r);
    case Intrinsic::is_fpclass: {
        unsigned sw = A(0); Ex x = ex(a[0], sw); u64 m = (u64)a[1].c; Ex o = mkConst(1, 0);
        Ex nan = mkFP(E_FUNO, 1, x, x); Ex neg = mkExtract(x, sw - 1, 1); Ex ab = mkAnd(x, mkConst(sw, maskw(sw - 1)));
        u128 infb = sw == 32 ? (u128)0x7f800000u : sw == 64 ? (u128)0x7ff0000000000000ULL : (((u128)0x7fff << 64) | ((u128)1 << 63));
        u128 minn = sw == 32 ? (u128)0x00800000u : sw == 64 ? (u128)0x0010000000000000ULL : (((u128)1 << 64) | ((u128)1 << 63));
        Ex inf = mkEq(ab, mkConst(sw, infb)), zero = mkEq(ab, mkConst(sw, 0)), sub = mkAnd(mkNot(zero), mkBin(E_ULT, ab, mkConst(sw, minn))), nor = mkAnd(mkNot(nan), mkAnd(mkNot(inf), mkBin(E_ULE, mkConst(sw, minn), ab)));
        Ex pos = mkNot(neg);
        if (m & 3) o = mkOr(o, nan);
        if (m & 4) o = mkOr(o, mkAnd(neg, inf)); if (m & 8) o = mkOr(o, mkAnd(neg, nor)); if (m & 16) o = mkOr(o, mkAnd(neg, sub)); if (m & 32) o = mkOr(o, mkAnd(neg, zero));
        if (m & 64) o = mkOr(o, mkAnd(pos, zero)); if (m & 128) o = mkOr(o, mkAnd(pos, sub)); if (m & 256) o = mkOr(o, mkAnd(pos, nor)); if (m & 512) o = mkOr(o, mkAnd(pos, inf));
        r = Val(o); return true;
    }
    case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: incomplete(s, "fpto*i.sat");
    case Intrinsic::ptrmask: r = Val(mkAnd(ex(a[0], 64), ex(a[1], 64))); return true;
    case Intrinsic::vastart: {
        // x86-64 va_list { i32 gp_offset, i32 fp_offset, ptr overflow, ptr reg_save }
        u64 l = conc(s, a[0], 64, "va_list"); MemObj* o = chk(s, l, 24, true, "va_start");
        writeBytes(o, (u32)l, 4, Val((u128)48)); writeBytes(o, (u32)l + 4, 4, Val((u128)176)); writeBytes(o, (u32)l + 8, 8, Val((u128)s.top().va)); writeBytes(o, (u32)l + 16, 8, Val((u128)0));
        return true;
    }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyMem(s, (u64)a[0].c, (u64)a[1].c, 24); return true;
    default: incomplete(s, "intrinsic " + F->getName().str());
    }
}

bool Exec::builtin(State& s, Frame& fr, const Inst& in, int b, std::vector<Val>& a, Val& r) {
    auto A = [&](int i) { return width(in.I->getOperand(i)->getType()); };
    auto C = [&](int i, const char* what) { return conc(s, a[i], A(i), what); };
    switch (b) {
    case B_sx_is_native: r = Val((u128)0); return true;
    case B_sx_sym: {
        std::string n = cstr(s, C(0, "string")); unsigned bits = (unsigned)C(1, "bits");
        Val v = sym(s, n, bits); if (v.e && bits < 64) v = Val(mkZExt(v.e, 64)); r = v; return true;
    }
    case B_sx_pick: {
        std::string n = cstr(s, C(0, "string")); u64 cnt = C(1, "pick bound");
        if (cnt == 0) throw Terminate{PathEnd::ASSUME};
        if (!opt.concFile.empty()) { Val v = sym(s, n, 32); r = v; return true; }
        Val v = sym(s, n, 32); u32 sid = v.e->aux;
        for (u64 k = cnt; k-- > 0;) {
            if (k == 0) { addPC(s, mkEq(v.e, mkConst(32, 0))); if (s.model.size() <= sid) s.model.resize(sid + 1, 0); s.model[sid] = 0; break; }
            auto ns = clone(s); addPC(*ns, mkEq(v.e, mkConst(32, k))); if (ns->model.size() <= sid) ns->model.resize(sid + 1, 0); ns->model[sid] = k;
            Frame& g = ns->th[ns->cur].st.back(); if (in.dst >= 0) g.r[in.dst] = Val((u128)k);
            if (in.opc == Instruction::Invoke) jump(*ns, g, in.t0, in.e0); else ++g.pc;
            work.push_back(std::move(ns));
        }
        r = Val((u128)0); return true;
    }
    case B_sx_assume: {
        Val c = a[0]; Ex e = c.e ? mkNot(mkEq(c.e, mkConst(A(0), 0))) : mkConst(1, c.c != 0);
        if (isTrue(e)) return true;
        if (isFalse(e)) throw Terminate{PathEnd::ASSUME};
        if (!evalM(s, e)) { Model m2; SRes q = feasible(s, e, m2); if (q == S_UNSAT) throw Terminate{PathEnd::ASSUME}; if (q == S_UNKNOWN) incomplete(s, "solver unknown (assume)"); s.model = m2; }
        addPC(s, e); return true;
    }
    case B_sx_check: {
        ++checks; Val c = a[0]; 
        if (!c.e) { if (!c.c) violation(s, "property", cstr(s, C(1, "string"))); return true; }
        ++checksSym;
        Ex e = mkNot(mkEq(c.e, mkConst(A(0), 0)));
        if (isTrue(e)) return true;
        std::string m = cstr(s, C(1, "string"));
        requireTrue(s, e, "property", m); return true;
    }
    case B_sx_fail: violation(s, "property", cstr(s, C(0, "string")));
    case B_sx_param: { u64 i = C(0, "param"); r = Val((u128)(u64)(i < opt.params.size() ? opt.params[i] : 0)); return true; }
    case B_sx_observe: s.observed.push_back(a[0]); s.observedW.push_back(64); return true;
    case B_sx_conc: { u64 v = C(0, "sx_conc"); r = Val((u128)v); return true; }
    case B_sx_reach: { std::string n = cstr(s, C(0, "string")); ++reached[n]; return true; }
    case B_sx_live_heap: { u64 n = 0; for (u32 i = 0; i < s.objs.n; ++i) if (MemObj* o = s.objs.get(i)) if (o->kind == K_HEAP && o->ak != A_EXC) ++n; r = Val((u128)n); return true; }
    case B_sx_end: throw Terminate{PathEnd::DONE};
    case B_sx_debug: { fprintf(stderr, "[debug] %s: ", cstr(s, C(0, "string")).c_str()); if (a[1].e) fprintf(stderr, "%s (model %s)\n", exprStr(a[1].e, 8).c_str(), valStr(evalM(s, a[1].e)).c_str()); else fprintf(stderr, "%s\n", valStr(a[1].c).c_str()); return true; }
    case B_sx_obj_check: { // is [p, p+n) readable memory of one live object?
        u64 p = C(0, "ptr"), n = C(1, "n"); u32 hi = (u32)(p >> 32); MemObj* o = hi ? s.objs.get(hi - 1) : nullptr;
        r = Val((u128)(n == 0 || (o && (u64)(u32)p + n <= o->size))); return true; }

    case B_sx_set_alloc_fail: { bool st = C(1, "sticky") != 0; s.allocFuse = a[0]; s.allocArmed = a[0].e || (int)(u32)a[0].c >= 0; s.allocSticky = st; s.allocStuck = false; s.allocN = 0; return true; }
    case B_malloc: case B_new: case B_newa: case B_newn: case B_newan: case B_newal: case B_newaal: {
        u64 n = C(0, "allocation size");
        bool fail = n > (1u << 26);
        if (s.allocStuck) fail = true;
        else if (s.allocArmed) {
            bool now = s.allocFuse.e ? conc(s, Val(mkEq(s.allocFuse.e, mkConst(32, s.allocN))), 1, "allocation failure") != 0 : (u32)s.allocFuse.c == s.allocN;
            ++s.allocN; if (now) { fail = true; s.allocArmed = false; s.allocStuck = s.allocSticky; }
        }
        if (fail) {
            if (b == B_malloc || b == B_newn || b == B_newan) { r = Val((u128)0); return true; }
            // huge request: operator new throws bad_alloc
            Function* t = M.getFunction("sx_throw_bad_alloc"); std::vector<Val> none; if (!t) incomplete(s, "huge allocation"); enter(s, t, none, false); return false;
        }
        AllocKind k = b == B_malloc ? A_MALLOC : (b == B_newa || b == B_newan || b == B_newaal) ? A_NEWARR : A_NEW;
        r = Val((u128)alloc(s, n, K_HEAP, k, "heap")); return true;
    }
    case B_aligned_alloc: { u64 n = C(1, "size"); r = Val((u128)alloc(s, n, K_HEAP, A_MALLOC, "heap")); return true; }
    case B_posix_memalign: { u64 n = C(2, "size"); u64 p = alloc(s, n, K_HEAP, A_MALLOC, "heap"); storeW(s, a[0], Val((u128)p), 8, 64); r = Val((u128)0); return true; }
    case B_calloc: { u64 n = C(0, "n"), m = C(1, "m"); r = Val((u128)alloc(s, n * m, K_HEAP, A_MALLOC, "heap", true)); return true; }
    case B_realloc: { u64 p = C(0, "p"), n = C(1, "n"); u64 q = alloc(s, n, K_HEAP, A_MALLOC, "heap"); if (p) { MemObj* o = chk(s, p, 1, false, "realloc"); copyMem(s, q, p, std::min<u64>(o->size, n)); freeObj(s, p, A_MALLOC); } r = Val((u128)q); return true; }
    case B_free: freeObj(s, C(0, "free"), A_MALLOC); return true;
    case B_del: case B_dels: case B_deln: case B_delal: case B_delsal: freeObj(s, C(0, "delete"), A_NEW); return true;
    case B_dela: case B_delas: case B_delan: case B_delaal: case B_delasal: freeObj(s, C(0, "delete[]"), A_NEWARR); return true;
    case B_sx_exc_alloc: { u64 n = C(0, "size"); r = Val((u128)alloc(s, n, K_HEAP, A_EXC, "exception")); return true; }
    case B_sx_exc_free: freeObj(s, C(0, "free"), A_EXC); return true;

    case B_memcpy: case B_memmove: case B_mempcpy: {
        u64 n = C(2, "memcpy size"); r = a[0]; if (b == B_mempcpy) { if (a[0].e) incomplete(s, "mempcpy"); r = Val((u128)(u64)(a[0].c + n)); } if (!n) return true;
        u64 d = C(0, "memcpy dst"), q = C(1, "memcpy src");
        if (b != B_memmove && d != q && ((d < q ? q - d : d - q) < n)) violation(s, "memory", "memcpy with overlapping regions");
        copyMem(s, d, q, n); return true;
    }
    case B_memset: { u64 n = C(2, "memset size"); r = a[0]; if (!n) return true; u64 d = C(0, "memset dst"); MemObj* o = chk(s, d, n, true, "memset"); Val v = a[1]; if (v.e) v = Val(mkExtract(v.e, 0, 8)); else v.c &= 255; for (u64 i = 0; i < n; ++i) writeBytes(o, (u32)d + (u32)i, 1, v); return true; }
    case B_memcmp: case B_bcmp: {
        u64 n = C(2, "memcmp size"); if (!n) { r = Val((u128)0); return true; }
        u64 p = C(0, "memcmp a"), q = C(1, "memcmp b");
        chk(s, p, n, false, "memcmp"); chk(s, q, n, false, "memcmp");
        Ex res = mkConst(32, 0);
        for (u64 i = n; i-- > 0;) {
            Val x = readBytes(s, (u32)(p >> 32) - 1, s.objs.get((u32)(p >> 32) - 1), (u32)p + (u32)i, 1), y = readBytes(s, (u32)(q >> 32) - 1, s.objs.get((u32)(q >> 32) - 1), (u32)q + (u32)i, 1);
            Ex xe = ex(x, 8), ye = ex(y, 8);
            if (b == B_bcmp) { res = mkIte(mkEq(xe, ye), res, mkConst(32, 1)); continue; }
            res = mkIte(mkEq(xe, ye), res, mkIte(mkBin(E_ULT, xe, ye), mkConst(32, maskw(32)), mkConst(32, 1)));
        }
        r = Val(res); return true;
    }
    case B_memchr: {
        u64 n = C(2, "memchr size"); if (!n) { r = Val((u128)0); return true; }
        u64 p = C(0, "memchr"); Ex c = mkExtract(ex(a[1], A(1)), 0, 8);
        // memchr stops at the first match; only bytes up to the first certain match are accessed
        Ex res = mkConst(64, 0); u32 id = (u32)(p >> 32) - 1;
        MemObj* o = p >> 32 ? s.objs.get(id) : nullptr;
        if (!o) violation(s, "memory", "memchr: invalid pointer");
        u64 lim = n; bool cut = false;
        if ((u64)(u32)p + n > o->size) { lim = (u32)p <= o->size ? o->size - (u32)p : 0; cut = true; }
        Ex found = mkConst(1, 0);
        std::vector<Ex> m;
        for (u64 i = 0; i < lim; ++i) { Ex e = mkEq(ex(readBytes(s, id, s.objs.get(id), (u32)p + (u32)i, 1), 8), c); m.push_back(e); found = mkOr(found, e); }
        if (cut) requireTrue(s, found, "memory", "memchr: out of bounds read");
        if (lim) chk(s, p, lim, false, "memchr");
        for (u64 i = lim; i-- > 0;) res = mkIte(m[i], mkConst(64, p + i), res);
        r = Val(res); return true;
    }
    case B_sx_unwind: unwind(s, C(0, "exception"), false); return false;
    case B_sx_terminate: violation(s, "terminate", a[0].c ? cstr(s, C(0, "string")) : "std::terminate called");
    case B_abort: violation(s, "abort", "abort called");
    case B_assert_fail: violation(s, "assert", "assertion failed: " + cstr(s, C(0, "string")));
    case B_exit: case B_exit2: throw Terminate{PathEnd::DONE};
    case B_atexit: case B_cxa_thread_atexit: r = Val((u128)0); return true;
    case B_sx_strtold: { // long double sx_strtold(const char*, size_t* consumed): correctly rounded conversion of concrete text
        std::string t = cstr(s, C(0, "text")); char* e; long double x = strtold(t.c_str(), &e); u64 q = C(1, "end");
        if (q) storeW(s, Val((u128)q), Val((u128)(u64)(e - t.c_str())), 8, 64);
        u128 v = 0; memcpy(&v, &x, 10); r = Val(v); return true; }
    case B_sx_fmt: { // sx_fmt(char* buf, size_t n, const char* fmt, double hi / long double) concrete formatting only
        u64 buf = C(0, "buf"), n = C(1, "n"); std::string f = cstr(s, C(2, "fmt"));
        if (a[3].e) incomplete(s, "formatting of a symbolic floating-point value");
        int prec = (int)(i128)sextw(C(4, "prec"), 32), wd = (int)(i128)sextw(C(5, "width"), 32);
        long double x = bitsToLDx(a[3].c, 80); std::string sp = "%" + f; char tmp[5200];
        std::string ff = sp.substr(0, sp.size() - 1) + "*.*L" + sp.back();
        int k = prec < 0 ? snprintf(tmp, sizeof tmp, (sp.substr(0, sp.size() - 1) + "*L" + sp.back()).c_str(), wd, x) : snprintf(tmp, sizeof tmp, ff.c_str(), wd, prec, x);
        for (int i = 0; i <= k && (u64)i < n; ++i) storeW(s, Val((u128)(buf + i)), Val((u128)(u8)((u64)i + 1 == n ? 0 : tmp[i])), 1, 8);
        r = Val((u128)(u32)k); return true; }
    default: return threadBuiltin(s, fr, in, b, a, r);
    }
}
