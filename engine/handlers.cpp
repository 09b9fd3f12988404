#include "engine.hpp"
#include <cmath>
#include <cfenv>
#include <iostream>
using namespace llvm;
static Val V0() { return mkI(64, 0); }
static Val fromBV(const z3::expr& e0, unsigned bits) { z3::expr e = e0.simplify(); uint64_t c; if (e.is_numeral_u64(c)) return mkI(bits, c); return mkIs(bits, P(e)); }
static Val fromBool(const z3::expr& e0, unsigned bits = 1) { z3::expr e = e0.simplify(); if (e.is_true()) return mkI(bits, 1); if (e.is_false()) return mkI(bits, 0); if (bits == 1) return mkIs(1, P(e)); return mkIs(bits, P(z3::ite(e, C.bv_val(1, bits), C.bv_val(0, bits)))); }
typedef std::vector<Val> A;
#define H(name) handlers[name] = [this](State& s, CallBase& cb, A& a) -> Val
static Val floatOp(char op, double a, double b, int rnd) {
  static const int m[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; int old = fegetround(); fesetround(m[rnd]); volatile float x = (float)a, y = (float)b, r = 0;
  switch (op) { case '+': r = x + y; break; case '-': r = x - y; break; case '*': r = x * y; break; default: r = x / y; } float q = r; fesetround(old); return mkD((double)q);
}
void Engine::addHandlers() {
  // ---- generic
  H("vp.ignore") { if (cb.getType()->isVoidTy()) return Val(); if (cb.getType()->isPointerTy() && !a.empty() && a[0].k == V_INT && a[0].bits == 64) return a[0]; if (cb.getType()->isIntegerTy()) return mkI(cb.getType()->getIntegerBitWidth(), 0); return Val(); };
  H("vp.emptystring") { uint64_t p = concretize(s, a[0]); store(s, p, mkI(64, p + 16), 8); store(s, p + 8, mkI(64, 0), 8); store(s, p + 16, mkI(8, 0), 1); return Val(); };
  auto ign = handlers["vp.ignore"];
  for (const char* n : {"llvm.dbg", "llvm.lifetime", "llvm.invariant", "llvm.experimental.noalias.scope.decl", "llvm.assume", "llvm.stackrestore", "llvm.donothing", "llvm.sideeffect", "llvm.prefetch", "__cxa_atexit", "atexit", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_end_catch", "__cxa_free_exception", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "_ZSt17__throw_bad_allocv_x", "pthread_mutex_lock", "pthread_mutex_unlock"}) handlers[n] = ign;
  H("llvm.stacksave") { return mkI(64, 0); };
  H("llvm.expect") { return a[0]; }; H("llvm.launder.invariant.group") { return a[0]; }; H("llvm.strip.invariant.group") { return a[0]; }; H("llvm.threadlocal.address") { return a[0]; }; H("llvm.ptr.annotation") { return a[0]; };
  H("llvm.is.constant") { return mkI(1, 0); };
  H("llvm.objectsize") { return mkI(64, ~0ull); };
  H("llvm.eh.typeid.for") { return mkI(32, a[0].c >> 32); };
  H("llvm.trap") { throw Violation{"no-trap", "trap"}; };
  H("__cxa_guard_acquire") { uint64_t p = concretize(s, a[0]); Val v = load(s, p, 1, false, 8); if (v.conc() && v.c) return mkI(32, 0); store(s, p, mkI(8, 1), 1); return mkI(32, 1); };
  auto mcpy = [this](State& s, CallBase& cb, A& a) -> Val { memcopy(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2])); return a[0]; };
  for (const char* n : {"llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline", "memcpy", "memmove"}) handlers[n] = mcpy;
  auto mset = [this](State& s, CallBase& cb, A& a) -> Val { uint64_t d = concretize(s, a[0]), c = concretize(s, a[1]), n = concretize(s, a[2]); if (!n) return a[0]; robj(s, d, n, "memset"); for (uint64_t i = 0; i < n; i++) store(s, d + i, mkI(8, c), 1); return a[0]; };
  handlers["llvm.memset"] = mset; handlers["memset"] = mset;
  auto mal = [this](State& s, CallBase& cb, A& a) -> Val { return mkI(64, alloc(s, concretize(s, a[0]), "heap", true)); };
  for (const char* n : {"malloc", "_Znwm", "_Znam", "__cxa_allocate_exception", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t"}) handlers[n] = mal;
  H("calloc") { return mkI(64, alloc(s, concretize(s, a[0]) * concretize(s, a[1]), "heap", true)); };
  H("realloc") { uint64_t p = concretize(s, a[0]), n = concretize(s, a[1]); uint64_t q = alloc(s, n, "heap", true); if (p) { uint64_t on = robj(s, p, 0, "realloc").size; memcopy(s, q, p, std::min(n, on)); wobj(s, p, 0, "realloc").alive = false; } return mkI(64, q); };
  auto fr = [this](State& s, CallBase& cb, A& a) -> Val { uint64_t p = concretize(s, a[0]); if (p) { Obj& o = wobj(s, p, 0, "free"); if (!o.heap || (p & 0xffffffffull)) throw Violation{"memory-safety", "free of non-heap pointer"}; o.alive = false; o.bytes.clear(); o.sym.clear(); } return Val(); };
  for (const char* n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvmSt11align_val_t"}) handlers[n] = fr;
  H("strlen") { return mkI(64, cstr(s, concretize(s, a[0])).size()); };
  H("strcmp") { int r = strcmp(cstr(s, concretize(s, a[0])).c_str(), cstr(s, concretize(s, a[1])).c_str()); return mkI(32, (uint64_t)(int64_t)(r < 0 ? -1 : r > 0)); };
  auto mcmp = [this](State& s, CallBase& cb, A& a) -> Val { uint64_t p = concretize(s, a[0]), q = concretize(s, a[1]), n = concretize(s, a[2]); bool symb = false; for (uint64_t i = 0; i < n; i++) { Val x = load(s, p + i, 1, false, 8), y = load(s, q + i, 1, false, 8); if (!x.conc() || !y.conc()) { symb = true; break; } if (x.c != y.c) return mkI(32, x.c < y.c ? -1 : 1); } if (!symb) return mkI(32, 0);
    z3::expr r = C.bv_val(0, 32); for (int64_t i = (int64_t)n - 1; i >= 0; i--) { z3::expr x = bv(load(s, p + i, 1, false, 8)), y = bv(load(s, q + i, 1, false, 8)); r = z3::ite(x == y, r, z3::ite(z3::ult(x, y), C.bv_val(-1, 32), C.bv_val(1, 32))); } return fromBV(r, 32); };
  handlers["memcmp"] = mcmp; handlers["bcmp"] = mcmp;
  H("memchr") { uint64_t p = concretize(s, a[0]), c = concretize(s, a[1]) & 255, n = concretize(s, a[2]); for (uint64_t i = 0; i < n; i++) { Val x = load(s, p + i, 1, false, 8); if (concretize(s, x) == c) return mkI(64, p + i); } return mkI(64, 0); };
  H("abort") { throw Violation{"no-abort", "abort() called"}; }; H("_ZSt9terminatev") { throw Violation{"no-abort", "std::terminate"}; }; H("exit") { throw Violation{"no-abort", "exit() called"}; };
  H("__assert_fail") { throw Violation{"no-assertion-failure", cstr(s, concretize(s, a[0]))}; };
  H("__clang_call_terminate") { throw Violation{"no-abort", "std::terminate"}; };
  H("__cxa_pure_virtual") { throw Violation{"no-abort", "pure virtual call"}; };
  H("__cxa_throw") { s.exc_obj = a[0].c; s.exc_type = a[1].c; s.thrown = true; return Val(); };
  H("__cxa_rethrow") { s.thrown = true; return Val(); };
  H("__cxa_begin_catch") { return a[0]; };
  H("__cxa_get_exception_ptr") { return a[0]; };
  for (const char* n : {"_ZSt17__throw_bad_allocv", "_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length", "_ZSt21__throw_runtime_errorPKc","_ZSt24__throw_invalid_argumentPKc"}) H(n) { s.exc_obj = 0; s.exc_type = 0; s.thrown = true; return Val(); };
  H("__dynamic_cast") { // single inheritance, identical or derived dynamic type at offset 0
    uint64_t p = concretize(s, a[0]); if (!p) return mkI(64, 0); uint64_t vt = load(s, p, 8, false, 64).c; int64_t top = (int64_t)load(s, vt - 16, 8, false, 64).c; uint64_t ti = load(s, vt - 8, 8, false, 64).c; uint64_t want = a[2].c; uint64_t base = p + top;
    std::function<int64_t(uint64_t, int)> find = [&](uint64_t t, int d) -> int64_t { if (t == want) return 0; if (d > 12 || !t || (t >> 32) >= s.mem.size() || !s.mem[t >> 32]) return -1; Obj& o = *s.mem[t >> 32]; uint64_t vpt = load(s, t, 8, false, 64).c; std::string kind = (vpt >> 32) < s.mem.size() && s.mem[vpt >> 32] ? s.mem[vpt >> 32]->name : ""; if (kind.find("__si_class") != std::string::npos) return find(load(s, t + 16, 8, false, 64).c, d + 1); if (kind.find("__vmi_class") != std::string::npos) { unsigned n = load(s, t + 20, 4, false, 32).c; for (unsigned i = 0; i < n; i++) { uint64_t b = load(s, t + 24 + 16 * i, 8, false, 64).c; int64_t fl = (int64_t)load(s, t + 32 + 16 * i, 8, false, 64).c; int64_t off = fl >> 8; if (fl & 1) { off = (int64_t)load(s, load(s, base, 8, false, 64).c + off, 8, false, 64).c; } int64_t r = find(b, d + 1); if (r >= 0) return off + r; } } (void)o; return -1; };
    int64_t r = find(ti, 0); return mkI(64, r < 0 ? 0 : base + r); };
  // ---- overflow intrinsics
  auto ovf = [this](unsigned opc, bool sg) { return [this, opc, sg](State& s, CallBase& cb, A& a) -> Val {
      unsigned b = a[0].bits; Val r = binop(s, opc, a[0], a[1], b), o;
      if (a[0].conc() && a[1].conc()) { bool ov; if (sg) { auto sx = [&](uint64_t c) { return b >= 64 ? (int64_t)c : (int64_t)(c << (64 - b)) >> (64 - b); }; __int128 x = sx(a[0].c), y = sx(a[1].c), z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; ov = z != (__int128)sx(r.c); } else { __int128 x = a[0].c, y = a[1].c, z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y; ov = z != (__int128)r.c; } o = mkI(1, ov); }
      else { z3::expr x = bv(a[0]), y = bv(a[1]); unsigned w = 2 * b; z3::expr X2 = sg ? z3::sext(x, b) : z3::zext(x, b), Y2 = sg ? z3::sext(y, b) : z3::zext(y, b); z3::expr Z = opc == Instruction::Add ? X2 + Y2 : opc == Instruction::Sub ? X2 - Y2 : X2 * Y2; z3::expr R = sg ? z3::sext(bv(r), b) : z3::zext(bv(r), b); (void)w; o = fromBool(Z != R); }
      Val v; v.k = V_AGG; v.agg = std::make_shared<A>(A{r, o}); return v; }; };
  handlers["llvm.uadd.with.overflow"] = ovf(Instruction::Add, false); handlers["llvm.sadd.with.overflow"] = ovf(Instruction::Add, true); handlers["llvm.usub.with.overflow"] = ovf(Instruction::Sub, false); handlers["llvm.ssub.with.overflow"] = ovf(Instruction::Sub, true); handlers["llvm.umul.with.overflow"] = ovf(Instruction::Mul, false); handlers["llvm.smul.with.overflow"] = ovf(Instruction::Mul, true);
  H("llvm.ctpop") { return mkI(a[0].bits, __builtin_popcountll(concretize(s, a[0]))); };
  H("llvm.ctlz") { uint64_t c = concretize(s, a[0]); return mkI(a[0].bits, c ? __builtin_clzll(c) - (64 - a[0].bits) : a[0].bits); };
  H("llvm.cttz") { uint64_t c = concretize(s, a[0]); return mkI(a[0].bits, c ? __builtin_ctzll(c) : a[0].bits); };
  for (bool left : {true, false}) handlers[left ? "llvm.fshl" : "llvm.fshr"] = [this, left](State& s, CallBase& cb, std::vector<Val>& a) -> Val { unsigned b = a[0].bits; if (!a[0].conc() || !a[1].conc() || !a[2].conc() || b > 64) throw Unsupported{"symbolic funnel shift"}; unsigned k = a[2].c % b; if (!k) return left ? a[0] : a[1]; return mkI(b, left ? (a[0].c << k) | (a[1].c >> (b - k)) : (a[0].c << (b - k)) | (a[1].c >> k)); };
  H("llvm.abs") { unsigned b = a[0].bits; Val n = binop(s, Instruction::Sub, mkI(b, 0), a[0], b); Val lt = icmp(s, CmpInst::ICMP_SLT, a[0], mkI(b, 0)); if (lt.conc()) return lt.c ? n : a[0]; return fromBV(z3::ite(X(lt.sx), bv(n), bv(a[0])), b); };
  auto mm = [this](unsigned pred) { return [this, pred](State& s, CallBase& cb, A& a) -> Val { Val c = icmp(s, pred, a[0], a[1]); if (c.conc()) return c.c ? a[0] : a[1]; return fromBV(z3::ite(X(c.sx), bv(a[0]), bv(a[1])), a[0].bits); }; };
  handlers["llvm.smax"] = mm(CmpInst::ICMP_SGT); handlers["llvm.smin"] = mm(CmpInst::ICMP_SLT); handlers["llvm.umax"] = mm(CmpInst::ICMP_UGT); handlers["llvm.umin"] = mm(CmpInst::ICMP_ULT);
  // ---- rounding control (ghost rounding mode)
  H("llvm.x86.sse.stmxcsr") { trusted_used.insert("mxcsr register"); store(s, concretize(s, a[0]), mkI(32, s.mxcsr), 4); return Val(); };
  H("llvm.x86.sse.ldmxcsr") { Val v = load(s, concretize(s, a[0]), 4, false, 32); s.mxcsr = (unsigned)concretize(s, v); return Val(); };
  H("fesetround") { uint64_t m = concretize(s, a[0]); unsigned k = m == FE_TONEAREST ? 0 : m == FE_DOWNWARD ? 1 : m == FE_UPWARD ? 2 : 3; s.mxcsr = (s.mxcsr & ~0x6000u) | (k << 13); return mkI(32, 0); };
  H("fegetround") { static const int m[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; return mkI(32, m[(s.mxcsr >> 13) & 3]); };
  // ---- floating-point intrinsics
  auto fop = [this](char op) { return [this, op](State& s, CallBase& cb, A& a) -> Val { trusted_used.insert("IEEE-754 double arithmetic in the current rounding mode"); if (cb.getType()->isFloatTy()) { Val r = a[0].conc() && a[1].conc() ? floatOp(op, a[0].d(), a[1].d(), rmode(s)) : fpop(s, op, a[0], a[1], rmode(s), 24); r.bits = 32; return r; } if (!cb.getType()->isDoubleTy() && !(a[0].conc() && a[1].conc())) throw Unsupported{"non-double arithmetic"}; return fpop(s, op, a[0], a[1], rmode(s), 53); }; };
  for (auto p : {std::make_pair("fadd", '+'), std::make_pair("fsub", '-'), std::make_pair("fmul", '*'), std::make_pair("fdiv", '/')}) handlers[std::string("llvm.experimental.constrained.") + p.first] = fop(p.second);
  auto fma = [this](State& s, CallBase& cb, A& a) -> Val { return fpop(s, 'f', a[0], a[1], rmode(s), 53, &a[2]); }; for (const char* n : {"llvm.experimental.constrained.fma", "llvm.fma", "fma"}) handlers[n] = fma;
  auto sq = [this](State& s, CallBase& cb, A& a) -> Val { Val z = mkD(0); return fpop(s, 's', a[0], z, rmode(s), 53); }; for (const char* n : {"llvm.experimental.constrained.sqrt", "llvm.sqrt", "sqrt"}) handlers[n] = sq;
  auto fc = [this](State& s, CallBase& cb, A& a) -> Val { auto* md = llvm::cast<ConstrainedFPCmpIntrinsic>(&cb); return fcmp(s, md->getPredicate(), a[0], a[1]); };
  handlers["llvm.experimental.constrained.fcmp"] = fc; handlers["llvm.experimental.constrained.fcmps"] = fc;
  auto fabsH = [this](State& s, CallBase& cb, A& a) -> Val { if (a[0].conc()) return mkD(std::fabs(a[0].d())); z3::expr x = re(a[0]); if (decide(s, x >= 0)) return a[0]; return norm(-x); };
  handlers["llvm.fabs"] = fabsH; handlers["fabs"] = fabsH;
  auto ext = [this](State& s, CallBase& cb, A& a) -> Val { Type* t = cb.getType(); unsigned nb = t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 80; Val r = a[0]; if (a[0].conc()) { if (t->isFloatTy()) { Val z = mkD(0); r = floatOp('+', a[0].d(), 0.0, rmode(s)); } } else if (t->isFloatTy()) r = round(s, re(a[0]), rmode(s), 24); r.bits = nb; return r; };
  handlers["llvm.experimental.constrained.fpext"] = ext; handlers["llvm.experimental.constrained.fptrunc"] = ext;
  auto itof = [this](bool sg) { return [this, sg](State& s, CallBase& cb, A& a) -> Val { unsigned b = a[0].bits; if (a[0].conc()) { z3::expr e = sg ? C.real_val((int64_t)(b >= 64 ? (int64_t)a[0].c : (int64_t)(a[0].c << (64 - b)) >> (64 - b))) : C.real_val((uint64_t)a[0].c); if (!cb.getType()->isDoubleTy()) { Val v = norm(e); return v; } return round(s, e, rmode(s), 53); } z3::expr r = z3::to_real((sg ? bvS(bv(a[0])) : bvU(bv(a[0])))).simplify(); int i = P(r); if (b <= 53) addRep(s, i, 53); return round(s, r, rmode(s), 53); }; };
  handlers["llvm.experimental.constrained.sitofp"] = itof(true); handlers["llvm.experimental.constrained.uitofp"] = itof(false);
  auto ftoi = [this](bool sg) { return [this, sg](State& s, CallBase& cb, A& a) -> Val { unsigned nb = cb.getType()->getIntegerBitWidth(); if (a[0].conc()) { double d = a[0].d(); return mkI(nb, sg ? (uint64_t)(int64_t)d : (uint64_t)d); }
      z3::expr x = re(a[0]); z3::expr t = z3::ite(x >= 0, z3::expr(C, Z3_mk_real2int(C, x)), -z3::expr(C, Z3_mk_real2int(C, -x))); return fromBV(z3::expr(C, Z3_mk_int2bv(C, nb, t)), nb); }; };
  handlers["llvm.experimental.constrained.fptosi"] = ftoi(true); handlers["llvm.experimental.constrained.fptoui"] = ftoi(false);
  H("llvm.is.fpclass") { if (!a[0].conc()) { unsigned m = a[1].c; z3::expr x = re(a[0]); // finite symbolic: classes by sign (normal/subnormal not distinguished)
      unsigned neg = 0x8 | 0x10 | 0x20, pos = 0x40 | 0x80 | 0x100; if ((m & (neg | pos)) == 0) return mkI(1, 0); if ((m & (neg | pos)) == (neg | pos)) return mkI(1, 1); if ((m & 0x198) == 0x198 && (m & 0x60) == 0) return fromBool(x != 0); throw Unsupported{"is.fpclass"}; }
    double d = a[0].d(); unsigned m = a[1].c; unsigned k; if (std::isnan(d)) k = 0x3; else if (std::isinf(d)) k = d < 0 ? 0x4 : 0x200; else if (d == 0) k = std::signbit(d) ? 0x20 : 0x40; else if (std::fpclassify(d) == FP_SUBNORMAL) k = d < 0 ? 0x10 : 0x80; else k = d < 0 ? 0x8 : 0x100; return mkI(1, (m & k) != 0); };
  auto rint = [this](int kind) { return [this, kind](State& s, CallBase& cb, A& a) -> Val { if (a[0].conc()) { double d = a[0].d(); int old = fegetround(); static const int m[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; fesetround(m[rmode(s)]); double r = kind == 0 ? std::floor(d) : kind == 1 ? std::ceil(d) : kind == 2 ? std::trunc(d) : kind == 3 ? std::round(d) : std::nearbyint(d); fesetround(old); return mkD(r); }
      z3::expr x = re(a[0]); auto fl = [&](z3::expr e) { return z3::to_real(z3::expr(C, Z3_mk_real2int(C, e))); }; z3::expr r = x; switch (kind) { case 0: r = fl(x); break; case 1: r = -fl(-x); break; case 2: r = decide(s, x >= 0) ? fl(x) : -fl(-x); break; case 3: r = decide(s, x >= 0) ? fl(x + C.real_val(1, 2)) : -fl(-x + C.real_val(1, 2)); break; default: throw Unsupported{"rint"}; } int i = P(r.simplify()); addRep(s, i, 53); return mkF(i); }; };
  const char* rn[] = {"floor", "ceil", "trunc", "round", "nearbyint"}; for (int k = 0; k < 5; k++) { handlers[rn[k]] = rint(k); handlers[std::string("llvm.") + rn[k]] = rint(k); handlers[std::string("llvm.experimental.constrained.") + rn[k]] = rint(k); } handlers["rint"] = rint(4); handlers["llvm.experimental.constrained.rint"] = rint(4); handlers["llvm.rint"] = rint(4);
  H("llvm.copysign") { if (a[0].conc() && a[1].conc()) return mkD(std::copysign(a[0].d(), a[1].d())); throw Unsupported{"copysign"}; };
  auto lm = [this](const char* nm, double (*f)(double)) { std::string n = nm; return [this, n, f](State& s, CallBase& cb, A& a) -> Val { if (a[0].conc()) return mkD(f(a[0].d())); throw Unsupported{"libm " + n}; }; };
  handlers["exp"] = lm("exp", std::exp); handlers["log"] = lm("log", std::log); handlers["sin"] = lm("sin", std::sin); handlers["cos"] = lm("cos", std::cos); handlers["tan"] = lm("tan", std::tan); handlers["atan"] = lm("atan", std::atan); handlers["asin"] = lm("asin", std::asin); handlers["acos"] = lm("acos", std::acos); handlers["log2"] = lm("log2", std::log2);
  for (const char* n : {"exp", "log", "sin", "cos", "log2"}) handlers[std::string("llvm.experimental.constrained.") + n] = handlers[n];
  auto pw = [this](State& s, CallBase& cb, A& a) -> Val { if (a[0].conc() && a[1].conc()) return mkD(std::pow(a[0].d(), a[1].d())); throw Unsupported{"libm pow"}; }; handlers["pow"] = pw; handlers["llvm.experimental.constrained.pow"] = pw;
  H("ldexp") { if (a[0].conc()) return mkD(std::ldexp(a[0].d(), (int)concretize(s, a[1]))); int64_t n = (int32_t)concretize(s, a[1]); if (n > 4000 || n < -4000) throw Unsupported{"ldexp"}; mpq_t q; mpq_init(q); mpq_set_ui(q, 1, 1); if (n >= 0) mpq_mul_2exp(q, q, n); else mpq_div_2exp(q, q, -n); z3::expr f = mpqToReal(q); mpq_clear(q); Val r = norm(f * re(a[0])); if (!r.conc() && isRep(s, a[0].sx, 53)) addRep(s, r.sx, 53); return r; };
  // ---- vp API
  H("vp_fresh_dp") { std::string n = cstr(s, concretize(s, a[0])); Val v = mkF(P(C.real_const((n + "#" + std::to_string(s.inputs.size())).c_str()))); addRep(s, v.sx, 53); s.inputs.push_back({n, "dp", v.sx, 0}); return v; };
  H("vp_fresh_real") { std::string n = cstr(s, concretize(s, a[0])); Val v = mkF(P(C.real_const((n + "#" + std::to_string(s.inputs.size())).c_str()))); s.inputs.push_back({n, "real", v.sx, 0}); return v; };
  H("vp_fresh_int") { std::string n = cstr(s, concretize(s, a[0])); int64_t lo = (int64_t)concretize(s, a[1]), hi = (int64_t)concretize(s, a[2]); z3::expr x = C.bv_const((n + "#" + std::to_string(s.inputs.size())).c_str(), 64); s.pc.push_back(P(x >= C.bv_val(lo, 64))); s.pc.push_back(P(x <= C.bv_val(hi, 64))); Val v = mkIs(64, P(x)); s.inputs.push_back({n, "int", v.sx, 0}); return v; };
  H("vp_choice") { std::string n = cstr(s, concretize(s, a[0])); int64_t lo = (int64_t)concretize(s, a[1]), hi = (int64_t)concretize(s, a[2]); if (hi < lo) throw PathEnd{"empty choice"};
    s.inputs.push_back({n, "choice", -1, 0}); size_t k = s.inputs.size() - 1; 
    for (int64_t v = hi; v > lo; v--) { State cl = s; cl.inputs[k].c = (uint64_t)v; cl.decided[0xffffffffu] = true; Frame& f = cl.st.back(); f.regs[f.fi->num[&cb]] = mkI(64, (uint64_t)v); if (auto* iv = dyn_cast<InvokeInst>(&cb)) jump(cl, iv->getNormalDest()); else f.it = std::next(cb.getIterator()); cl.depth++; work.push_back(std::move(cl)); }
    s.inputs[k].c = (uint64_t)lo; return mkI(64, (uint64_t)lo); };
  H("vp_assume") { if (a[0].conc()) { if (!(a[0].c & 1)) throw PathEnd{"assume"}; return Val(); } assume(s, X(a[0].sx)); return Val(); };
  H("vp_check_feasible") { int r = solve(s, {}, f_timeout_ms * 2, false, nullptr, nullptr); if (r == 0) throw PathEnd{"infeasible"}; return Val(); };
  H("vp_assert") { std::string l = cstr(s, concretize(s, a[1])); oblige(s, boolOf(a[0]), l); return Val(); };
  H("vp_cover") { std::string l = cstr(s, concretize(s, a[0])); OblRes& o = obl["cover:" + l]; o.label = "cover:" + l; if (!o.proved) { o.checked = 1; int r = solve(s, {}, q_timeout_ms, true, nullptr, nullptr); if (r == 1) o.proved = 1; } return Val(); };
  H("vp_may_throw") { s.may_throw = true; return Val(); }; H("vp_no_throw") { s.may_throw = false; return Val(); };
  H("vp_rounding_mode") { return mkI(32, rmode(s)); };
  H("vp_set_rounding_mode") { s.mxcsr = (s.mxcsr & ~0x6000u) | ((unsigned)concretize(s, a[0]) & 3) << 13; return Val(); };
  H("vp_print") { std::cerr << cstr(s, concretize(s, a[0])) << "\n"; return Val(); };
  H("vp_printd") { std::cerr << cstr(s, concretize(s, a[0])) << " = " << (a[1].conc() ? std::to_string(a[1].d()) : X(a[1].sx).to_string()) << "\n"; return Val(); };
  H("vp_printi") { std::cerr << cstr(s, concretize(s, a[0])) << " = " << (a[1].conc() ? std::to_string((int64_t)a[1].c) : X(a[1].sx).to_string()) << "\n"; return Val(); };
  // exact ghost reals
  H("vp_re_add") { return norm(re(a[0]) + re(a[1])); }; H("vp_re_sub") { return norm(re(a[0]) - re(a[1])); }; H("vp_re_mul") { return norm(re(a[0]) * re(a[1])); }; H("vp_re_neg") { if (a[0].conc()) return mkD(-a[0].d()); return norm(-re(a[0])); };
  H("vp_re_div") { z3::expr y = re(a[1]); if (decide(s, y == 0)) throw PathEnd{"ghost division by zero"}; return exactdiv(s, re(a[0]), y); };
  H("vp_re_lt") { return fcmp(s, CmpInst::FCMP_OLT, a[0], a[1]); }; H("vp_re_le") { return fcmp(s, CmpInst::FCMP_OLE, a[0], a[1]); }; H("vp_re_eq") { return fcmp(s, CmpInst::FCMP_OEQ, a[0], a[1]); };
  auto isinf2 = [](const Val& v) { return v.conc() && !std::isfinite(v.d()); };
  H("vp_re_int") { if (a[0].conc()) return norm(C.real_val((int64_t)a[0].c)); return norm(z3::to_real(bvS(bv(a[0])))); };
  H("vp_re_floor") { return norm(z3::to_real(z3::expr(C, Z3_mk_real2int(C, re(a[0]))))); };
  H("vp_re_isint") { return fromBool(z3::expr(C, Z3_mk_is_int(C, re(a[0])))); };
  H("vp_re_name") { if (a[0].conc()) return a[0]; z3::expr v = C.real_const(fresh("nm").c_str()); s.pc.push_back(P(v == re(a[0]))); return mkF(P(v)); };
  H("vp_re_min") { if (a[0].conc() && std::isinf(a[0].d())) return a[0].d() > 0 ? a[1] : a[0]; if (a[1].conc() && std::isinf(a[1].d())) return a[1].d() > 0 ? a[0] : a[1]; z3::expr x = re(a[0]), y = re(a[1]); return norm(z3::ite(x <= y, x, y)); }; H("vp_re_max") { if (a[0].conc() && std::isinf(a[0].d())) return a[0].d() < 0 ? a[1] : a[0]; if (a[1].conc() && std::isinf(a[1].d())) return a[1].d() < 0 ? a[0] : a[1]; z3::expr x = re(a[0]), y = re(a[1]); return norm(z3::ite(x >= y, x, y)); }; H("vp_re_abs") { if (a[0].conc()) return mkD(std::fabs(a[0].d())); z3::expr x = re(a[0]); return norm(z3::ite(x >= 0, x, -x)); };
  H("vp_re_fun") { return tfun(s, cstr(s, concretize(s, a[0])), re(a[1])); };
  H("vp_re_round") { if (a[2].conc() && !std::isfinite(a[2].d())) return a[2]; int f = (int)concretize(s, a[1]); Val r = round(s, re(a[2]), (int)concretize(s, a[0]), f); if (!r.conc()) addRep(s, r.sx, f); return r; };
  H("vp_re_pi") { z3::expr p = C.real_const("pi!const"); bool have = false; int ax = P(p > C.real_val("3141592653/1000000000") && p < C.real_val("3141592654/1000000000")); for (int i : s.pc) if (i == ax) have = true; if (!have) s.pc.push_back(ax); return mkF(P(p)); };
  H("vp_identity") { // equality of rational functions, by normal form: names and quotients are replaced by what they stand for; every divisor is shown to be nonzero
    std::string label = cstr(s, concretize(s, a[2])); z3::expr goal = re(a[0]) == re(a[1]); z3::params sp(C); sp.set("som", true); sp.set("som_blowup", 100000u); sp.set("hoist_mul", false);
    typedef std::pair<z3::expr, z3::expr> Q; std::map<unsigned, Q> memo; bool ok = true; unsigned sz = 0; auto N = [&](const z3::expr& e) { z3::expr r = e.simplify(sp); if (r.is_app() && r.num_args() > 3000) ok = false; return r; };
    std::map<unsigned, z3::expr> names; std::map<unsigned, Q> quos;
    for (int i : s.pc) { z3::expr e = X(i); if (!e.is_app() || e.decl().decl_kind() != Z3_OP_EQ) continue; z3::expr l = e.arg(0); if (l.is_const() && !l.is_numeral() && l.is_real() && l.decl().name().str().rfind("nm!", 0) == 0) names.emplace(Z3_get_ast_id(C, l), e.arg(1)); else if (l.is_app() && l.decl().decl_kind() == Z3_OP_MUL && l.num_args() == 2 && l.arg(0).is_const() && !l.arg(0).is_numeral() && l.arg(0).decl().name().str().rfind("quo!", 0) == 0) quos.emplace(Z3_get_ast_id(C, l.arg(0)), Q(e.arg(1), l.arg(1))); }
    std::function<Q(const z3::expr&)> nf = [&](const z3::expr& e) -> Q {
      z3::expr one = C.real_val(1); if (!ok || ++sz > 5000) { ok = false; return Q(e, one); } unsigned id = Z3_get_ast_id(C, e); auto it = memo.find(id); if (it != memo.end()) return it->second;
      auto add = [&](const Q& x, const Q& y, bool minus) { auto c = [&](const z3::expr& u, const z3::expr& v) { return N(minus ? u - v : u + v); }; if (z3::eq(x.second, y.second)) return Q(c(x.first, y.first), x.second); if (y.second.is_numeral()) return Q(c(x.first, y.first * x.second), x.second); if (x.second.is_numeral()) return Q(c(x.first * y.second, y.first), y.second); return Q(c(x.first * y.second, y.first * x.second), N(x.second * y.second)); };
      Q r(e, one); auto k = e.is_app() ? e.decl().decl_kind() : Z3_OP_UNINTERPRETED;
      if (e.is_numeral()) r = Q(e, one);
      else if (e.is_const()) { auto n = names.find(id); auto q = quos.find(id); if (n != names.end()) r = nf(n->second); else if (q != quos.end()) { Q x = nf(q->second.first), y = nf(q->second.second); if (ok && solve(s, {q->second.second == 0}, q_timeout_ms, true, nullptr, nullptr) != 0) ok = false; r = Q(N(x.first * y.second), N(x.second * y.first)); } }
      else if (k == Z3_OP_ADD || k == Z3_OP_SUB) { r = nf(e.arg(0)); for (unsigned i = 1; i < e.num_args(); i++) r = add(r, nf(e.arg(i)), k == Z3_OP_SUB); }
      else if (k == Z3_OP_UMINUS) { r = nf(e.arg(0)); r.first = N(-r.first); }
      else if (k == Z3_OP_MUL) { r = nf(e.arg(0)); for (unsigned i = 1; i < e.num_args(); i++) { Q y = nf(e.arg(i)); r = Q(N(r.first * y.first), N(r.second * y.second)); } }
      memo.emplace(id, r); return r; };
    Q d = nf(re(a[0]) - re(a[1])); if (ok) { z3::expr z = N(d.first); if (z.is_numeral() && Z3_get_numeral_string(C, z) == std::string("0")) { OblRes& o = obl[label]; o.label = label; o.checked++; o.proved++; s.reached_assert = true; backend_count["rational normal form"]++; s.pc.push_back(P(goal)); return Val(); } }
    oblige(s, goal, label); return Val(); };
  H("vp_re_same") { return mkI(1, a[0].conc() && a[1].conc() ? a[0].d() == a[1].d() : !a[0].conc() && !a[1].conc() && z3::eq(re(a[0]), re(a[1]))); };
  H("vp_dbl_finite") { return mkI(1, !a[0].conc() || std::isfinite(a[0].d())); };
  H("vp_dbl_isnan") { return mkI(1, a[0].conc() && std::isnan(a[0].d())); };
  H("vp_dbl_infsign") { return mkI(32, a[0].conc() && std::isinf(a[0].d()) ? (a[0].d() > 0 ? 1 : -1) : 0); };
  H("vp_and") { return fromBool(boolOf(a[0]) && boolOf(a[1])); }; H("vp_or") { return fromBool(boolOf(a[0]) || boolOf(a[1])); }; H("vp_not") { return fromBool(!boolOf(a[0])); }; H("vp_implies") { return fromBool(z3::implies(boolOf(a[0]), boolOf(a[1]))); }; H("vp_iff") { return fromBool(boolOf(a[0]) == boolOf(a[1])); };
}
