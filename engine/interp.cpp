#include "engine.hpp"
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <cmath>
#include <iostream>
using namespace llvm;

static Val fromBV(const z3::expr& e0, unsigned bits) { z3::expr e = e0.simplify(); uint64_t c; if (e.is_numeral_u64(c)) return mkI(bits, c); return mkIs(bits, P(e)); }
static Val fromBool(const z3::expr& e0) { z3::expr e = e0.simplify(); if (e.is_true()) return mkI(1, 1); if (e.is_false()) return mkI(1, 0); return mkIs(1, P(e)); }
static int64_t sx64(uint64_t c, unsigned b) { return b >= 64 ? (int64_t)c : (int64_t)(c << (64 - b)) >> (64 - b); }

// symbolic integers that are case distinctions between constants: operations are pushed into the cases
static bool iteConst(const z3::expr& e, int& budget) { if (--budget < 0) return false; if (e.is_numeral()) return true; return e.is_app() && e.decl().decl_kind() == Z3_OP_ITE && iteConst(e.arg(1), budget) && iteConst(e.arg(2), budget); }
static z3::expr iteMap(const z3::expr& e, const std::function<z3::expr(uint64_t)>& f) { if (e.is_numeral()) { uint64_t c = 0; e.is_numeral_u64(c); return f(c); } z3::expr a = iteMap(e.arg(1), f), b = iteMap(e.arg(2), f); return z3::ite(e.arg(0), a, b).simplify(); }
Val Engine::binop(State& s, unsigned opc, const Val& a0, const Val& b0, unsigned bits) {
  Val a = a0, b = b0; if (a.k == V_UNDEF) a = mkI(bits, 0); if (b.k == V_UNDEF) b = mkI(bits, 0);
  if (bits > 64) { // only small concrete wide arithmetic
    if (a.conc() && b.conc()) { unsigned __int128 x = a.c, y = b.c, r; switch (opc) { case Instruction::Add: r = x + y; break; case Instruction::Mul: r = x * y; break; case Instruction::LShr: r = y >= 128 ? 0 : x >> (unsigned)y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::UDiv: if (!y) throw Unsupported{"div0"}; r = x / y; break; case Instruction::URem: if (!y) throw Unsupported{"div0"}; r = x % y; break; default: throw Unsupported{"wide int op"}; } if (r >> 64) throw Unsupported{"wide int overflow"}; Val v = mkI(64, (uint64_t)r); v.bits = bits; return v; }
    throw Unsupported{"wide int op"};
  }
  if (a.k == V_FPBITS || b.k == V_FPBITS) {
    if (a.conc() && b.conc()) { a.k = V_INT; b.k = V_INT; }
    else if (a.k == V_FPBITS && !a.conc() && b.conc() && b.k == V_INT) {
      z3::expr x = re(a);
      if (opc == Instruction::LShr && b.c == 63) return fromBV(z3::ite(x < 0, C.bv_val(1, 64), C.bv_val(0, 64)), 64);
      if (opc == Instruction::And && b.c == 0x7fffffffffffffffull) { Val v = norm(z3::ite(x < 0, -x, x)); v.k = V_FPBITS; return v; }
      if (opc == Instruction::Xor && b.c == 0x8000000000000000ull) { Val v = norm(-x); v.k = V_FPBITS; return v; }
      if (opc == Instruction::And && b.c == 0x8000000000000000ull) { return fromBV(z3::ite(x < 0, C.bv_val((uint64_t)b.c, 64), C.bv_val(0, 64)), 64); }
      throw Unsupported{"bit operation on symbolic floating-point value"};
    } else throw Unsupported{"bit operation on symbolic floating-point value"};
  }
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c, r = 0; int64_t sx = sx64(x, bits), sy = sx64(y, bits);
    switch (opc) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) throw Violation{"no-division-by-zero", "udiv"}; r = x / y; break; case Instruction::URem: if (!y) throw Violation{"no-division-by-zero", "urem"}; r = x % y; break;
      case Instruction::SDiv: if (!y) throw Violation{"no-division-by-zero", "sdiv"}; r = sy == -1 ? -(uint64_t)sx : (uint64_t)(sx / sy); break; case Instruction::SRem: if (!y) throw Violation{"no-division-by-zero", "srem"}; r = sy == -1 ? 0 : (uint64_t)(sx % sy); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= bits ? 0 : x << y; break; case Instruction::LShr: r = y >= bits ? 0 : x >> y; break; case Instruction::AShr: r = (uint64_t)(sx >> std::min<uint64_t>(y, 63)); break;
      default: throw Unsupported{"binop"};
    }
    return mkI(bits, r);
  }
  if (bits > 1 && a.conc() != b.conc() && a.k == V_INT && b.k == V_INT && opc != Instruction::UDiv && opc != Instruction::URem && opc != Instruction::SDiv && opc != Instruction::SRem) {
    int bud = 24; const Val& sv = a.conc() ? b : a; if (iteConst(X(sv.sx), bud)) return fromBV(iteMap(X(sv.sx), [&](uint64_t c) { Val k = mkI(bits, c); Val r = a.conc() ? binop(s, opc, a, k, bits) : binop(s, opc, k, b, bits); return bv(r); }), bits); }
  if (bits == 1) {
    z3::expr x = boolOf(a), y = boolOf(b);
    switch (opc) { case Instruction::And: case Instruction::Mul: return fromBool(x && y); case Instruction::Or: return fromBool(x || y); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(x != y); default: throw Unsupported{"i1 op"}; }
  }
  z3::expr x = bv(a), y = bv(b), z = C.bv_val(0, bits);
  switch (opc) {
    case Instruction::Add: return fromBV(x + y, bits); case Instruction::Sub: return fromBV(x - y, bits); case Instruction::Mul: return fromBV(x * y, bits);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
      if (decide(s, y == z)) throw Violation{"no-division-by-zero", "integer division"};
      return fromBV(opc == Instruction::UDiv ? z3::udiv(x, y) : opc == Instruction::URem ? z3::urem(x, y) : opc == Instruction::SDiv ? x / y : z3::srem(x, y), bits);
    case Instruction::And: return fromBV(x & y, bits); case Instruction::Or: return fromBV(x | y, bits); case Instruction::Xor: return fromBV(x ^ y, bits);
    case Instruction::Shl: return fromBV(z3::shl(x, y), bits); case Instruction::LShr: return fromBV(z3::lshr(x, y), bits); case Instruction::AShr: return fromBV(z3::ashr(x, y), bits);
  }
  throw Unsupported{"binop"};
}
Val Engine::icmp(State& s, unsigned p, const Val& a0, const Val& b0) {
  Val a = a0, b = b0; if (a.k == V_UNDEF) a = mkI(b.bits, 0); if (b.k == V_UNDEF) b = mkI(a.bits, 0);
  if (a.k == V_FPBITS && !a.conc() && b.conc()) { z3::expr x = re(a); if (p == CmpInst::ICMP_SLT && b.c == 0) return fromBool(x < 0); if (p == CmpInst::ICMP_SGT && b.c == ~0ull) return fromBool(x >= 0); throw Unsupported{"compare of floating-point bits"}; }
  if (a.k == V_FPBITS) a.k = V_INT; if (b.k == V_FPBITS) b.k = V_INT;
  if (a.conc() && b.conc()) {
    uint64_t x = a.c, y = b.c; int64_t sx = sx64(x, a.bits), sy = sx64(y, b.bits); bool r;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; default: r = sx <= sy; }
    return mkI(1, r);
  }
  if (a.bits == 1) { z3::expr x = boolOf(a), y = boolOf(b); if (p == CmpInst::ICMP_EQ) return fromBool(x == y); if (p == CmpInst::ICMP_NE) return fromBool(x != y); }
  if (a.conc() != b.conc() && a.bits > 1) { int bud = 24; const Val& sv = a.conc() ? b : a; if (iteConst(X(sv.sx), bud)) return fromBool(iteMap(X(sv.sx), [&](uint64_t c) { Val k = mkI(a.bits, c); Val r = a.conc() ? icmp(s, p, a, k) : icmp(s, p, k, b); return C.bool_val(r.c != 0); })); }
  z3::expr x = bv(a), y = bv(b);
  switch (p) { case CmpInst::ICMP_EQ: return fromBool(x == y); case CmpInst::ICMP_NE: return fromBool(x != y); case CmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return fromBool(z3::uge(x, y)); case CmpInst::ICMP_ULT: return fromBool(z3::ult(x, y)); case CmpInst::ICMP_ULE: return fromBool(z3::ule(x, y)); case CmpInst::ICMP_SGT: return fromBool(x > y); case CmpInst::ICMP_SGE: return fromBool(x >= y); case CmpInst::ICMP_SLT: return fromBool(x < y); default: return fromBool(x <= y); }
}
static Val resizeInt(Engine& E, const Val& v, unsigned nb, bool sext) {
  if (v.conc()) { if (sext) return mkI(nb, (uint64_t)sx64(v.c, v.bits)); return mkI(nb, v.c & maskb(v.bits)); }
  if (nb == v.bits) return v;
  if (v.bits == 1) { if (sext) return fromBV(z3::ite(X(v.sx), C.bv_val((int64_t)-1, nb), C.bv_val(0, nb)), nb); return fromBV(z3::ite(X(v.sx), C.bv_val(1, nb), C.bv_val(0, nb)), nb); }
  z3::expr e = E.bv(v);
  { int bud = 24; if (iteConst(e, bud)) { if (nb == 1) return fromBool(iteMap(e, [&](uint64_t c) { return C.bool_val((c & 1) != 0); })); unsigned ob = v.bits; return fromBV(iteMap(e, [&](uint64_t c) { return C.bv_val((uint64_t)((sext && nb > ob ? (uint64_t)sx64(c, ob) : c) & maskb(nb)), nb); }), nb); } }
  if (nb < v.bits) { if (nb == 1) return fromBool(e.extract(0, 0) == C.bv_val(1, 1)); return fromBV(e.extract(nb - 1, 0), nb); }
  return fromBV(sext ? z3::sext(e, nb - v.bits) : z3::zext(e, nb - v.bits), nb);
}
Val Engine::doCast(State& s, CastInst& I) {
  Val v = get(s, I.getOperand(0)); Type* dt = I.getDestTy(); Type* st = I.getSrcTy();
  if (st->isVectorTy() || dt->isVectorTy()) throw Unsupported{"vector cast"};
  switch (I.getOpcode()) {
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      unsigned nb = dt->getIntegerBitWidth(); if (v.k == V_UNDEF) return mkI(nb, 0);
      if (v.k == V_FPBITS) { if (v.conc()) v.k = V_INT; else throw Unsupported{"resize of floating-point bits"}; }
      if (v.bits > 64) { if (!v.conc()) throw Unsupported{"wide int"}; return mkI(nb, v.c); }
      if (nb > 64) { if (!v.conc()) throw Unsupported{"wide int"}; if (I.getOpcode() == Instruction::SExt && sx64(v.c, v.bits) < 0) throw Unsupported{"wide int"}; Val r = v; r.bits = nb; return r; }
      return resizeInt(*this, v, nb, I.getOpcode() == Instruction::SExt);
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned nb = dt->isPointerTy() ? 64 : dt->getIntegerBitWidth(); if (v.k == V_UNDEF) return mkI(nb, 0); return resizeInt(*this, v, nb, false); }
    case Instruction::BitCast: { if (v.k == V_UNDEF) return v; if (dt->isDoubleTy() && st->isIntegerTy()) { if (v.k == V_INT && !v.conc()) throw Unsupported{"int bits to double"}; v.k = V_FP; v.bits = 64; return v; } if (st->isDoubleTy() && dt->isIntegerTy()) { v.k = v.conc() ? V_INT : V_FPBITS; v.bits = 64; return v; } if (dt->isPointerTy()) return v; throw Unsupported{"bitcast"}; }
    case Instruction::FPExt: case Instruction::FPTrunc: { if (v.conc()) { double d = v.d(); if (dt->isFloatTy()) d = (float)d; Val r = mkD(d); r.bits = dt->isFloatTy() ? 32 : dt->isDoubleTy() ? 64 : 80; return r; } if (dt->isDoubleTy() || dt->isX86_FP80Ty()) return v; throw Unsupported{"fptrunc"}; }
    case Instruction::SIToFP: case Instruction::UIToFP: { bool sg = I.getOpcode() == Instruction::SIToFP; if (v.conc()) { if (sg) return mkD((double)sx64(v.c, v.bits)); return mkD((double)v.c); } z3::expr b = bv(v); z3::expr r = z3::to_real((sg ? bvS(b) : bvU(b))); int i = P(r.simplify()); if (v.bits <= 53) addRep(s, i, 53); return round(s, X(i), rmode(s), 53); }
    case Instruction::FPToSI: case Instruction::FPToUI: { unsigned nb = dt->getIntegerBitWidth(); if (v.conc()) { double d = v.d(); return mkI(nb, I.getOpcode() == Instruction::FPToSI ? (uint64_t)(int64_t)d : (uint64_t)d); } throw Unsupported{"fptosi of symbolic value"}; }
  }
  throw Unsupported{"cast"};
}
void Engine::jump(State& s, BasicBlock* to) {
  Frame& f = s.st.back(); BasicBlock* from = f.bb; f.prev = from; std::vector<std::pair<PHINode*, Val>> vals;
  for (auto& phi : to->phis()) vals.push_back({&phi, get(s, phi.getIncomingValueForBlock(from))});
  for (auto& p : vals) set(s, *p.first, p.second);
  f.bb = to; f.it = to->getFirstNonPHIIt();
}
void Engine::ret(State& s, Val v) {
  Frame& top = s.st.back(); static ObjP dead; if (!dead) { dead = std::make_shared<Obj>(); dead->alive = false; dead->name = "dead stack object"; }
  for (uint64_t a : top.allocas) s.mem[a >> 32] = dead;
  while (s.mem.size() > 1 && s.mem.back() == dead) s.mem.pop_back();
  CallBase* cs = top.cs; s.st.pop_back(); if (s.st.empty()) return;
  Frame& f = s.st.back();
  if (cs) { if (!cs->getType()->isVoidTy()) set(s, *cs, v); if (auto* iv = dyn_cast<InvokeInst>(cs)) jump(s, iv->getNormalDest()); else f.it = std::next(cs->getIterator()); }
}
static bool typeMatches(Engine& E, State& s, uint64_t thrown, uint64_t clause) {
  // single-inheritance walk over type_info objects: {vptr, name, base}
  for (int i = 0; i < 16 && thrown; i++) { if (thrown == clause) return true; Obj* o = s.mem[thrown >> 32].get(); if (!o || o->size < 24 || o->name.rfind("_ZTI", 0) != 0) return false; try { Val b = E.load(s, thrown + 16, 8, false, 64); if (!b.conc()) return false; uint64_t nb = b.c; if (nb >> 32 == 0 || (nb >> 32) >= s.mem.size()) return false; thrown = nb; } catch (...) { return false; } }
  return false;
}
void Engine::throwExc(State& s) {
  while (!s.st.empty()) {
    Frame& f = s.st.back(); Instruction& I = *f.it;
    if (auto* iv = dyn_cast<InvokeInst>(&I)) {
      auto* lp = iv->getUnwindDest()->getLandingPadInst(); bool take = false; int sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses(); i++) if (lp->isCatch(i)) { Constant* c = lp->getClause(i); if (c->isNullValue()) { take = true; sel = 1; break; } uint64_t ti = constant(s, c).c; if (typeMatches(*this, s, s.exc_type, ti)) { take = true; sel = (int)(ti >> 32); break; } }
      if (take) { jump(s, iv->getUnwindDest()); Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkI(64, s.exc_obj)); v.agg->push_back(mkI(32, sel)); set(s, *lp, v); s.st.back().it = std::next(lp->getIterator()); s.thrown = false; return; }
    }
    s.st.pop_back();
  }
  s.thrown = true;
}
Engine::Handler* Engine::handlerFor(Function* f) {
  auto it = hcache.find(f); if (it != hcache.end()) return it->second;
  std::string n = f->getName().str(); Handler* h = nullptr; auto j = handlers.find(n); if (j != handlers.end()) h = &j->second;
  if (!h && f->isIntrinsic()) { std::string b = n; while (!h) { auto k = handlers.find(b); if (k != handlers.end()) { h = &k->second; break; } auto p = b.rfind('.'); if (p == std::string::npos) break; b = b.substr(0, p); } }
  if (!h) {
    auto has = [&](const char* x) { return n.find(x) != std::string::npos; };
    if (has("RSo") || has("_ZNSo") || has("_ZStls") || has("basic_ostream") || has("basic_stringstream") || has("basic_ostringstream") || has("St8ios_base") || has("basic_ios") || has("_ZNSi") || has("_ZStrs") || has("basic_istream") || has("St6locale")) {
      if (has("stringstream") && has("3strEv")) h = &handlers["vp.emptystring"]; else h = &handlers["vp.ignore"];
    }
  }
  if (!h && f->isDeclaration()) { // exception objects: constructing and destroying them does nothing
    auto has = [&](const char* x) { return n.find(x) != std::string::npos; };
    for (const char* x : {"_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12domain_error", "_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt12length_error", "_ZNSt9exception"}) if (n.compare(0, strlen(x), x) == 0 && (has("C1E") || has("C2E") || has("D1Ev") || has("D2Ev"))) h = &handlers["vp.ignore"];
  }
  hcache[f] = h; return h;
}
void Engine::call(State& s, CallBase& cb, Function* f, std::vector<Val>& args) {
  auto rd = redirect.find(f);
  if (rd != redirect.end()) {
    bool inside = false; for (auto& fr : s.st) if (fr.fi->f == rd->second) inside = true;
    if (!inside && !s.st.empty()) { // a contract replaces every call except the outermost one made by the harness itself
      bool fromHarness = s.st.size() == 1; if (!fromHarness) { contracts_used.insert(::demangle(f->getName().str())); f = rd->second; } }
  }
  if (Handler* h = handlerFor(f)) {
    Val r = (*h)(s, cb, args);
    if (s.thrown) { s.thrown = false; throwExc(s); return; }
    if (s.st.empty()) return;
    if (r.k == V_INT && r.bits == 0xffff) return; // handler redirected control
    Frame& fr = s.st.back(); if (!cb.getType()->isVoidTy()) set(s, cb, r);
    if (auto* iv = dyn_cast<InvokeInst>(&cb)) jump(s, iv->getNormalDest()); else fr.it = std::next(cb.getIterator());
    return;
  }
  if (f->isDeclaration()) throw Unsupported{"call of external function " + ::demangle(f->getName().str())};
  if (s.st.size() > 400) throw Unsupported{"call depth"};
  Frame fr; fr.fi = info(f); fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.regs.resize(fr.fi->n); fr.cs = &cb;
  unsigned i = 0; for (auto& a : f->args()) { if (i >= args.size()) throw Unsupported{"arg count"}; Val v = args[i]; if (a.hasByValAttr()) { uint64_t sz = DL.getTypeAllocSize(a.getParamByValType()); uint64_t p = alloc(s, sz, "byval"); memcopy(s, p, v.c, sz); fr.allocas.push_back(p); v = mkI(64, p); } fr.regs[i++] = v; }
  executed.insert(fr.fi->dem); s.st.push_back(std::move(fr));
}
// A conditional whose sides are side-effect free and rejoin at once, yielding integers: evaluate both sides and select, instead of splitting the path.
static bool pureInt(Instruction& I) {
  if (I.isTerminator()) return false;
  switch (I.getOpcode()) { case Instruction::ICmp: case Instruction::Freeze: return !I.getOperand(0)->getType()->isPointerTy(); case Instruction::Select: return I.getType()->isIntegerTy(); case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::Xor: case Instruction::And: case Instruction::Or: case Instruction::Add: case Instruction::Sub: return I.getType()->isIntegerTy(); }
  if (auto* ci = dyn_cast<CallInst>(&I)) if (Function* f = ci->getCalledFunction()) { StringRef n = f->getName(); return n.starts_with("llvm.experimental.constrained.fcmp") || n.starts_with("llvm.experimental.constrained.sitofp") || n.starts_with("llvm.experimental.constrained.uitofp"); }
  return false;
}
static BasicBlock* pureSide(BasicBlock* b, BasicBlock* from) {
  if (b->getSinglePredecessor() != from || b->size() > 12 || !b->phis().empty()) return nullptr;
  auto* t = dyn_cast<BranchInst>(b->getTerminator()); if (!t || !t->isUnconditional() || t->getSuccessor(0) == b) return nullptr;
  for (auto& I : *b) if (&I != t && !pureInt(I)) return nullptr;
  return t->getSuccessor(0);
}
bool Engine::mergeBranch(State& s, BranchInst& B, Val c) {
  z3::expr cond = X(c.sx).simplify(); if (cond.is_true() || cond.is_false()) return false;
  { unsigned id = Z3_get_ast_id(C, cond); if (s.decided.count(id)) return false; }
  BasicBlock *from = B.getParent(), *T = B.getSuccessor(0), *F = B.getSuccessor(1); if (T == F) return false;
  BasicBlock *mt = pureSide(T, from), *mf = pureSide(F, from), *M = nullptr; bool st = false, sf = false;
  if (mt && mt == F) { M = F; st = true; } else if (mf && mf == T) { M = T; sf = true; } else if (mt && mt == mf) { M = mt; st = sf = true; } else return false;
  for (auto& phi : M->phis()) if (!phi.getType()->isIntegerTy() || phi.getType()->getIntegerBitWidth() > 64) return false;
  if (M->phis().empty()) return false;
  auto sideRun = [&](BasicBlock* b) { Frame& f = s.st.back(); f.prev = from; f.bb = b; f.it = b->begin(); while (&*s.st.back().it != b->getTerminator()) step(s); };
  if (st) sideRun(T); if (sf) sideRun(F);
  std::vector<std::pair<PHINode*, Val>> vals;
  for (auto& phi : M->phis()) { Val a = get(s, phi.getIncomingValueForBlock(st ? T : from)), b = get(s, phi.getIncomingValueForBlock(sf ? F : from)); if (a.k == V_UNDEF) a = b; if (b.k == V_UNDEF) b = a; if (a.k != V_INT || b.k != V_INT) throw Unsupported{"merge of non-integers"}; Val r; if (a.bits == 1) r = fromBool(z3::ite(cond, boolOf(a), boolOf(b)).simplify()); else if (a.conc() && b.conc() && a.c == b.c) r = a; else r = fromBV(z3::ite(cond, bv(a), bv(b)).simplify(), a.bits); vals.push_back({&phi, r}); }
  for (auto& p : vals) set(s, *p.first, p.second);
  Frame& f = s.st.back(); f.prev = sf ? F : st ? T : from; f.bb = M; f.it = M->getFirstNonPHIIt(); return true;
}
void Engine::step(State& s) {
  Frame& f = s.st.back(); Instruction& I = *f.it; s.steps++;
  if ((s.steps & 1023) == 0 && deadline > 0 && now() > deadline) throw Unsupported{"timeout"};
  if (s.steps > max_steps) throw Unsupported{"step limit"};
  auto next = [&]() { Frame& g = s.st.back(); g.it = std::next(I.getIterator()); };
  switch (I.getOpcode()) {
    case Instruction::Alloca: { auto& A = llvm::cast<AllocaInst>(I); uint64_t n = concretize(s, get(s, A.getArraySize())); uint64_t p = alloc(s, std::max<uint64_t>(1, n * DL.getTypeAllocSize(A.getAllocatedType())), "stack:" + A.getName().str()); s.st.back().allocas.push_back(p); set(s, I, mkI(64, p)); next(); return; }
    case Instruction::Load: { uint64_t a = concretize(s, get(s, I.getOperand(0))); set(s, I, loadT(s, a, I.getType())); next(); return; }
    case Instruction::Store: { Val v = get(s, I.getOperand(0)); uint64_t a = concretize(s, get(s, I.getOperand(1))); storeT(s, a, v, I.getOperand(0)->getType()); next(); return; }
    case Instruction::GetElementPtr: {
      auto& G = llvm::cast<GetElementPtrInst>(I); Val base = get(s, G.getPointerOperand()); if (G.getType()->isVectorTy()) throw Unsupported{"vector gep"};
      Val acc = base; if (acc.k == V_UNDEF) acc = mkI(64, 0);
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        if (auto* st = gti.getStructTypeOrNull()) { acc = binop(s, Instruction::Add, acc, mkI(64, DL.getStructLayout(st)->getElementOffset(llvm::cast<ConstantInt>(gti.getOperand())->getZExtValue())), 64); }
        else { Val ix = get(s, gti.getOperand()); ix = resizeInt(*this, ix.k == V_UNDEF ? mkI(64, 0) : ix, 64, true); uint64_t es = DL.getTypeAllocSize(gti.getIndexedType()); acc = binop(s, Instruction::Add, acc, binop(s, Instruction::Mul, ix, mkI(64, es), 64), 64); }
      }
      set(s, I, acc); next(); return;
    }
    case Instruction::Br: { auto& B = llvm::cast<BranchInst>(I); if (B.isUnconditional()) { jump(s, B.getSuccessor(0)); return; } Val c = get(s, B.getCondition()); if (!c.conc() && mergeBranch(s, B, c)) return; bool t = c.conc() ? (c.c & 1) : decide(s, X(c.sx)); jump(s, B.getSuccessor(t ? 0 : 1)); return; }
    case Instruction::Switch: { auto& S = llvm::cast<SwitchInst>(I); Val c = get(s, S.getCondition()); if (!c.conc()) { for (auto& cs : S.cases()) { if (decide(s, bv(c) == C.bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.bits))) { jump(s, cs.getCaseSuccessor()); return; } } jump(s, S.getDefaultDest()); return; } for (auto& cs : S.cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { jump(s, cs.getCaseSuccessor()); return; } jump(s, S.getDefaultDest()); return; }
    case Instruction::Ret: { Val v; if (auto* rv = llvm::cast<ReturnInst>(I).getReturnValue()) v = get(s, rv); ret(s, v); return; }
    case Instruction::Unreachable: throw PathEnd{"unreachable"};
    case Instruction::Resume: throw Unsupported{"resume"};
    case Instruction::LandingPad: next(); return;
    case Instruction::Call: case Instruction::Invoke: {
      auto& cb = llvm::cast<CallBase>(I); Function* cf = nullptr;
      if (cb.isInlineAsm()) throw Unsupported{"inline asm"};
      Value* cv = cb.getCalledOperand()->stripPointerCasts();
      if (auto* a = dyn_cast<GlobalAlias>(cv)) cv = a->getAliaseeObject();
      cf = dyn_cast<Function>(cv);
      if (!cf) { uint64_t a = concretize(s, get(s, cb.getCalledOperand())); auto it = faddr.find(a); if (it == faddr.end()) throw Violation{"memory-safety", "call through invalid function pointer"}; cf = it->second; }
      std::vector<Val> args; for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(get(s, a.get())); }
      call(s, cb, cf, args); return;
    }
    case Instruction::ICmp: { set(s, I, icmp(s, llvm::cast<ICmpInst>(I).getPredicate(), get(s, I.getOperand(0)), get(s, I.getOperand(1)))); next(); return; }
    case Instruction::FCmp: { set(s, I, fcmp(s, llvm::cast<FCmpInst>(I).getPredicate(), get(s, I.getOperand(0)), get(s, I.getOperand(1)))); next(); return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { if (!I.getType()->isDoubleTy()) { Val a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1)); if (!a.conc() || !b.conc()) throw Unsupported{"non-double arithmetic"}; } char op = I.getOpcode() == Instruction::FAdd ? '+' : I.getOpcode() == Instruction::FSub ? '-' : I.getOpcode() == Instruction::FMul ? '*' : '/'; set(s, I, fpop(s, op, get(s, I.getOperand(0)), get(s, I.getOperand(1)), rmode(s), 53)); next(); return; }
    case Instruction::FNeg: { Val a = get(s, I.getOperand(0)); Val r = a.conc() ? mkD(-a.d()) : norm(-re(a)); r.bits = a.bits ? a.bits : 64; set(s, I, r); next(); return; }
    case Instruction::Select: {
      Val c = get(s, I.getOperand(0)), a = get(s, I.getOperand(1)), b = get(s, I.getOperand(2));
      if (c.conc()) { set(s, I, (c.c & 1) ? a : b); next(); return; }
      if (a.k == V_INT && b.k == V_INT && a.bits <= 64 && !I.getType()->isPointerTy()) { if (a.bits == 1) set(s, I, fromBool(z3::ite(X(c.sx), boolOf(a), boolOf(b)))); else set(s, I, fromBV(z3::ite(X(c.sx), bv(a), bv(b)), a.bits)); next(); return; }
      set(s, I, decide(s, X(c.sx)) ? a : b); next(); return;
    }
    case Instruction::PHI: throw Unsupported{"phi"};
    case Instruction::ExtractValue: { Val a = get(s, I.getOperand(0)); for (unsigned i : llvm::cast<ExtractValueInst>(I).getIndices()) { if (a.k != V_AGG) { a = Val(); break; } Val t = (*a.agg)[i]; a = t; } set(s, I, a); next(); return; }
    case Instruction::InsertValue: {
      Val a = get(s, I.getOperand(0)), v = get(s, I.getOperand(1)); auto ix = llvm::cast<InsertValueInst>(I).getIndices();
      std::function<Val(Val, Type*, unsigned)> ins = [&](Val x, Type* t, unsigned d) -> Val { if (d == ix.size()) return v; Val r; r.k = V_AGG; r.agg = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); if (x.k == V_AGG) *r.agg = *x.agg; else r.agg->resize(n); (*r.agg)[ix[d]] = ins((*r.agg)[ix[d]], t->isStructTy() ? t->getStructElementType(ix[d]) : t->getArrayElementType(), d + 1); return r; };
      set(s, I, ins(a, I.getType(), 0)); next(); return;
    }
    case Instruction::Freeze: set(s, I, get(s, I.getOperand(0))); next(); return;
    case Instruction::Fence: next(); return;
    case Instruction::AtomicRMW: { auto& A = llvm::cast<AtomicRMWInst>(I); uint64_t p = concretize(s, get(s, A.getPointerOperand())); Val old = loadT(s, p, A.getType()), v = get(s, A.getValOperand()), nv; unsigned b = A.getType()->isPointerTy() ? 64 : A.getType()->getIntegerBitWidth(); switch (A.getOperation()) { case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, old, v, b); break; case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, old, v, b); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, old, v, b); break; case AtomicRMWInst::And: nv = binop(s, Instruction::And, old, v, b); break; default: throw Unsupported{"atomicrmw"}; } storeT(s, p, nv, A.getType()); set(s, I, old); next(); return; }
    case Instruction::AtomicCmpXchg: { auto& A = llvm::cast<AtomicCmpXchgInst>(I); uint64_t p = concretize(s, get(s, A.getPointerOperand())); Type* t = A.getCompareOperand()->getType(); Val old = loadT(s, p, t), cmp = get(s, A.getCompareOperand()); if (!old.conc() || !cmp.conc()) throw Unsupported{"symbolic cmpxchg"}; bool ok = old.c == cmp.c; if (ok) storeT(s, p, get(s, A.getNewValOperand()), t); Val r; r.k = V_AGG; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(mkI(1, ok)); set(s, I, r); next(); return; }
    default:
      if (auto* ci = dyn_cast<CastInst>(&I)) { set(s, I, doCast(s, *ci)); next(); return; }
      if (I.isBinaryOp()) { if (I.getType()->isVectorTy()) throw Unsupported{"vector op"}; set(s, I, binop(s, I.getOpcode(), get(s, I.getOperand(0)), get(s, I.getOperand(1)), I.getType()->getIntegerBitWidth())); next(); return; }
  }
  throw Unsupported{std::string("instruction ") + I.getOpcodeName()};
}
static std::string where(State& s) { std::string r; int n = 0; for (auto it = s.st.rbegin(); it != s.st.rend() && n < 6; ++it, ++n) { r += (n ? " <- " : "") + it->fi->dem.substr(0, 120); } return r; }
void Engine::run(Function* f) {
  State s0 = init; Frame fr; fr.fi = info(f); fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.regs.resize(fr.fi->n); s0.st.push_back(fr);
  work.push_back(std::move(s0));
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back(); paths++;
    if (verbose && paths % 50 == 0) std::cerr << "path " << paths << " queue " << work.size() << "\n";
    try {
      while (!s.st.empty()) step(s);
      if (s.thrown) { throws++; if (!s.may_throw) { std::string nm = "exception"; if (s.exc_type && (s.exc_type >> 32) < s.mem.size() && s.mem[s.exc_type >> 32]) nm = ::demangle(s.mem[s.exc_type >> 32]->name); oblige(s, C.bool_val(false), "no-exception", nm); } }
      else completed++;
    } catch (Unsupported& u) { bool limit = u.what == "timeout" || u.what == "failure limit" || u.what == "path limit"; if (!limit && solve(s, {}, std::min(q_timeout_ms, 10000u), true, nullptr, nullptr) == 0) continue; /* the path contradicts the rounding axioms */ unsupported.push_back(u.what + " @ " + where(s)); if (u.what == "timeout" || u.what == "failure limit" || u.what == "path limit") { work.clear(); break; } if (unsupported.size() > 20) { work.clear(); break; } }
    catch (PathEnd& p) { infeasible++; }
    catch (Violation& v) { std::string w = where(s); try { oblige(s, C.bool_val(false), v.label, v.detail + " @ " + w); } catch (...) {} if (failures.size() >= max_failures) { work.clear(); break; } }
    catch (z3::exception& e) { unsupported.push_back(std::string("z3: ") + e.msg() + " @ " + where(s)); }
    if (now() > deadline) { if (!work.empty()) unsupported.push_back("timeout with open paths"); work.clear(); }
  }
}
