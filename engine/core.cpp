#include "engine.hpp"
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <cfenv>
#include <cmath>
#include <deque>
#include <chrono>
#include <iostream>
using namespace llvm;
z3::context C;
static std::deque<z3::expr> pool; static std::unordered_map<unsigned, int> poolIdx;
int P(const z3::expr& e) { unsigned h = Z3_get_ast_id(C, e); auto it = poolIdx.find(h); if (it != poolIdx.end()) return it->second; pool.push_back(e); poolIdx[h] = (int)pool.size() - 1; return (int)pool.size() - 1; }
const z3::expr& X(int i) { return pool[i]; }
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
std::string demangle(const std::string& s) { return llvm::demangle(s); }

// ---------------------------------------------------------------- numerals
bool exprToMpq(const z3::expr& e, mpq_t q) {
  if (!e.is_numeral()) return false;
  if (e.is_bv()) return false;
  std::string s = Z3_get_numeral_string(C, e);
  if (mpq_set_str(q, s.c_str(), 10) != 0) return false;
  mpq_canonicalize(q); return true;
}
z3::expr mpqToReal(mpq_srcptr q) { char* s = mpq_get_str(nullptr, 10, q); z3::expr r = C.real_val(s); free(s); return r; }
static std::unordered_map<uint64_t, int> dblCache;
z3::expr dblToReal(double d) {
  uint64_t b; memcpy(&b, &d, 8); auto it = dblCache.find(b); if (it != dblCache.end()) return X(it->second);
  if (!std::isfinite(d)) throw Unsupported{"non-finite value used as exact real"};
  mpq_t q; mpq_init(q); mpq_set_d(q, d); z3::expr r = mpqToReal(q); mpq_clear(q); dblCache[b] = P(r); return r;
}
static bool mpqRep(mpq_srcptr q, int fmt) {
  if (mpq_sgn(q) == 0) return true;
  if (mpz_popcount(mpq_denref(q)) != 1) return false;
  mp_bitcnt_t tz = mpz_scan1(mpq_numref(q), 0);
  return (long)(mpz_sizeinbase(mpq_numref(q), 2) - tz) <= fmt;
}
Val Engine::norm(const z3::expr& e0) {
  z3::expr e = e0.simplify();
  if (e.is_numeral()) { mpq_t q; mpq_init(q); bool ok = exprToMpq(e, q); if (ok && mpqRep(q, 53)) { double d = mpq_get_d(q); mpq_t t; mpq_init(t); if (std::isfinite(d)) { mpq_set_d(t, d); bool eq = mpq_equal(t, q); mpq_clear(t); if (eq) { mpq_clear(q); return mkD(d == 0 ? 0.0 : d); } } else mpq_clear(t); } mpq_clear(q); }
  return mkF(P(e));
}

// ---------------------------------------------------------------- engine setup
Engine::Engine(Module& m) : M(m), DL(m.getDataLayout()) { addHandlers(); addMP(); }
FnInfo* Engine::info(Function* f) {
  auto& p = fns[f];
  if (!p) { p = std::make_unique<FnInfo>(); p->f = f; p->dem = ::demangle(f->getName().str());
    for (auto& a : f->args()) p->num[&a] = p->n++;
    for (auto& bb : *f) for (auto& i : bb) if (!i.getType()->isVoidTy()) p->num[&i] = p->n++; }
  return p.get();
}
static const uint64_t FBASE = 0xF000000000000000ull;
void Engine::initGlobals() {
  init.mem.push_back(nullptr);
  uint64_t k = 1;
  for (auto& f : M) { gaddr[&f] = FBASE + (k << 4); faddr[FBASE + (k << 4)] = &f; ++k; }
  for (auto& g : M.globals()) {
    uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g.getValueType()) : 0;
    if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 256);
    gaddr[&g] = alloc(init, std::max<uint64_t>(sz, 1), g.getName().str());
    if (!g.hasInitializer() && !g.getName().starts_with("_ZT") && g.getName() != "__libc_single_threaded") init.mem.back()->ext = true;
  }
  for (auto& a : M.aliases()) { auto* o = a.getAliaseeObject(); if (auto* f = dyn_cast_or_null<Function>(o)) gaddr[&a] = gaddr[f]; else if (o) gaddr[&a] = gaddr[o]; }
  for (auto& g : M.globals()) if (g.hasInitializer() && g.getValueType()->isSized() && !g.getName().starts_with("llvm.")) { try { storeConst(init, gaddr[&g], g.getInitializer()); } catch (Unsupported& u) { if (verbose) std::cerr << "global " << g.getName().str() << ": " << u.what << "\n"; } }
}
void Engine::runCtors(const std::set<std::string>& skip) {
  auto* g = M.getGlobalVariable("llvm.global_ctors"); if (!g || !g->hasInitializer()) return;
  auto* arr = dyn_cast<ConstantArray>(g->getInitializer()); if (!arr) return;
  for (auto& op : arr->operands()) {
    auto* st = cast<ConstantStruct>(op); auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()); if (!f || f->isDeclaration()) continue;
    // run each static initialiser callee separately, so that an unsupported one does not stop the rest
    std::vector<Function*> fs;
    if (f->getName().starts_with("_GLOBAL__sub_I")) { for (auto& bb : *f) for (auto& i : bb) if (auto* c = dyn_cast<CallBase>(&i)) if (auto* cf = c->getCalledFunction()) if (!cf->isDeclaration()) fs.push_back(cf); } else fs.push_back(f);
    for (auto* h : fs) {
      State s = init; s.st.clear(); std::vector<Val> args;
      try { Frame fr; fr.fi = info(h); fr.bb = &h->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.regs.resize(fr.fi->n); s.st.push_back(fr);
        uint64_t n0 = s.steps; while (!s.st.empty()) { step(s); if (s.steps - n0 > 3000000) throw Unsupported{"ctor too long"}; if (!work.empty()) { work.clear(); throw Unsupported{"ctor forks"}; } }
        init = s; init.st.clear(); }
      catch (Unsupported& u) { if (verbose) std::cerr << "ctor " << h->getName().str() << ": " << u.what << "\n"; }
      catch (PathEnd& u) { if (verbose) std::cerr << "ctor " << h->getName().str() << ": pathend " << u.why << "\n"; }
      catch (Violation& u) { if (verbose) std::cerr << "ctor " << h->getName().str() << ": violation " << u.label << "\n"; }
    }
  }
  init.steps = 0;
}

// ---------------------------------------------------------------- memory
uint64_t Engine::alloc(State& s, uint64_t size, const std::string& name, bool heap) {
  if (size > (1ull << 28)) throw Unsupported{"huge allocation"};
  auto o = std::make_shared<Obj>(); o->size = size; o->bytes.resize(size); o->name = name; o->heap = heap; s.mem.push_back(o);
  return (uint64_t)(s.mem.size() - 1) << 32;
}
Obj& Engine::robj(State& s, uint64_t a, uint64_t n, const char* what) {
  uint64_t id = a >> 32, off = a & 0xffffffffull;
  if (a >= FBASE) throw Violation{"memory-safety", std::string(what) + " through function pointer"};
  if (id == 0 || id >= s.mem.size()) throw Violation{"memory-safety", std::string(what) + " through null or invalid pointer " + std::to_string(a)};
  Obj& o = *s.mem[id];
  if (!o.alive) throw Violation{"memory-safety", std::string(what) + " of freed object"};
  if (off + n > o.size) throw Violation{"memory-safety", std::string(what) + " out of bounds of " + o.name + " size " + std::to_string(o.size) + " offset " + std::to_string(off)};
  return o;
}
Obj& Engine::wobj(State& s, uint64_t a, uint64_t n, const char* what) {
  robj(s, a, n, what); auto& p = s.mem[a >> 32]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p;
}
static unsigned vbytes(const Val& v) { return v.k == V_INT || v.k == V_FPBITS ? (v.bits + 7) / 8 : v.k == V_FP && v.bits == 32 ? 4 : 8; }
static void clearRange(Engine& E, Obj& o, uint64_t off, uint64_t n) {
  auto it = o.sym.lower_bound(off >= 32 ? off - 32 : 0);
  while (it != o.sym.end() && it->first < off + n) {
    uint64_t b = it->first, e = b + vbytes(it->second);
    if (e <= off) { ++it; continue; }
    if (b >= off && e <= off + n) { it = o.sym.erase(it); continue; }
    // partial overlap: split a bit-vector cell into byte cells
    Val v = it->second; if (v.k != V_INT) throw Unsupported{"partial overwrite of symbolic non-integer cell"};
    it = o.sym.erase(it); z3::expr ex = E.bv(v); unsigned nb = vbytes(v); if (nb * 8 != v.bits) ex = z3::zext(ex, nb * 8 - v.bits);
    for (unsigned i = 0; i < nb; i++) { uint64_t q = b + i; if (q >= off && q < off + n) continue; z3::expr byte = ex.extract(8 * i + 7, 8 * i).simplify(); uint64_t cv; if (byte.is_numeral_u64(cv)) o.bytes[q] = (uint8_t)cv; else o.sym[q] = mkIs(8, P(byte)); }
    it = o.sym.lower_bound(off >= 32 ? off - 32 : 0);
  }
}
void Engine::store(State& s, uint64_t a, const Val& v, unsigned n) {
  Obj& o = wobj(s, a, n, "store"); uint64_t off = a & 0xffffffffull;
  clearRange(*this, o, off, n);
  if (v.k == V_UNDEF) { memset(&o.bytes[off], 0, n); return; }
  if (v.conc() && v.k == V_INT) { memset(&o.bytes[off], 0, n); memcpy(&o.bytes[off], &v.c, std::min(n, 8u)); return; }
  if (v.conc() && v.k == V_FP) {
    if (n == 8) memcpy(&o.bytes[off], &v.c, 8);
    else if (n == 4) { float f = (float)v.d(); memcpy(&o.bytes[off], &f, 4); }
    else { long double l = v.d(); memset(&o.bytes[off], 0, n); memcpy(&o.bytes[off], &l, 10); }
    return;
  }
  if (v.conc() && v.k == V_FPBITS) { memcpy(&o.bytes[off], &v.c, 8); return; }
  Val w = v; if (w.k == V_FPBITS) { w.k = V_FP; w.bits = 64; }
  if (w.k == V_INT && w.bits == 1) { w = mkIs(8, P(z3::ite(X(w.sx), C.bv_val(1, 8), C.bv_val(0, 8)))); }
  if (w.k == V_FP) w.bits = n == 4 ? 32 : 64;
  o.sym[off] = w;
}
Val Engine::load(State& s, uint64_t a, unsigned n, bool fp, unsigned bits) {
  Obj& o = robj(s, a, n, "load"); if (o.ext) throw Unsupported{"load of external variable " + ::demangle(o.name)}; uint64_t off = a & 0xffffffffull;
  auto it = o.sym.lower_bound(off >= 32 ? off - 32 : 0); bool any = false;
  for (; it != o.sym.end() && it->first < off + n; ++it) {
    unsigned nb = vbytes(it->second); if (it->first + nb <= off) continue;
    if (it->first == off && nb == n) {
      Val v = it->second;
      if (fp) { if (v.k == V_FP) return v; if (v.k == V_Z) throw Unsupported{"load of ghost cell"}; throw Unsupported{"load fp from symbolic int cell"}; }
      if (v.k == V_FP) { v.k = V_FPBITS; v.bits = 64; return v; }
      if (v.k == V_Z) throw Unsupported{"load of ghost cell"};
      if (bits == 1) return mkIs(1, P((bv(v).extract(0, 0) == C.bv_val(1, 1)).simplify()));
      if (v.bits != bits) { z3::expr e = bv(v); e = e.extract(bits - 1, 0).simplify(); uint64_t cv; if (e.is_numeral_u64(cv)) return mkI(bits, cv); return mkIs(bits, P(e)); }
      return v;
    }
    any = true;
  }
  if (!any) {
    if (fp) { if (n == 8) { Val v = mkD(0); memcpy(&v.c, &o.bytes[off], 8); return v; } if (n == 4) { float f; memcpy(&f, &o.bytes[off], 4); Val v = mkD(f); v.bits = 32; return v; } long double l = 0; memcpy(&l, &o.bytes[off], 10); Val v = mkD((double)l); v.bits = 80; return v; }
    if (n > 8) throw Unsupported{"load of wide int"};
    uint64_t c = 0; memcpy(&c, &o.bytes[off], n); return mkI(bits, c);
  }
  if (fp) throw Unsupported{"partial load of fp"};
  // compose bytes
  z3::expr_vector parts(C);
  for (int i = (int)n - 1; i >= 0; i--) {
    uint64_t q = off + i; auto j = o.sym.upper_bound(q); bool done = false;
    if (j != o.sym.begin()) { --j; unsigned nb = vbytes(j->second); if (j->first <= q && q < j->first + nb) { if (j->second.k != V_INT) throw Unsupported{"partial load of symbolic non-integer cell"}; z3::expr e = bv(j->second); if (nb * 8 != j->second.bits) e = z3::zext(e, nb * 8 - j->second.bits); unsigned k = q - j->first; parts.push_back(e.extract(8 * k + 7, 8 * k)); done = true; } }
    if (!done) parts.push_back(C.bv_val((unsigned)o.bytes[q], 8));
  }
  z3::expr e = parts.size() == 1 ? parts[0] : z3::concat(parts); if (bits < n * 8) e = e.extract(bits - 1, 0); e = e.simplify();
  uint64_t cv; if (e.is_numeral_u64(cv)) return mkI(bits, cv);
  if (bits == 1) return mkIs(1, P((e == C.bv_val(1, 1)).simplify()));
  return mkIs(bits, P(e));
}
static unsigned fpBytes(Type* t) { return t->isFloatTy() ? 4 : t->isDoubleTy() ? 8 : 10; }
Val Engine::loadT(State& s, uint64_t a, Type* t) {
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) throw Unsupported{"wide int load"}; return load(s, a, (b + 7) / 8, false, b); }
  if (t->isPointerTy()) return load(s, a, 8, false, 64);
  if (t->isFloatingPointTy()) return load(s, a, fpBytes(t), true, 64);
  Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadT(s, a + sl->getElementOffset(i), st->getElementType(i))); return v; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadT(s, a + i * es, at->getElementType())); return v; }
  throw Unsupported{"load of vector type"};
}
void Engine::storeT(State& s, uint64_t a, const Val& v, Type* t) {
  if (t->isIntegerTy()) { unsigned b = t->getIntegerBitWidth(); if (b > 64) throw Unsupported{"wide int store"}; store(s, a, v, (b + 7) / 8); return; }
  if (t->isPointerTy()) { store(s, a, v, 8); return; }
  if (t->isFloatingPointTy()) { store(s, a, v, fpBytes(t)); return; }
  if (v.k == V_UNDEF) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeT(s, a + sl->getElementOffset(i), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, a + i * es, (*v.agg)[i], at->getElementType()); return; }
  throw Unsupported{"store of vector type"};
}
void Engine::memcopy(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (n == 0) return;
  Obj& so = robj(s, src, n, "memcpy read"); uint64_t soff = src & 0xffffffffull;
  std::vector<uint8_t> b(so.bytes.begin() + soff, so.bytes.begin() + soff + n); std::vector<std::pair<uint64_t, Val>> cells; std::vector<std::pair<uint64_t, Val>> frag;
  for (auto it = so.sym.lower_bound(soff >= 32 ? soff - 32 : 0); it != so.sym.end() && it->first < soff + n; ++it) {
    unsigned nb = vbytes(it->second); if (it->first + nb <= soff) continue;
    if (it->first >= soff && it->first + nb <= soff + n) { cells.push_back({it->first - soff, it->second}); continue; }
    for (unsigned i = 0; i < nb; i++) { uint64_t q = it->first + i; if (q >= soff && q < soff + n) frag.push_back({q - soff, load(s, (src & ~0xffffffffull) + q, 1, false, 8)}); }
  }
  Obj& o = wobj(s, d, n, "memcpy write"); uint64_t off = d & 0xffffffffull; clearRange(*this, o, off, n);
  memcpy(&o.bytes[off], b.data(), n); for (auto& c : cells) o.sym[off + c.first] = c.second;
  for (auto& c : frag) { if (c.second.conc()) o.bytes[off + c.first] = (uint8_t)c.second.c; else o.sym[off + c.first] = c.second; }
}
std::string Engine::cstr(State& s, uint64_t a) { std::string r; for (;; a++) { Val v = load(s, a, 1, false, 8); if (!v.conc()) throw Unsupported{"symbolic string"}; if (!v.c) return r; r.push_back((char)v.c); } }
void Engine::storeConst(State& s, uint64_t a, Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || c->isNullValue()) return;
  if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeConst(s, a + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL.getTypeAllocSize(cd->getElementType()); if (cd->getElementType()->isIntegerTy(8)) { auto r = cd->getRawDataValues(); Obj& o = wobj(s, a, r.size(), "init"); memcpy(&o.bytes[a & 0xffffffffull], r.data(), r.size()); return; } for (unsigned i = 0; i < cd->getNumElements(); i++) storeConst(s, a + i * es, cd->getElementAsConstant(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t es = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeConst(s, a + i * es, c->getAggregateElement(i)); return; }
  if (t->isX86_FP80Ty()) { auto* cf = cast<ConstantFP>(c); APInt bits = cf->getValueAPF().bitcastToAPInt(); Obj& o = wobj(s, a, 10, "init"); memcpy(&o.bytes[a & 0xffffffffull], bits.getRawData(), 10); return; }
  storeT(s, a, constant(s, c), t);
}
Val Engine::constant(State& s, Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) throw Unsupported{"wide int constant"}; } Val v = mkI(std::min(ci->getBitWidth(), 64u), ci->getValue().extractBitsAsZExtValue(std::min(ci->getBitWidth(), 64u), 0)); v.bits = ci->getBitWidth(); return v; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) { APFloat f = cf->getValueAPF(); bool lose; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose); Val v = mkD(f.convertToDouble()); v.bits = t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : 80; if (lose) throw Unsupported{"long double constant"}; return v; }
  if (isa<ConstantPointerNull>(c)) return mkI(64, 0);
  if (auto* gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) throw Unsupported{"unknown global " + gv->getName().str()}; return mkI(64, it->second); }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) {
    if (t->isIntegerTy()) return mkI(t->getIntegerBitWidth(), 0); if (t->isPointerTy()) return mkI(64, 0); if (t->isFloatingPointTy()) return mkD(0);
    Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : 0; if (t->isVectorTy()) throw Unsupported{"vector constant"};
    for (unsigned i = 0; i < n; i++) v.agg->push_back(constant(s, c->getAggregateElement(i))); return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) { Val b = constant(s, ce->getOperand(0)); APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off)) throw Unsupported{"constexpr gep"}; return mkI(64, b.c + off.getSExtValue()); }
    if (ce->isCast()) { Val v = constant(s, ce->getOperand(0)); v.bits = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); v.c &= maskb(v.bits); return v; }
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) { Val a = constant(s, ce->getOperand(0)), b = constant(s, ce->getOperand(1)); return mkI(a.bits, ce->getOpcode() == Instruction::Add ? a.c + b.c : a.c - b.c); }
  }
  throw Unsupported{"constant kind"};
}
Val Engine::get(State& s, Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(s, c);
  Frame& f = s.st.back(); auto it = f.fi->num.find(v); if (it == f.fi->num.end()) throw Unsupported{"unknown value"};
  return f.regs[it->second];
}
void Engine::set(State& s, Instruction& I, Val v) { Frame& f = s.st.back(); f.regs[f.fi->num[&I]] = std::move(v); }

// ---------------------------------------------------------------- logic
z3::expr Engine::bv(const Val& v) {
  if (v.k == V_FPBITS) throw Unsupported{"bit operation on symbolic floating-point value"};
  if (v.k != V_INT) throw Unsupported{"bv of non-int"};
  if (v.conc()) return C.bv_val((uint64_t)v.c, v.bits);
  if (v.bits == 1) return z3::ite(X(v.sx), C.bv_val(1, 1), C.bv_val(0, 1));
  return X(v.sx);
}
z3::expr Engine::boolOf(const Val& v) { if (v.k != V_INT) throw Unsupported{"bool of non-int"}; if (v.conc()) return C.bool_val(v.c != 0); if (v.bits == 1) return X(v.sx); return bv(v) != C.bv_val(0, v.bits); }
z3::expr Engine::re(const Val& v) { if (v.k == V_FP || v.k == V_FPBITS) return v.conc() ? dblToReal(v.d()) : X(v.sx); if (v.k == V_Z) return z3::to_real(X(v.sx)); throw Unsupported{"real of non-fp"}; }
// mathematical integer denoted by a bit vector (unsigned), translated structurally where possible
static z3::expr pow2(unsigned k) { return C.int_val([](unsigned k) { mpz_t z; mpz_init(z); mpz_setbit(z, k); char* c = mpz_get_str(nullptr, 10, z); std::string r = c; free(c); mpz_clear(z); return r; }(k).c_str()); }
static z3::expr bvNeg(const z3::expr& a) { // negation commutes with taking low bits
  unsigned n = a.get_sort().bv_size(); if (a.is_app() && a.decl().decl_kind() == Z3_OP_EXTRACT && a.lo() == 0) return z3::mod(bvNeg(a.arg(0)), pow2(n));
  return z3::ite(a == C.bv_val(0, n), C.int_val(0), pow2(n) - bvU(a)); }
z3::expr bvU(const z3::expr& x0) {
  z3::expr x = x0; unsigned n = x.get_sort().bv_size(); if (x.is_numeral()) return C.int_val(Z3_get_numeral_string(C, x)); auto base = [&]() { return z3::expr(C, Z3_mk_bv2int(C, x, false)); };
  if (!x.is_app()) return base(); auto num = [&](unsigned i, uint64_t& c) { return x.arg(i).is_numeral_u64(c); }; uint64_t c;
  switch (x.decl().decl_kind()) {
    case Z3_OP_BLSHR: if (num(1, c) && c < n) return bvU(x.arg(0)) / pow2((unsigned)c); return base();
    case Z3_OP_BSHL: if (num(1, c) && c < n) return z3::mod(bvU(x.arg(0)) * pow2((unsigned)c), pow2(n)); return base();
    case Z3_OP_ZERO_EXT: return bvU(x.arg(0));
    case Z3_OP_CONCAT: { z3::expr r = bvU(x.arg(0)); for (unsigned i = 1; i < x.num_args(); i++) r = r * pow2(x.arg(i).get_sort().bv_size()) + bvU(x.arg(i)); return r.simplify(); }
    case Z3_OP_EXTRACT: { unsigned lo = x.lo(), hi = x.hi(), m = x.arg(0).get_sort().bv_size(); z3::expr y = bvU(x.arg(0)); if (lo) y = y / pow2(lo); if (hi + 1 < m) y = z3::mod(y, pow2(hi - lo + 1)); return y; }
    case Z3_OP_BNEG: return bvNeg(x.arg(0));
    case Z3_OP_BADD: { z3::expr r = bvU(x.arg(0)); for (unsigned i = 1; i < x.num_args(); i++) r = r + bvU(x.arg(i)); return z3::mod(r, pow2(n)); }
    case Z3_OP_BMUL: if (x.num_args() == 2 && x.arg(0).is_numeral() && (-x.arg(0)).simplify().is_numeral_u64(c) && c == 1) return bvNeg(x.arg(1)); if (x.num_args() == 2 && x.arg(0).is_numeral()) return z3::mod(bvU(x.arg(0)) * bvU(x.arg(1)), pow2(n)); return base();
    case Z3_OP_ITE: return z3::ite(x.arg(0), bvU(x.arg(1)), bvU(x.arg(2)));
    default: return base();
  }
}
z3::expr bvS(const z3::expr& x) { unsigned n = x.get_sort().bv_size(); z3::expr u = bvU(x); return z3::ite(x < C.bv_val(0, n), u - pow2(n), u); }
z3::expr Engine::zi(const Val& v) { if (v.k == V_Z) return X(v.sx); throw Unsupported{"not a ghost integer"}; }
static std::unordered_map<unsigned, std::shared_ptr<std::vector<unsigned>>> varsCache;
static std::shared_ptr<std::vector<unsigned>> varsOf(const z3::expr& e) {
  unsigned id = Z3_get_ast_id(C, e); auto it = varsCache.find(id); if (it != varsCache.end()) return it->second;
  auto r = std::make_shared<std::vector<unsigned>>(); P(e);
  if (e.is_app()) { if (e.num_args() == 0 && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) r->push_back(id); else { std::set<unsigned> u; for (unsigned i = 0; i < e.num_args(); i++) { auto q = varsOf(e.arg(i)); u.insert(q->begin(), q->end()); } r->assign(u.begin(), u.end()); } }
  varsCache[id] = r; return r;
}
static bool hasKind(const z3::expr& e, std::unordered_set<unsigned>& seen, bool& nonreal) {
  if (!seen.insert(Z3_get_ast_id(C, e)).second) return nonreal;
  if (!e.is_real() && !e.is_bool()) nonreal = true;
  if (e.is_app()) for (unsigned i = 0; i < e.num_args() && !nonreal; i++) hasKind(e.arg(i), seen, nonreal);
  return nonreal;
}
// returns 1 sat, 0 unsat, -1 unknown
int linAttempt(const std::vector<z3::expr>& as, unsigned ms);
int Engine::solve(State& s, const std::vector<z3::expr>& extra, unsigned tmo, bool cegar, std::optional<z3::model>* out, std::string* backend) {
  double t0 = now(); queries++;
  // slice
  std::vector<int> use; std::vector<bool> in(s.pc.size(), false); std::unordered_set<unsigned> vars;
  for (auto& e : extra) { auto v = varsOf(e); vars.insert(v->begin(), v->end()); }
  std::vector<bool> tin(s.triples.size(), false);
  bool all = extra.empty(); bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.pc.size(); i++) if (!in[i]) { auto v = varsOf(X(s.pc[i])); bool hit = all || v->empty(); for (unsigned q : *v) if (vars.count(q)) { hit = true; break; } if (hit) { in[i] = true; vars.insert(v->begin(), v->end()); ch = true; } } }
  auto touches = [&](int x) { auto v = varsOf(X(x)); for (unsigned q : *v) if (vars.count(q)) return true; return false; };
  std::vector<z3::expr> asserts; for (size_t i = 0; i < s.pc.size(); i++) if (in[i]) asserts.push_back(X(s.pc[i])); for (auto& e : extra) asserts.push_back(e);
  bool nonreal = false; { std::unordered_set<unsigned> seen; for (auto& e : asserts) hasKind(e, seen, nonreal); }
  int result = -1; std::string be = "z3"; std::optional<z3::model> mdl;
  auto attempt = [&](int kind, unsigned ms, const std::vector<z3::expr>& as) -> int {
    try {
      z3::solver sv = kind == 0 ? z3::solver(C) : kind == 1 ? z3::tactic(C, "qfnra-nlsat").mk_solver() : (z3::tactic(C, "simplify") & z3::tactic(C, "solve-eqs") & z3::tactic(C, "purify-arith") & z3::tactic(C, "qfnra-nlsat")).mk_solver();
      z3::params p(C); p.set("timeout", ms); sv.set(p);
      for (auto& e : as) sv.add(e);
      auto r = sv.check(); if (r == z3::sat) { mdl = sv.get_model(); return 1; } return r == z3::unsat ? 0 : -1;
    } catch (z3::exception& ex) { return -1; }
  };
  for (int round = 0; round < (cegar ? 40 : 1); round++) {
    int r;
    if (nonreal) { r = attempt(0, tmo, asserts); be = "z3-smt"; }
    else {
      r = attempt(0, std::min(tmo, 300u), asserts); be = "z3-smt";
      if (r < 0 && tmo > 2500) { int l = linAttempt(asserts, std::min(tmo / 3, 6000u)); if (l == 0) { r = 0; be = "z3-lra-linearised"; } }
      if (r < 0) { r = attempt(1, tmo / 2, asserts); be = "z3-nlsat"; }
      if (r < 0 && tmo > 3000) { r = attempt(2, tmo / 2, asserts); be = "z3-nlsat-purify"; }
      if (r < 0 && tmo > 3000) { r = attempt(0, tmo, asserts); be = "z3-smt"; }
    }
    result = r; if (r != 1 || !cegar) break;
    // lazy instantiation of rounding and function axioms violated by the model
    bool added = false; auto& m = *mdl;
    auto viol = [&](const z3::expr& ax) { z3::expr v = m.eval(ax, true); return v.is_false(); };
    auto learn = [&](const z3::expr& ax) { unsigned id = Z3_get_ast_id(C, ax); P(ax); if (s.learned.insert(id).second) { s.pc.push_back(P(ax)); } asserts.push_back(ax); added = true; };
    for (auto& t : s.triples) if (touches(t.e) || (t.rd >= 0 && touches(t.rd)) || (t.ru >= 0 && touches(t.ru))) {
      const z3::expr e = X(t.e);
      for (auto& rp : s.reps) if (rp.fmt <= t.fmt) {
        if (!varsOf(X(rp.x))->empty() && !touches(rp.x)) continue;
        for (int sg = 0; sg < 2; sg++) {
          z3::expr x = sg ? -X(rp.x) : X(rp.x);
          if (t.rd >= 0 && rp.x != t.rd) { z3::expr ax = z3::implies(x <= e, x <= X(t.rd)); if (viol(ax)) learn(ax); }
          if (t.ru >= 0 && rp.x != t.ru) { z3::expr ax = z3::implies(x >= e, x >= X(t.ru)); if (viol(ax)) learn(ax); }
        }
        if (asserts.size() > 4000) break;
      }
    }
    for (size_t i = 0; i < s.triples.size(); i++) for (size_t j = 0; j < i; j++) if (s.triples[i].fmt == s.triples[j].fmt && s.triples[i].rn >= 0 && s.triples[j].rn >= 0) {
      auto &a = s.triples[i], &b = s.triples[j]; if (!touches(a.rn) && !touches(b.rn)) continue;
      z3::expr ea = X(a.e), eb = X(b.e), ra = X(a.rn), rb = X(b.rn);
      for (auto& ax : {z3::implies(ea <= eb, ra <= rb), z3::implies(ea >= eb, ra >= rb), z3::implies(ea <= -eb, ra <= -rb), z3::implies(ea >= -eb, ra >= -rb)}) if (viol(ax)) learn(ax);
    }
    for (size_t i = 0; i < s.tfuns.size(); i++) for (size_t j = 0; j < i; j++) if (s.tfuns[i].fn == s.tfuns[j].fn) {
      auto &a = s.tfuns[i], &b = s.tfuns[j]; if (!touches(a.val) && !touches(b.val)) continue;
      z3::expr xa = X(a.arg), xb = X(b.arg), ya = X(a.val), yb = X(b.val);
      bool inc = a.fn == "exp" || a.fn == "log" || a.fn == "atan" || a.fn == "asin"; bool dec = a.fn == "acos";
      std::vector<z3::expr> axs; axs.push_back(z3::implies(xa == xb, ya == yb));
      if (inc) { axs.push_back(z3::implies(xa < xb, ya < yb)); axs.push_back(z3::implies(xa > xb, ya > yb)); }
      if (dec) { axs.push_back(z3::implies(xa < xb, ya > yb)); axs.push_back(z3::implies(xa > xb, ya < yb)); }
      for (auto& ax : axs) if (viol(ax)) learn(ax);
    }
    if (!added) break;
    result = -1;
  }
  if (out && result == 1) *out = mdl;
  if (backend) *backend = be;
  solver_s += now() - t0; if (result < 0) solver_unknown++;
  return result;
}
void Engine::assume(State& s, const z3::expr& c0) { z3::expr c = c0.simplify(); if (c.is_true()) return; if (c.is_false()) throw PathEnd{"assume false"}; if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < c.num_args(); i++) assume(s, c.arg(i)); return; } s.pc.push_back(P(c)); s.decided[Z3_get_ast_id(C, c)] = true; P(c); }
bool Engine::decide(State& s, const z3::expr& cond0) {
  z3::expr cond = cond0.simplify(); if (cond.is_true()) return true; if (cond.is_false()) return false;
  z3::expr nc = (!cond).simplify(); P(cond); P(nc);
  unsigned id = Z3_get_ast_id(C, cond), nid = Z3_get_ast_id(C, nc);
  { auto it = s.decided.find(id); if (it != s.decided.end()) return it->second; it = s.decided.find(nid); if (it != s.decided.end()) return !it->second; }
  bool lp = !s.st.empty() && ++s.brcount[s.st.back().bb] > 2; // in a loop: use the rounding axioms to prune
  int rt = solve(s, {cond}, f_timeout_ms, lp, nullptr, nullptr);
  if (rt == 0) { s.decided[id] = false; s.pc.push_back(P(nc)); return false; }
  int rf = solve(s, {nc}, f_timeout_ms, lp, nullptr, nullptr);
  if (rf == 0) { s.decided[id] = true; s.pc.push_back(P(cond)); return true; }
  if (now() > deadline) throw Unsupported{"timeout"};
  if (work.size() + paths > max_paths) throw Unsupported{"path limit"};
  if (getenv("VP_FORKS")) { std::cerr << "FORK " << s.depth << " " << cond.to_string().substr(0,150); for (size_t k = s.st.size(), n = 0; k-- > 0 && n < 3; n++) std::cerr << " <- " << demangle(s.st[k].bb->getParent()->getName().str()).substr(0, 60); std::cerr << "\n"; }
  State cl = s; cl.pc.push_back(P(nc)); cl.decided[id] = false; cl.decided[nid] = true; cl.depth++; work.push_back(std::move(cl));
  s.pc.push_back(P(cond)); s.decided[id] = true; s.decided[nid] = false; s.depth++; return true;
}
uint64_t Engine::concretize(State& s, const Val& v) {
  if (v.k == V_FPBITS) throw Unsupported{"concretize fp bits"};
  if (v.k == V_UNDEF) return 0;
  if (v.k != V_INT) throw Unsupported{"concretize"};
  if (v.conc()) return v.c;
  if (v.bits == 1) return decide(s, X(v.sx)) ? 1 : 0;
  z3::expr e = bv(v);
  for (int i = 0; i < 4096; i++) {
    std::optional<z3::model> m; int r = solve(s, {}, f_timeout_ms * 4, false, &m, nullptr);
    if (r == 0) throw PathEnd{"infeasible"}; if (r < 0) throw Unsupported{"concretize: unknown"};
    z3::expr val = m->eval(e, true); uint64_t c; if (!val.is_numeral_u64(c)) throw Unsupported{"concretize: no value"};
    if (decide(s, e == C.bv_val(c, v.bits))) return c;
  }
  throw Unsupported{"concretize: too many values"};
}
void Engine::oblige(State& s, const z3::expr& c0, const std::string& label, const std::string& detail) {
  OblRes& o = obl[label]; o.label = label; o.checked++; s.reached_assert = true;
  z3::expr c = c0.simplify();
  if (c.is_true()) { o.proved++; backend_count["syntactic"]++; return; }
  std::optional<z3::model> m; std::string be;
  unsigned rem = (unsigned)std::max(100.0, std::min<double>(q_timeout_ms, (deadline - now()) * 1000));
  int r = solve(s, {!c}, rem, true, &m, &be);
  if (r == 0) { o.proved++; backend_count[be]++; s.pc.push_back(P(c)); return; }
  if (r < 0) { o.unknown++; if (getenv("VP_DUMP")) { z3::solver sv(C); for (int i : s.pc) sv.add(X(i)); sv.add(!c); std::cerr << "UNKNOWN " << label << "\n" << sv << "\n"; } s.pc.push_back(P(c)); return; }
  // full model for the inputs, without slicing; the path itself may be infeasible for reasons the slice left out
  std::optional<z3::model> fm; State tmp = s; tmp.pc.push_back(P(!c)); int fr = solve(tmp, {}, q_timeout_ms, true, &fm, &be); z3::model& mm = fr == 1 ? *fm : *m;
  if (fr == 0) { o.proved++; backend_count[be]++; s.pc.push_back(P(c)); return; }
  o.failed++; if (getenv("VP_DUMP")) { z3::solver sv(C); for (int i : s.pc) sv.add(X(i)); sv.add(!c); std::cerr << "FAILED " << label << "\n" << sv << "\n" << *m << "\n"; }
  Failure f; f.label = label; f.detail = detail; f.definite = true;
  for (auto& in : s.inputs) { std::string v; if (in.sx < 0) v = std::to_string((int64_t)in.c); else { z3::expr x = mm.eval(X(in.sx), true); bool ok; v = numeral(x, ok); } f.inputs.push_back({in.name, v}); }
  failures.push_back(f); if (failures.size() >= max_failures) throw Unsupported{"failure limit"};
  if (c.is_false()) throw PathEnd{"assertion false"};
  s.pc.push_back(P(c));
}
std::string numeral(const z3::expr& e, bool& ok) {
  ok = true;
  if (e.is_bv()) { uint64_t c; if (e.is_numeral_u64(c)) { unsigned b = e.get_sort().bv_size(); if (b < 64 && (c >> (b - 1) & 1)) return std::to_string((int64_t)(c | ~maskb(b))); return std::to_string((int64_t)c); } }
  if (e.is_true()) return "1"; if (e.is_false()) return "0";
  if (e.is_numeral()) return Z3_get_numeral_string(C, e);
  if (e.is_algebraic()) return std::string("~") + Z3_get_numeral_decimal_string(C, e, 40);
  ok = false; return "0";
}

// ---------------------------------------------------------------- floating point
int Engine::rmode(State& s) { switch ((s.mxcsr >> 13) & 3) { case 0: return 0; case 1: return 1; case 2: return 2; default: return 3; } }
static double nativeOp(char op, double a, double b, double c, int rnd) {
  static const int m[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  int old = fegetround(); fesetround(m[rnd]); volatile double x = a, y = b, z = c, r = 0;
  switch (op) { case '+': r = x + y; break; case '-': r = x - y; break; case '*': r = x * y; break; case '/': r = x / y; break; case 'f': r = std::fma(x, y, z); break; case 's': r = std::sqrt(x); break; }
  double rr = r; fesetround(old); return rr;
}
void Engine::addRep(State& s, int x, int fmt) { for (auto& r : s.reps) if (r.x == x && r.fmt <= fmt) return; s.reps.push_back({x, fmt}); }
bool Engine::isRep(State& s, int x, int fmt) {
  const z3::expr e = X(x);
  if (e.is_numeral()) { mpq_t q; mpq_init(q); bool ok = exprToMpq(e, q) && mpqRep(q, fmt); mpq_clear(q); return ok; }
  for (auto& r : s.reps) if (r.x == x && r.fmt <= fmt) return true;
  z3::expr ne = (-e).simplify(); int n = P(ne); for (auto& r : s.reps) if (r.x == n && r.fmt <= fmt) return true;
  // ite of representables
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_ITE) return isRep(s, P(e.arg(1)), fmt) && isRep(s, P(e.arg(2)), fmt);
  // power of two multiple
  if (e.is_app() && e.decl().decl_kind() == Z3_OP_MUL && e.num_args() == 2 && e.arg(0).is_numeral()) { mpq_t q; mpq_init(q); bool ok = exprToMpq(e.arg(0), q) && mpqRep(q, 1); mpq_clear(q); if (ok) return isRep(s, P(e.arg(1)), fmt); }
  return false;
}
Val Engine::round(State& s, const z3::expr& e0, int rnd, int fmt) {
  z3::expr e = e0.simplify();
  if (e.is_numeral()) {
    mpq_t q; mpq_init(q); if (!exprToMpq(e, q)) { mpq_clear(q); throw Unsupported{"numeral"}; }
    mpfr_t x; mpfr_init2(x, fmt); static const mpfr_rnd_t m[] = {MPFR_RNDN, MPFR_RNDD, MPFR_RNDU, MPFR_RNDZ}; mpfr_set_q(x, q, m[rnd]);
    if (mpfr_zero_p(x)) mpq_set_ui(q, 0, 1); else { mpz_t z; mpz_init(z); mpfr_exp_t ex = mpfr_get_z_2exp(z, x); mpq_set_z(q, z); if (ex >= 0) mpq_mul_2exp(q, q, ex); else mpq_div_2exp(q, q, -ex); mpz_clear(z); }
    z3::expr r = mpqToReal(q); mpq_clear(q); mpfr_clear(x); return norm(r);
  }
  int ei = P(e); if (isRep(s, ei, fmt)) return mkF(ei);
  if (rnd == 3) { if (decide(s, e >= 0)) rnd = 1; else rnd = 2; }
  RTriple* t = nullptr; bool neg = false; int ni = P((-e).simplify());
  for (auto& q : s.triples) if (q.fmt == fmt) { if (q.e == ei) { t = &q; break; } if (q.e == ni) { t = &q; neg = true; break; } }
  if (!t) { static z3::params sp(C); static bool init = false; if (!init) { sp.set("som", true); init = true; } // same value written differently
    for (auto& q : s.triples) if (q.fmt == fmt) { auto z = [&](const z3::expr& d) { z3::expr v = d.simplify(sp); return v.is_numeral() && Z3_get_numeral_string(C, v) == std::string("0"); }; if (z(X(q.e) - e)) { t = &q; break; } if (z(X(q.e) + e)) { t = &q; neg = true; break; } } }
  if (!t) { s.triples.push_back(RTriple{ei, fmt}); t = &s.triples.back(); }
  int want = rnd; if (neg) want = rnd == 1 ? 2 : rnd == 2 ? 1 : 0;
  z3::expr te = X(t->e);
  auto need = [&](int k) {
    int& slot = k == 1 ? t->rd : k == 2 ? t->ru : t->rn; if (slot >= 0) return;
    z3::expr v = C.real_const(fresh(k == 1 ? "rd" : k == 2 ? "ru" : "rn").c_str()); slot = P(v); addRep(s, slot, fmt);
    if (k == 1) { s.pc.push_back(P(v <= te)); s.pc.push_back(P(z3::implies(te >= 0, v >= 0))); }
    if (k == 2) { s.pc.push_back(P(v >= te)); s.pc.push_back(P(z3::implies(te <= 0, v <= 0))); }
    if (k == 0) { z3::expr rd = X(t->rd), ru = X(t->ru); s.pc.push_back(P(v == rd || v == ru)); s.pc.push_back(P(2 * (v - te) <= ru - rd)); s.pc.push_back(P(2 * (te - v) <= ru - rd)); }
  };
  if (want == 0) { need(1); need(2); need(0); } else need(want);
  int r = want == 1 ? t->rd : want == 2 ? t->ru : t->rn;
  return neg ? norm(-X(r)) : mkF(r);
}
Val Engine::exactdiv(State& s, const z3::expr& a0, const z3::expr& b0) {
  z3::expr a = a0.simplify(), b = b0.simplify();
  if (b.is_numeral()) { return norm(a / b); }
  if (a.is_numeral() && Z3_get_numeral_string(C, a) == std::string("0")) return mkD(0.0);
  // q named by (a,b) so equal quotients share a variable
  static std::map<std::pair<int, int>, int> qc; auto key = std::make_pair(P(a), P(b)); auto it = qc.find(key); int qi;
  if (it == qc.end()) { qi = P(C.real_const(fresh("quo").c_str())); qc[key] = qi; } else qi = it->second;
  z3::expr q = X(qi); z3::expr ax = q * b == a; P(ax); if (s.learned.insert(Z3_get_ast_id(C, ax)).second) s.pc.push_back(P(ax));
  return mkF(qi);
}
Val Engine::fpop(State& s, char op, Val a, Val b, int rnd, int fmt, Val* c3) {
  if (a.k == V_UNDEF) a = mkD(0); if (b.k == V_UNDEF) b = mkD(0);
  if (a.conc() && b.conc() && (!c3 || c3->conc()) && (fmt == 53 || !std::isfinite(a.d()) || !std::isfinite(b.d()))) return mkD(nativeOp(op, a.d(), b.d(), c3 ? c3->d() : 0, rnd));
  const double INF = HUGE_VAL, NANV = NAN;
  auto isnanv = [](const Val& v) { return v.conc() && std::isnan(v.d()); }; auto isinfv = [](const Val& v) { return v.conc() && std::isinf(v.d()); };
  if (op == 's') {
    if (isnanv(a)) return a; if (isinfv(a)) return a.d() > 0 ? a : mkD(NANV);
    z3::expr e = re(a); if (decide(s, e < 0)) return mkD(NANV); if (decide(s, e == 0)) return mkD(0);
    return round(s, re(tfun(s, "sqrt", e)), rnd, fmt);
  }
  if (op == 'f') {
    if (isnanv(a) || isnanv(b) || isnanv(*c3)) return mkD(NANV); if (isinfv(a) || isinfv(b)) { Val p = fpop(s, '*', a, b, rnd, fmt); return fpop(s, '+', p, *c3, rnd, fmt); } if (isinfv(*c3)) return *c3;
    return round(s, re(a) * re(b) + re(*c3), rnd, fmt);
  }
  if (isnanv(a) || isnanv(b)) return mkD(NANV);
  auto sgn = [&](const Val& v) -> int { if (v.conc()) return v.d() > 0 ? 1 : v.d() < 0 ? -1 : 0; z3::expr e = re(v); if (decide(s, e > 0)) return 1; if (decide(s, e < 0)) return -1; return 0; };
  if (isinfv(a) || isinfv(b)) {
    switch (op) {
      case '+': case '-': { double x = isinfv(a) ? a.d() : 0, y = isinfv(b) ? b.d() : 0; return mkD(op == '+' ? x + y : x - y); }
      case '*': { int x = sgn(a), y = sgn(b); if (x * y == 0) return mkD(NANV); return mkD(x * y > 0 ? INF : -INF); }
      case '/': { if (isinfv(a) && isinfv(b)) return mkD(NANV); if (isinfv(b)) return mkD(0); int y = sgn(b); double sg = y == 0 ? (b.conc() && std::signbit(b.d()) ? -1 : 1) : y; return mkD(a.d() * sg); }
    }
  }
  z3::expr x = re(a), y = re(b);
  for (const Val* v : {&a, &b}) if (v->conc() && v->d() != 0) { int i = P(dblToReal(std::fabs(v->d()))); if (s.reps.size() < 60) addRep(s, i, 53); }
  switch (op) {
    case '+': case '-': { z3::expr e = (op == '+' ? x + y : x - y).simplify(); Val r = round(s, e, rnd, fmt); // a nonzero sum or difference never underflows to zero
      if (!r.conc() && r.sx != P(e)) { z3::expr v = X(r.sx); z3::expr a1 = z3::implies(e > 0, v > 0), a2 = z3::implies(e < 0, v < 0); P(a1); P(a2); int dir = rnd; if (dir != 2 && s.learned.insert(Z3_get_ast_id(C, a1)).second) s.pc.push_back(P(a1)); if (dir != 1 && s.learned.insert(Z3_get_ast_id(C, a2)).second) s.pc.push_back(P(a2)); }
      return r; }
    case '*': return round(s, x * y, rnd, fmt);
    case '/': {
      if (decide(s, y == 0)) { int sx = sgn(a); if (sx == 0) return mkD(NANV); double z = 1; if (b.conc()) z = std::signbit(b.d()) ? -1 : 1; else { z3::expr nb = C.bool_const(fresh("zsign").c_str()); z = 1; (void)nb; } return mkD(sx * z * INF); }
      return round(s, re(exactdiv(s, x, y)), rnd, fmt);
    }
  }
  throw Unsupported{"fpop"};
}
Val Engine::tfun(State& s, const std::string& fn, const z3::expr& a0) {
  z3::expr a = a0.simplify();
  if (a.is_numeral()) { std::string n = Z3_get_numeral_string(C, a); if (n == "0" && (fn == "sin" || fn == "tan" || fn == "atan" || fn == "asin" || fn == "sqrt")) return mkD(0); if (n == "0" && (fn == "exp" || fn == "cos")) return mkD(1); if (n == "1" && fn == "log") return mkD(0); if (n == "1" && fn == "sqrt") return mkD(1);
    if (fn == "sqrt") { mpq_t q; mpq_init(q); if (exprToMpq(a, q) && mpq_sgn(q) > 0 && mpz_perfect_square_p(mpq_numref(q)) && mpz_perfect_square_p(mpq_denref(q))) { mpz_sqrt(mpq_numref(q), mpq_numref(q)); mpz_sqrt(mpq_denref(q), mpq_denref(q)); z3::expr r = mpqToReal(q); mpq_clear(q); return norm(r); } mpq_clear(q); } }
  int ai = P(a);
  static std::map<std::pair<std::string, int>, int> cache; auto key = std::make_pair(fn, ai);
  if (!cache.count(key)) cache[key] = P(C.real_const(fresh(fn).c_str()));
  int vi = cache[key];
  for (auto& t : s.tfuns) if (t.fn == fn && t.arg == ai) return mkF(vi);
  s.tfuns.push_back({fn, ai, vi}); z3::expr v = X(vi);
  if (fn == "sqrt") { s.pc.push_back(P(v >= 0)); s.pc.push_back(P(v * v == a)); }
  if (fn == "exp") { s.pc.push_back(P(v > 0)); s.pc.push_back(P((a > 0) == (v > 1))); s.pc.push_back(P((a < 0) == (v < 1))); s.pc.push_back(P(v >= 1 + a)); }
  if (fn == "log") { s.pc.push_back(P((a > 1) == (v > 0))); s.pc.push_back(P((a < 1) == (v < 0))); s.pc.push_back(P(v <= a - 1)); }
  if (fn == "sin" || fn == "cos") { s.pc.push_back(P(v <= 1)); s.pc.push_back(P(v >= -1)); }
  if (fn == "atan" || fn == "asin" || fn == "atan") { s.pc.push_back(P((a > 0) == (v > 0))); s.pc.push_back(P((a < 0) == (v < 0))); }
  if (fn == "acos") s.pc.push_back(P(v >= 0));
  return mkF(vi);
}
Val Engine::freshReal(State& s, const std::string& n) { return mkF(P(C.real_const(fresh(n).c_str()))); }
Val Engine::fcmp(State& s, unsigned pred, Val a, Val b) {
  if (a.k == V_UNDEF) a = mkD(0); if (b.k == V_UNDEF) b = mkD(0);
  bool an = a.conc() && std::isnan(a.d()), bn = b.conc() && std::isnan(b.d());
  if (pred == CmpInst::FCMP_FALSE) return mkI(1, 0); if (pred == CmpInst::FCMP_TRUE) return mkI(1, 1);
  bool uno = an || bn;
  if (uno) return mkI(1, pred >= CmpInst::FCMP_UNO && pred != CmpInst::FCMP_ORD ? (pred & 8 ? 1 : 0) : 0);
  if (pred == CmpInst::FCMP_ORD) return mkI(1, 1); if (pred == CmpInst::FCMP_UNO) return mkI(1, 0);
  unsigned p = pred & 7; // bits: 1 eq,2 gt,4 lt
  bool ai = a.conc() && std::isinf(a.d()), bi = b.conc() && std::isinf(b.d());
  if ((a.conc() && b.conc()) || ai || bi) {
    double x = a.conc() ? a.d() : 0, y = b.conc() ? b.d() : 0; if (ai && !b.conc()) y = 0; if (bi && !a.conc()) x = 0;
    return mkI(1, ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y));
  }
  z3::expr x = re(a), y = re(b), r = C.bool_val(false);
  switch (p) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; case 7: return mkI(1, 1); }
  r = r.simplify(); if (r.is_true()) return mkI(1, 1); if (r.is_false()) return mkI(1, 0);
  return mkIs(1, P(r));
}
