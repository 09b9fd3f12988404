// vpverify: verification-condition generator over LLVM IR with Z3 back end.
#pragma once
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/LLVMContext.h>
#include <z3++.h>
#include <gmp.h>
#include <mpfr.h>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <vector>
#include <string>
#include <memory>
#include <functional>
#include <deque>
#include <optional>

struct Unsupported { std::string what; };
struct PathEnd { std::string why; };          // infeasible / assumption false
struct Violation { std::string label; std::string detail; }; // definite (concrete) failure

enum VK : uint8_t { V_UNDEF, V_INT, V_FP, V_AGG, V_FPBITS, V_Z };
struct Val {
  VK k = V_UNDEF; uint16_t bits = 0; uint64_t c = 0; int sx = -1;
  std::shared_ptr<std::vector<Val>> agg;
  bool conc() const { return sx < 0; }
  double d() const { double r; memcpy(&r, &c, 8); return r; }
};
inline uint64_t maskb(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
inline Val mkI(unsigned bits, uint64_t c) { Val v; v.k = V_INT; v.bits = bits; v.c = c & maskb(bits); return v; }
inline Val mkIs(unsigned bits, int sx) { Val v; v.k = V_INT; v.bits = bits; v.sx = sx; return v; }
inline Val mkD(double d) { Val v; v.k = V_FP; v.bits = 64; memcpy(&v.c, &d, 8); return v; }
inline Val mkF(int sx) { Val v; v.k = V_FP; v.bits = 64; v.sx = sx; return v; }

extern z3::context C;
int P(const z3::expr& e);            // intern
const z3::expr& X(int i);

struct Obj {
  uint64_t size = 0; bool alive = true; bool heap = false, ro = false, ext = false; std::string name;
  std::vector<uint8_t> bytes; std::map<uint64_t, Val> sym; // offset -> symbolic cell
};
typedef std::shared_ptr<Obj> ObjP;

struct FnInfo { llvm::Function* f; std::unordered_map<const llvm::Value*, unsigned> num; unsigned n = 0; std::string dem; };
struct Frame {
  FnInfo* fi; llvm::BasicBlock* bb; llvm::BasicBlock* prev; llvm::BasicBlock::iterator it;
  std::vector<Val> regs; std::vector<uint64_t> allocas; llvm::CallBase* cs = nullptr;
};
struct RTriple { int e; int fmt; int rd = -1, ru = -1, rn = -1; };
struct Rep { int x; int fmt; };
struct Input { std::string name; std::string kind; int sx; uint64_t c; };
struct TFun { std::string fn; int arg; int val; };
struct State {
  std::vector<Frame> st; std::vector<ObjP> mem;
  std::vector<int> pc;                 // Bool exprs
  unsigned mxcsr = 0x1f80; int mpfr_rnd = 0; int64_t mpfr_prec = 53;
  std::vector<RTriple> triples; std::vector<Rep> reps; std::vector<Input> inputs; std::vector<TFun> tfuns;
  std::unordered_map<unsigned, bool> decided;
  bool may_throw = false; bool thrown = false; uint64_t exc_obj = 0, exc_type = 0;
  uint64_t steps = 0; int depth = 0; bool reached_assert = false;
  std::set<unsigned> learned;
  uint64_t instr_pushed = 0; std::map<const llvm::BasicBlock*, int> brcount;
};

struct OblRes { std::string label; uint64_t checked = 0, proved = 0, failed = 0, unknown = 0; std::vector<std::string> backends; };
struct Failure { std::string label, detail; std::vector<std::pair<std::string, std::string>> inputs; bool definite; };

struct Engine {
  llvm::Module& M; const llvm::DataLayout& DL;
  std::unordered_map<const llvm::Function*, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr; std::unordered_map<uint64_t, llvm::Function*> faddr;
  typedef std::function<Val(State&, llvm::CallBase&, std::vector<Val>&)> Handler;
  std::unordered_map<std::string, Handler> handlers;
  std::unordered_map<const llvm::Function*, Handler*> hcache;
  std::unordered_map<const llvm::Function*, llvm::Function*> redirect; // contract substitution
  State init; std::vector<State> work;
  // results
  std::map<std::string, OblRes> obl; std::vector<Failure> failures; std::vector<std::string> unsupported; std::set<std::string> executed, contracts_used, trusted_used;
  uint64_t paths = 0, infeasible = 0, throws = 0, completed = 0, queries = 0; double solver_s = 0; uint64_t solver_unknown = 0;
  double deadline = 0; unsigned q_timeout_ms = 20000, f_timeout_ms = 1500; uint64_t max_paths = 200000, max_steps = 30000000; uint64_t max_failures = 6;
  std::map<std::string,uint64_t> backend_count;
  bool verbose = false;

  Engine(llvm::Module& m);
  void initGlobals(); void runCtors(const std::set<std::string>& skip);
  void run(llvm::Function* f);
  // internals
  FnInfo* info(llvm::Function* f);
  void loop(State& s); // runs one state to completion
  void step(State& s);
  Val get(State& s, llvm::Value* v); Val constant(State& s, llvm::Constant* c);
  void set(State& s, llvm::Instruction& I, Val v);
  void call(State& s, llvm::CallBase& cb, llvm::Function* f, std::vector<Val>& args);
  void ret(State& s, Val v); bool mergeBranch(State& s, llvm::BranchInst& B, Val c); void jump(State& s, llvm::BasicBlock* to);
  void throwExc(State& s);
  // memory
  uint64_t alloc(State& s, uint64_t size, const std::string& name, bool heap = false);
  Obj& robj(State& s, uint64_t addr, uint64_t n, const char* what); Obj& wobj(State& s, uint64_t addr, uint64_t n, const char* what);
  Val loadT(State& s, uint64_t a, llvm::Type* t); void storeT(State& s, uint64_t a, const Val& v, llvm::Type* t);
  Val load(State& s, uint64_t a, unsigned bytes, bool fp, unsigned bits); void store(State& s, uint64_t a, const Val& v, unsigned bytes);
  void memcopy(State& s, uint64_t d, uint64_t src, uint64_t n); std::string cstr(State& s, uint64_t a);
  void storeConst(State& s, uint64_t a, llvm::Constant* c);
  uint64_t concretize(State& s, const Val& v);
  // logic
  z3::expr boolOf(const Val& v); z3::expr bv(const Val& v); z3::expr re(const Val& v); z3::expr zi(const Val& v);
  bool decide(State& s, const z3::expr& cond); void assume(State& s, const z3::expr& c);
  void oblige(State& s, const z3::expr& c, const std::string& label, const std::string& detail = "");
  int solve(State& s, const std::vector<z3::expr>& extra, unsigned tmo, bool cegar, std::optional<z3::model>* out, std::string* backend);
  // fp
  Val fpop(State& s, char op, Val a, Val b, int rnd, int fmt, Val* c3 = nullptr);
  Val round(State& s, const z3::expr& e, int rnd, int fmt); bool isRep(State& s, int x, int fmt); void addRep(State& s, int x, int fmt);
  Val fcmp(State& s, unsigned pred, Val a, Val b); int rmode(State& s); Val exactdiv(State& s, const z3::expr& a, const z3::expr& b);
  Val tfun(State& s, const std::string& fn, const z3::expr& a);
  Val freshReal(State& s, const std::string& n); Val norm(const z3::expr& e);
  void addHandlers(); void addMP(); int fcount = 0; std::string fresh(const std::string& p) { return p + "!" + std::to_string(fcount++); }
  Val binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned bits); Val icmp(State& s, unsigned pred, const Val& a, const Val& b);
  Val doCast(State& s, llvm::CastInst& I);
  Handler* handlerFor(llvm::Function* f);
};
z3::expr bvU(const z3::expr&); z3::expr bvS(const z3::expr&); // integer value of a bit vector
double now();
std::string numeral(const z3::expr& e, bool& ok);
bool exprToMpq(const z3::expr& e, mpq_t q);
z3::expr mpqToReal(mpq_srcptr q); z3::expr dblToReal(double d);
std::string demangle(const std::string& s);
