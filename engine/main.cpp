#include "engine.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char** argv) {
  std::string bc, outdir = "."; std::vector<std::string> names; double tmo = 120; unsigned jobs = 8, qt = 20000; bool verbose = false; bool list = false; std::string pat;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") outdir = argv[++i]; else if (a == "-t") tmo = atof(argv[++i]); else if (a == "-q") qt = atoi(argv[++i]); else if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-v") verbose = true; else if (a == "--list") list = true; else if (a == "-s") names.push_back(argv[++i]); else if (a == "-p") pat = argv[++i]; else bc = a; }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(bc, err, ctx); if (!M) { err.print("vpverify", errs()); return 2; }
  std::vector<Function*> specs; for (auto& f : *M) { StringRef n = f.getName(); if (n.starts_with("vpspec_") && !f.isDeclaration()) { if (names.empty() ? (pat.empty() || n.str().find(pat) != std::string::npos) : std::find(names.begin(), names.end(), n.str().substr(7)) != names.end()) specs.push_back(&f); } }
  if (list) { for (auto* f : specs) std::cout << f->getName().str().substr(7) << "\n"; return 0; }
  Engine base(*M); base.verbose = verbose; base.deadline = now() + 600;
  // contract substitutions: functions named vpcontract_<k>  with annotation string global vpcontract_target_<k>
  for (auto& f : *M) if (f.getName().starts_with("vpcontract_") && !f.isDeclaration()) { std::string k = f.getName().str().substr(11); auto* g = M->getGlobalVariable("vptarget_" + k, true); if (!g) continue; auto* c = dyn_cast<ConstantDataArray>(g->getInitializer()); if (!c) continue; std::string t = c->isCString() ? c->getAsCString().str() : c->getAsString().str(); for (auto& h : *M) { if (h.isDeclaration()) continue; if (demangle(h.getName().str()) == t) base.redirect[&h] = &f; } }
  base.initGlobals(); double t0 = now(); base.runCtors({}); if (verbose) std::cerr << "ctors " << now() - t0 << "s\n";
  std::map<pid_t, std::string> running; size_t next = 0; int rcAll = 0;
  auto runOne = [&](Function* f) {
    Engine& E = base; E.obl.clear(); E.failures.clear(); E.unsupported.clear(); E.executed.clear(); E.paths = E.infeasible = E.throws = E.completed = E.queries = 0; E.solver_s = 0; E.q_timeout_ms = qt; E.deadline = now() + tmo; double t = now();
    E.run(f); std::string n = f->getName().str().substr(7); std::ofstream o(outdir + "/" + n + ".json");
    o << "{\"spec\":" << js(n) << ",\"paths\":" << E.paths << ",\"completed\":" << E.completed << ",\"infeasible\":" << E.infeasible << ",\"throws\":" << E.throws << ",\"queries\":" << E.queries << ",\"solver_s\":" << E.solver_s << ",\"wall_s\":" << now() - t;
    o << ",\"obligations\":["; bool first = true; for (auto& p : E.obl) { o << (first ? "" : ",") << "{\"label\":" << js(p.first) << ",\"checked\":" << p.second.checked << ",\"proved\":" << p.second.proved << ",\"failed\":" << p.second.failed << ",\"unknown\":" << p.second.unknown << "}"; first = false; }
    o << "],\"backends\":{"; first = true; for (auto& p : E.backend_count) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
    o << "},\"unsupported\":["; first = true; for (auto& u : E.unsupported) { o << (first ? "" : ",") << js(u); first = false; }
    o << "],\"failures\":["; first = true; for (auto& u : E.failures) { o << (first ? "" : ",") << "{\"label\":" << js(u.label) << ",\"detail\":" << js(u.detail) << ",\"inputs\":["; bool f2 = true; for (auto& i : u.inputs) { o << (f2 ? "" : ",") << "[" << js(i.first) << "," << js(i.second) << "]"; f2 = false; } o << "]}"; first = false; }
    o << "],\"functions\":["; first = true; for (auto& u : E.executed) if (u.find("Ariadne::") != std::string::npos) { o << (first ? "" : ",") << js(u); first = false; }
    o << "],\"trusted\":["; first = true; for (auto& u : E.trusted_used) { o << (first ? "" : ",") << js(u); first = false; }
    o << "],\"contracts_used\":["; first = true; for (auto& u : E.contracts_used) { o << (first ? "" : ",") << js(u); first = false; }
    o << "]}\n"; o.close();
    if (verbose) { std::cerr << n << ": paths " << E.paths << " completed " << E.completed << " throws " << E.throws << " q " << E.queries << " solver " << E.solver_s << " wall " << now() - t << "\n"; for (auto& p : E.obl) std::cerr << "   " << p.first << " checked " << p.second.checked << " proved " << p.second.proved << " failed " << p.second.failed << " unknown " << p.second.unknown << "\n"; { std::set<std::string> us(E.unsupported.begin(), E.unsupported.end()); for (auto& u : us) std::cerr << "   UNSUPPORTED " << u.substr(0, 600) << "\n"; } for (auto& u : E.failures) { std::cerr << "   FAIL " << u.label << " " << u.detail.substr(0, 400); for (auto& i : u.inputs) std::cerr << " " << i.first << "=" << i.second; std::cerr << "\n"; } }
  };
  if (jobs <= 1) { for (auto* f : specs) runOne(f); return 0; }
  while (next < specs.size() || !running.empty()) {
    while (next < specs.size() && running.size() < jobs) { Function* f = specs[next++]; pid_t p = fork(); if (p == 0) { struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ull << 30; setrlimit(RLIMIT_AS, &rl); alarm((unsigned)(tmo * 2 + 60)); try { runOne(f); } catch (std::exception& e) { std::cerr << "exception " << e.what() << "\n"; _exit(3); } catch (z3::exception& e) { std::cerr << "z3 exception " << e.msg() << "\n"; _exit(3); } catch (Unsupported& e) { std::cerr << "unsupported " << e.what << "\n"; _exit(3); } _exit(0); } running[p] = f->getName().str().substr(7); }
    int st; pid_t p = wait(&st); if (p > 0) { if (st != 0) { std::cerr << "spec " << running[p] << " worker status " << st << "\n"; std::ofstream o(outdir + "/" + running[p] + ".json"); o << "{\"spec\":" << js(running[p]) << ",\"crashed\":" << st << ",\"obligations\":[],\"unsupported\":[\"engine worker died\"],\"failures\":[],\"functions\":[],\"paths\":0,\"completed\":0,\"backends\":{},\"trusted\":[],\"contracts_used\":[],\"solver_s\":0,\"wall_s\":0,\"queries\":0}\n"; } running.erase(p); }
  }
  return rcAll;
}
