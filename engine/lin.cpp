// Incremental linearisation: refutes a set of polynomial constraints by linear arithmetic plus
// lazily added, universally valid lemmas about products. Only "unsatisfiable" answers are used.
#include "engine.hpp"
#include <chrono>
#include <algorithm>
using z3::expr;
namespace {
struct Q { mpq_t q; Q() { mpq_init(q); } Q(const Q& o) { mpq_init(q); mpq_set(q, o.q); } Q& operator=(const Q& o) { mpq_set(q, o.q); return *this; } ~Q() { mpq_clear(q); } int sgn() const { return mpq_sgn(q); } };
Q mulq(const Q& a, const Q& b) { Q r; mpq_mul(r.q, a.q, b.q); return r; }
int cmpq(const Q& a, const Q& b) { return mpq_cmp(a.q, b.q); }
Q absq(const Q& a) { Q r; mpq_abs(r.q, a.q); return r; }
Q negq(const Q& a) { Q r; mpq_neg(r.q, a.q); return r; }
struct Dec { int a, b; };
struct Lin {
  std::vector<expr> vars; std::map<unsigned, int> varOf; std::map<std::vector<int>, int> mono; std::vector<std::vector<int>> fac; // factors per var (size 1 for atoms)
  std::vector<std::vector<Dec>> decs; std::vector<expr> defs; std::unordered_map<unsigned, int> cache; std::vector<expr> keep; bool bad = false; z3::params sp;
  Lin() : sp(C) { sp.set("som", true); sp.set("hoist_ite", false); sp.set("arith_lhs", false); }
  int newVar(const char* n) { static int k = 0; expr v = C.real_const((std::string(n) + "?" + std::to_string(k++)).c_str()); vars.push_back(v); fac.push_back({}); decs.push_back({}); return (int)vars.size() - 1; }
  int atom(const expr& e) { // variable standing for e
    unsigned id = Z3_get_ast_id(C, e); auto it = varOf.find(id); if (it != varOf.end()) return it->second;
    keep.push_back(e); int v;
    if (e.is_app() && e.num_args() == 0) { vars.push_back(e); fac.push_back({}); decs.push_back({}); v = (int)vars.size() - 1; }
    else { v = newVar("at"); expr d = lin(e); defs.push_back(vars[v] == d); }
    fac[v] = {v}; varOf[id] = v; return v;
  }
  int monomial(std::vector<int> f) {
    std::sort(f.begin(), f.end()); if (f.size() == 1) return f[0];
    auto it = mono.find(f); if (it != mono.end()) return it->second;
    int v = newVar("mo"); fac[v] = f; mono[f] = v;
    std::vector<int> l(f.begin(), f.begin() + f.size() / 2), r(f.begin() + f.size() / 2, f.end());
    bool even = true; for (size_t i = 0; i + 1 < f.size(); i += 2) even &= f[i] == f[i + 1]; if (f.size() % 2) even = false;
    if (even && f.size() > 2) { l.clear(); for (size_t i = 0; i < f.size(); i += 2) l.push_back(f[i]); r = l; }
    int a = monomial(l), b = monomial(r); decs[v].push_back({a, b}); return v;
  }
  void crossDecs() { // decompositions into existing monomials
    std::vector<std::pair<std::vector<int>, int>> ms(mono.begin(), mono.end());
    for (auto& m : ms) if (m.first.size() > 2) for (auto& n : ms) if (n.first.size() < m.first.size()) {
      std::vector<int> d; std::set_difference(m.first.begin(), m.first.end(), n.first.begin(), n.first.end(), std::back_inserter(d));
      if (d.size() + n.first.size() != m.first.size()) continue; int o = -1; if (d.size() == 1) o = d[0]; else { auto it = mono.find(d); if (it != mono.end()) o = it->second; }
      if (o >= 0 && decs[m.second].size() < 8) decs[m.second].push_back({n.second, o});
    }
  }
  expr lin(const expr& e) {
    unsigned id = Z3_get_ast_id(C, e); auto it = cache.find(id); if (it != cache.end()) return keep[it->second];
    expr r = lin1(e); keep.push_back(e); keep.push_back(r); cache[id] = (int)keep.size() - 1; return r;
  }
  void factors(const expr& e, std::vector<int>& f, expr& coef) {
    if (e.is_numeral()) { coef = coef * e; return; }
    if (e.is_app()) { auto k = e.decl().decl_kind();
      if (k == Z3_OP_MUL) { for (unsigned i = 0; i < e.num_args(); i++) factors(e.arg(i), f, coef); return; }
      if (k == Z3_OP_UMINUS) { coef = -coef; factors(e.arg(0), f, coef); return; }
      if (k == Z3_OP_POWER && e.arg(1).is_numeral()) { std::string n = Z3_get_numeral_string(C, e.arg(1)); int p = atoi(n.c_str()); if (p >= 1 && p <= 40 && n.find('/') == std::string::npos) { for (int i = 0; i < p; i++) factors(e.arg(0), f, coef); return; } bad = true; return; } }
    f.push_back(atom(e));
  }
  expr lin1(const expr& e) {
    if (!e.is_app()) { bad = true; return e; }
    if (e.num_args() == 0) return e;
    auto k = e.decl().decl_kind();
    if (k == Z3_OP_MUL || k == Z3_OP_POWER) { std::vector<int> f; expr c = C.real_val(1); factors(e, f, c); if (bad) return e; c = c.simplify(); if (f.empty()) return c; return (c * vars[monomial(f)]).simplify(); }
    if (k == Z3_OP_DIV) { if (!e.arg(1).is_numeral()) { bad = true; return e; } return lin(e.arg(0)) / e.arg(1); }
    z3::expr_vector as(C); for (unsigned i = 0; i < e.num_args(); i++) as.push_back(lin(e.arg(i)));
    return e.decl()(as);
  }
};
}
int linAttempt(const std::vector<expr>& as, unsigned ms) {
  double t0 = now(); auto left = [&] { return (int)(ms - (now() - t0) * 1000); };
  Lin L; std::vector<expr> base; 
  for (auto& e : as) { expr x = e.simplify(L.sp); base.push_back(L.lin(x)); if (L.bad) return -1; }
  if (L.mono.empty()) return -1; if (L.mono.size() > 400) return -1; L.crossDecs();
  z3::solver sv(C, "QF_LRA"); for (auto& e : base) sv.add(e); size_t nd = 0; 
  auto A = [](const expr& x) { return z3::ite(x >= 0, x, -x); };
  std::set<std::vector<int>> done;
  for (int round = 0; round < 60; round++) {
    for (; nd < L.defs.size(); nd++) sv.add(L.defs[nd]);
    int t = left(); if (t < 20) return -1; z3::params p(C); p.set("timeout", (unsigned)t); sv.set(p);
    auto r = sv.check(); if (r == z3::unsat) return 0; if (r != z3::sat) return -1;
    z3::model m = sv.get_model(); size_t n = L.vars.size(); std::vector<Q> v(n);
    for (size_t i = 0; i < n; i++) { expr x = m.eval(L.vars[i], true); if (!exprToMpq(x, v[i].q)) return -1; }
    struct MD { int m, a, b; }; std::vector<MD> ds; for (size_t i = 0; i < n; i++) for (auto& d : L.decs[i]) ds.push_back({(int)i, d.a, d.b});
    int added = 0; std::vector<MD> wrong;
    auto add = [&](const expr& e) { sv.add(e); added++; };
    for (auto& d : ds) { Q pr = mulq(v[d.a], v[d.b]); if (cmpq(pr, v[d.m]) == 0) continue; wrong.push_back(d);
      expr M = L.vars[d.m], a = L.vars[d.a], b = L.vars[d.b];
      if (pr.sgn() != v[d.m].sgn()) { if (done.insert({0, d.m, d.a, d.b}).second) { if (d.a == d.b) { add(M >= 0); add((M == 0) == (a == 0)); } else { add((M == 0) == (a == 0 || b == 0)); add((M > 0) == ((a > 0 && b > 0) || (a < 0 && b < 0))); } } }
      Q one; mpq_set_ui(one.q, 1, 1);
      for (int sw = 0; sw < 2; sw++) { int x = sw ? d.b : d.a, y = sw ? d.a : d.b; if (cmpq(absq(v[x]), one) <= 0 && cmpq(absq(v[d.m]), absq(v[y])) > 0) if (done.insert({1, d.m, x, y}).second) add(z3::implies(A(L.vars[x]) <= 1, A(M) <= A(L.vars[y]))); if (cmpq(absq(v[x]), one) >= 0 && cmpq(absq(v[d.m]), absq(v[y])) < 0) if (done.insert({2, d.m, x, y}).second) add(z3::implies(A(L.vars[x]) >= 1, A(M) >= A(L.vars[y]))); if (d.a == d.b) break; }
    }
    if (wrong.empty()) return -1;
    if (round < 45) for (auto& d : wrong) for (auto& e : ds) if (e.m != d.m) for (int sw = 0; sw < 2; sw++) {
      int c = sw ? e.b : e.a, f = sw ? e.a : e.b; if (sw && e.a == e.b) break; if (added > 60) break;
      bool up = cmpq(absq(v[d.a]), absq(v[c])) <= 0 && cmpq(absq(v[d.b]), absq(v[f])) <= 0 && cmpq(absq(v[d.m]), absq(v[e.m])) > 0;
      bool dn = cmpq(absq(v[d.a]), absq(v[c])) >= 0 && cmpq(absq(v[d.b]), absq(v[f])) >= 0 && cmpq(absq(v[d.m]), absq(v[e.m])) < 0;
      expr M = L.vars[d.m], N = L.vars[e.m];
      if (up && done.insert({3, d.m, d.a, d.b, e.m, c, f}).second) add(z3::implies(A(L.vars[d.a]) <= A(L.vars[c]) && A(L.vars[d.b]) <= A(L.vars[f]), A(M) <= A(N)));
      if (dn && done.insert({3, e.m, c, f, d.m, d.a, d.b}).second) add(z3::implies(A(L.vars[c]) <= A(L.vars[d.a]) && A(L.vars[f]) <= A(L.vars[d.b]), A(N) <= A(M)));
      // common factor: order
      int sh = -1, x = -1, y = -1; if (d.a == c) { sh = c; x = d.b; y = f; } else if (d.b == f) { sh = f; x = d.a; y = c; } else if (d.a == f) { sh = f; x = d.b; y = c; } else if (d.b == c) { sh = c; x = d.a; y = f; }
      if (sh >= 0 && x != y) { expr S = L.vars[sh], X1 = L.vars[x], Y1 = L.vars[y];
        for (int ng = 0; ng < 2; ng++) { Q vy = ng ? negq(v[y]) : v[y]; Q vn = ng ? negq(v[e.m]) : v[e.m]; expr Yy = ng ? -Y1 : Y1, Nn = ng ? -N : N; int cs = cmpq(v[x], vy), cm = cmpq(v[d.m], vn), ss = v[sh].sgn();
          if (ss > 0 && cs <= 0 && cm > 0 && done.insert({4, d.m, e.m, sh, ng, 0}).second) add(z3::implies(S >= 0 && X1 <= Yy, M <= Nn));
          if (ss > 0 && cs >= 0 && cm < 0 && done.insert({4, d.m, e.m, sh, ng, 1}).second) add(z3::implies(S >= 0 && X1 >= Yy, M >= Nn));
          if (ss < 0 && cs <= 0 && cm < 0 && done.insert({4, d.m, e.m, sh, ng, 2}).second) add(z3::implies(S <= 0 && X1 <= Yy, M >= Nn));
          if (ss < 0 && cs >= 0 && cm > 0 && done.insert({4, d.m, e.m, sh, ng, 3}).second) add(z3::implies(S <= 0 && X1 >= Yy, M <= Nn)); } }
    }
    if (!added) { int k = 0; for (auto& d : wrong) { if (k++ > 6) break; expr M = L.vars[d.m], a = L.vars[d.a], b = L.vars[d.b], ca = mpqToReal(v[d.a].q), cb = mpqToReal(v[d.b].q); Q pr = mulq(v[d.a], v[d.b]);
      if (d.a == d.b) { if (cmpq(v[d.m], pr) < 0) add(M >= 2 * ca * a - ca * ca); else { /* secant between consecutive integers around ca */ add(z3::implies(A(a) <= A(ca), M <= ca * ca)); } continue; }
      if (cmpq(v[d.m], pr) > 0) add(z3::implies((a <= ca && b >= cb) || (a >= ca && b <= cb), M <= cb * a + ca * b - ca * cb)); else add(z3::implies((a <= ca && b <= cb) || (a >= ca && b >= cb), M >= cb * a + ca * b - ca * cb)); } }
    if (!added) return -1;
  }
  return -1;
}
