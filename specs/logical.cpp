// VP-PROPERTY: L01
// VP-SOURCES: source/numeric/logical.cpp source/numeric/integer.cpp source/numeric/dyadic.cpp source/numeric/rational.cpp source/numeric/decimal.cpp source/numeric/floatdp.cpp source/numeric/floatmp.cpp source/numeric/double.cpp
// VP-BOUND: conjunctions and disjunctions of sequences, and nondeterministic choices, are checked for efforts and sequence positions up to 4
#include "aspec.hpp"
#include "numeric/logical.hpp"
#include "numeric/sequence.hpp"
#include "utility/array.hpp"
using namespace vp; using namespace Ariadne;
// every logical value (the domain is finite: the case split is exhaustive) and every truth it is consistent with
static LogicalValue any_value(const char* n) { return static_cast<LogicalValue>(vp_choice(n, -2, 2)); }
static bool is(LogicalValue v, LogicalValue w) { return static_cast<int>(v) == static_cast<int>(w); }
static bool any_truth(const char* n) { return vp_choice(n, 0, 1) != 0; }
template<class L> bool consistent_with(L const& l, bool t) { return (!definitely(l) || t) && (possibly(l) || !t); }
template<class L> static void binary_spec() {
  L a(any_value("a")), b(any_value("b")); bool s = any_truth("s"), t = any_truth("t"); require(consistent_with(a, s) && consistent_with(b, t));
  ensure(consistent_with(a && b, s && t), "conjunction is sound"); ensure(consistent_with(a || b, s || t), "disjunction is sound"); ensure(consistent_with(!a, !s), "negation is sound"); ensure(consistent_with(a ^ b, s != t), "exclusive or is sound"); ensure(consistent_with(a == b, s == t), "equality is sound"); ensure(consistent_with(a != b, s != t), "inequality is sound");
  ensure(!definitely(a) || decide(a), "definite implies decided"); ensure(!decide(a) || possibly(a), "decided implies possible"); ensure(decide(a) == probably(a), "probable is decided"); ensure(is_determinate(a) == (definitely(a) || !possibly(a)), "determinate"); ensure(is_indeterminate(a) == !is_determinate(a), "indeterminate");
  ensure(definitely(a && b) == (definitely(a) && definitely(b)), "conjunction verified exactly when both are"); ensure(definitely(a || b) == (definitely(a) || definitely(b)), "disjunction verified exactly when one is"); ensure(possibly(a && b) == (possibly(a) && possibly(b)), "conjunction refuted exactly when one is"); ensure(possibly(a || b) == (possibly(a) || possibly(b)), "disjunction refuted exactly when both are");
  ensure(definitely(!a) == !possibly(a), "negation verified exactly when refuted"); ensure(decide(a && b) == (decide(a) && decide(b)), "decision of conjunction"); ensure(decide(a || b) == (decide(a) || decide(b)), "decision of disjunction"); vp_cover("end"); }
SPEC(logic_kleenean) { binary_spec<ValidatedKleenean>(); }
// one-sided kinds: negation swaps the kinds, exclusive or stays within
template<class L, class N> static void onesided_spec(bool lower) {
  L a(any_value("a")), b(any_value("b")); bool s = any_truth("s"), t = any_truth("t"); require(consistent_with(a, s) && consistent_with(b, t));
  ensure(consistent_with(a && b, s && t), "conjunction is sound"); ensure(consistent_with(a || b, s || t), "disjunction is sound"); N n = !a; ensure(consistent_with(n, !s), "negation is sound");
  if (lower) ensure(possibly(a), "a verifiable predicate is never refuted"); else ensure(!definitely(a), "a falsifiable predicate is never verified");
  ensure(definitely(a && b) == (definitely(a) && definitely(b)), "conjunction verified exactly when both are"); ensure(definitely(a || b) == (definitely(a) || definitely(b)), "disjunction verified exactly when one is"); ensure(possibly(a && b) == (possibly(a) && possibly(b)), "conjunction refuted exactly when one is"); ensure(possibly(a || b) == (possibly(a) || possibly(b)), "disjunction refuted exactly when both are"); ensure(definitely(n) == !possibly(a), "negation verified exactly when refuted"); ensure(possibly(n) == !definitely(a), "negation refuted exactly when verified"); L c = L(static_cast<LogicalValue>(!n)); ensure(definitely(c) == definitely(a) && possibly(c) == possibly(a), "double negation"); vp_cover("end"); }
SPEC(logic_lower) { onesided_spec<ValidatedLowerKleenean, ValidatedUpperKleenean>(true); }
SPEC(logic_upper) { onesided_spec<ValidatedUpperKleenean, ValidatedLowerKleenean>(false); }
SPEC(logic_sierpinskian) { onesided_spec<ValidatedSierpinskian, ValidatedNegatedSierpinskian>(true); }
SPEC(logic_negated) { onesided_spec<ValidatedNegatedSierpinskian, ValidatedSierpinskian>(false); }
SPEC(logic_approximate) { ApproximateKleenean a(any_value("a")), b(any_value("b")); for (auto const& c : {a, b, a && b, a || b, !a, a ^ b, a == b}) { ensure(!definitely(c), "an approximate answer is never definite"); ensure(possibly(c), "an approximate answer is never refuted"); } ensure(decide(a && b) == (decide(a) && decide(b)), "decision of conjunction"); ensure(decide(a || b) == (decide(a) || decide(b)), "decision of disjunction"); vp_cover("end"); }
SPEC(logic_boolean) { bool s = any_truth("s"), t = any_truth("t"); Boolean a(s), b(t); ensure(bool(a) == s, "value"); ensure(bool(a && b) == (s && t), "conjunction"); ensure(bool(a || b) == (s || t), "disjunction"); ensure(bool(!a) == !s, "negation"); ensure(bool(a ^ b) == (s != t), "exclusive or"); ensure(bool(a == b) == (s == t), "equality"); ensure(bool(a && t) == (s && t), "conjunction with built-in"); ensure(bool(s || b) == (s || t), "disjunction with built-in"); ensure(definitely(a) == s && possibly(a) == s && decide(a) == s && is_determinate(a), "decided"); vp_cover("end"); }
SPEC(logic_convert) { LogicalValue v = any_value("v"); bool t = any_truth("t"); ValidatedKleenean k(v); require(consistent_with(k, t)); ensure(consistent_with(ValidatedLowerKleenean(k), t), "to lower"); ensure(consistent_with(ValidatedUpperKleenean(k), t), "to upper"); ensure(consistent_with(ApproximateKleenean(k), t), "to approximate"); ensure(definitely(ValidatedLowerKleenean(k)) == definitely(k), "lower keeps verification"); ensure(possibly(ValidatedUpperKleenean(k)) == possibly(k), "upper keeps refutation"); ensure(decide(ApproximateKleenean(k)) == decide(k), "approximate keeps the decision");
  ValidatedSierpinskian s(v); ValidatedNegatedSierpinskian n(v); ensure(definitely(ValidatedKleenean(s)) == definitely(s) && possibly(ValidatedKleenean(s)), "from Sierpinskian"); ensure(possibly(ValidatedKleenean(n)) == possibly(n) && !definitely(ValidatedKleenean(n)), "from negated Sierpinskian"); ensure(definitely(ValidatedLowerKleenean(s)) == definitely(s), "Sierpinskian to lower"); ensure(possibly(ValidatedUpperKleenean(n)) == possibly(n), "negated Sierpinskian to upper");
  ensure(definitely(ValidatedKleenean(t)) == t && possibly(ValidatedKleenean(t)) == t, "from truth"); ensure(definitely(ValidatedLowerKleenean(t)) == t, "truth to lower"); ensure(possibly(ValidatedUpperKleenean(t)) == t, "truth to upper"); ensure(definitely(ValidatedSierpinskian(t)) == t, "truth to Sierpinskian"); ensure(possibly(ValidatedNegatedSierpinskian(t)) == t, "truth to negated Sierpinskian"); ValidatedKleenean i = indeterminate; ensure(!definitely(i) && possibly(i) && !is_determinate(i), "indeterminate"); vp_cover("end"); }
// a predicate decided from a certain effort on
struct Predicate : LogicalInterface { LogicalValue v; Nat from; Predicate(LogicalValue w, Nat f) : v(w), from(f) {} LogicalInterface* _copy() const { return new Predicate(*this); } LogicalValue _check(Effort e) const { return e.work() >= from ? v : LogicalValue::INDETERMINATE; } OutputStream& _write(OutputStream& os) const { return os; } };
static LogicalHandle predicate(LogicalValue v, Nat f) { return LogicalHandle(std::shared_ptr<LogicalInterface>(new Predicate(v, f))); }
static LogicalValue seen(LogicalValue v, Nat f, Nat e) { return e >= f ? v : LogicalValue::INDETERMINATE; }
SPEC(logic_effective) { LogicalValue v = any_value("v"), w = any_value("w"); Nat f = (Nat)vp_choice("f", 0, 2), g = (Nat)vp_choice("g", 0, 2), e = (Nat)vp_choice("e", 0, 2); Effort eff(e); Kleenean a(predicate(v, f)), b(predicate(w, g)); ValidatedKleenean x(seen(v, f, e)), y(seen(w, g, e));
  auto eqv = [](ValidatedKleenean p, ValidatedKleenean q) { return static_cast<int>(p.repr()) == static_cast<int>(q.repr()); };
  ensure(eqv(a.check(eff), x), "check"); ensure(eqv((a && b).check(eff), x && y), "effective conjunction"); ensure(eqv((a || b).check(eff), x || y), "effective disjunction"); ensure(eqv((!a).check(eff), !x), "effective negation"); ensure(eqv((a ^ b).check(eff), x ^ y), "effective exclusive or"); ensure(eqv((a == b).check(eff), x == y), "effective equality"); ensure(definitely(a, eff) == definitely(x) && possibly(a, eff) == possibly(x) && decide(a, eff) == decide(x), "decisions with effort"); vp_cover("end"); }
SPEC(logic_effective_onesided) { LogicalValue v = any_value("v"), w = any_value("w"); Nat f = (Nat)vp_choice("f", 0, 1), e = (Nat)vp_choice("e", 0, 1); Effort eff(e); LowerKleenean a(predicate(v, f)), b(predicate(w, 0)); UpperKleenean c(predicate(v, f)), d(predicate(w, 0)); bool va = definitely(ValidatedKleenean(seen(v, f, e))), vb = is(w, LogicalValue::TRUE), pa = possibly(ValidatedKleenean(seen(v, f, e))), pb = !is(w, LogicalValue::FALSE);
  ensure(definitely((a && b).check(eff)) == (va && vb), "lower conjunction"); ensure(definitely((a || b).check(eff)) == (va || vb), "lower disjunction"); ensure(possibly((a && b).check(eff)), "lower is never refuted"); ensure(possibly((c && d).check(eff)) == (pa && pb), "upper conjunction"); ensure(possibly((c || d).check(eff)) == (pa || pb), "upper disjunction"); ensure(!definitely((c || d).check(eff)), "upper is never verified"); ensure(possibly((!a).check(eff)) == !va, "negated lower"); ensure(definitely((!c).check(eff)) == !pa, "negated upper"); Kleenean k(predicate(v, f)); ensure(definitely(LowerKleenean(k).check(eff)) == va, "Kleenean to lower"); ensure(possibly(UpperKleenean(k).check(eff)) == pa, "Kleenean to upper"); vp_cover("end"); }
SPEC(logic_sequence) { Nat at = (Nat)vp_choice("at", 0, 4), from = (Nat)vp_choice("from", 0, 4), e = (Nat)vp_choice("e", 0, 4); LogicalValue v = any_value("v"); Sequence<LowerKleenean> ls([&](Natural n) { return LowerKleenean(predicate(n == at ? v : LogicalValue::UNLIKELY, from)); }); bool r = definitely(disjunction(ls).check(Effort(e))); ensure(!r || is(v, LogicalValue::TRUE), "sequence disjunction is sound"); ensure(r == (is(v, LogicalValue::TRUE) && at < e && from <= e), "sequence disjunction examines every position below the effort");
  Sequence<UpperKleenean> us([&](Natural n) { return UpperKleenean(predicate(n == at ? v : LogicalValue::LIKELY, from)); }); bool q = !possibly(conjunction(us).check(Effort(e))); ensure(q == (is(v, LogicalValue::FALSE) && at < e && from <= e), "sequence conjunction refuted exactly by a refuted term below the effort"); vp_cover("end"); }
SPEC(logic_choose) { Nat f = (Nat)vp_choice("f", 0, 3), g = (Nat)vp_choice("g", 0, 3); bool s = any_truth("s"), t = any_truth("t"); require(s || t); LowerKleenean p(predicate(s ? LogicalValue::TRUE : LogicalValue::INDETERMINATE, f)), q(predicate(t ? LogicalValue::TRUE : LogicalValue::INDETERMINATE, g)); bool r = choose(p, q); ensure(r ? s : t, "choice picks a true alternative"); Array<LowerKleenean> ps(3, LowerKleenean(indeterminate)); ps[1] = p; ps[2] = q; SizeType i = nondeterministic_choose_index(ps); ensure((i == 1 && s) || (i == 2 && t), "chosen index is true"); vp_cover("end"); }
