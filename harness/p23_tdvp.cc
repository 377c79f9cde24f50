// P23: two-site time evolution against exact diagonalization, its invariants, and the correlations it reports.
#include "tdvp.h"
template<typename QNT> void Case(size_t c, Rng &r, Mon &m) {
  TdvpCase<QNT>(c, r, m, [](Rng &, Mon &, FiniteMPS<cd, QNT> &w, SweepProblem<cd, QNT> &p, const std::string &, auto params) {
    TdvpRun<QNT> o; CoutCapture cc; auto par = params((TDVPEvolveParams<QNT> *) nullptr); o.res = TwoSiteFiniteTDVP(w, p.mpo, par, std::string("corr")); o.out = cc.str(); return o; });
}
int main(int argc, char **argv) {
  QuietCout q;
  return vmon::run(argc, argv, "p23", [](size_t c, Rng &r, Mon &m) {
    switch (c % 3) { case 0: Case<special_qn::U1QN>(c, r, m); break; case 1: Case<special_qn::U1U1QN>(c, r, m); break; default: Case<special_qn::TrivialRepQN>(c, r, m); } });
}
