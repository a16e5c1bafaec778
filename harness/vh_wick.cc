#include "vh_common.h"
#include "helpers/rational.h"
#include "helpers/orbital_space.h"
#include "algebra/expression.h"
#include "diagrams/contraction.h"
#include "diagrams/graph_matrix.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"
#include "diagrams/operator_product.h"
#include "diagrams/wick_theorem.h"

using rs = std::pair<std::string, std::string>;
using gm = std::vector<std::pair<int, int>>;
using op_t = std::pair<std::string, gm>;
static rs out(const rational &r) {
  std::ostringstream a, b;
  a << r.numerator();
  b << r.denominator();
  return {a.str(), b.str()};
}
static GraphMatrix G(const gm &g) {
  std::vector<int> c, a;
  for (auto &p : g) { c.push_back(p.first); a.push_back(p.second); }
  return GraphMatrix(c, a);
}
static gm g_out(const GraphMatrix &g) {
  gm r;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r.push_back({g.cre(s), g.ann(s)});
  return r;
}
static OperatorProduct PR(const std::vector<op_t> &v) {
  std::vector<Operator> r;
  for (auto &o : v) r.push_back(Operator(o.first, G(o.second)));
  return OperatorProduct(r);
}

PYBIND11_MODULE(vh_wick, m) {
  m.def("elementary", [](const std::vector<op_t> &p, int maxcum) {
    WickTheorem w;
    w.set_max_cumulant(maxcum);
    std::vector<std::vector<gm>> r;
    for (auto &e : w.generate_elementary_contractions(PR(p))) {
      std::vector<gm> x;
      for (auto &g : e) x.push_back(g_out(g));
      r.push_back(x);
    }
    return r;
  });
  m.def("composite", [](const std::vector<op_t> &p, int maxcum, int minrank, int maxrank) {
    WickTheorem w;
    w.set_max_cumulant(maxcum);
    auto P = PR(p);
    w.elementary_contractions_ = w.generate_elementary_contractions(P);
    w.generate_composite_contractions(P, minrank, maxrank);
    return w.contractions_;
  });
  m.def("combinatorial_factor", [](const std::vector<op_t> &p, const std::vector<std::vector<gm>> &c) {
    WickTheorem w;
    CompositeContraction cc;
    for (auto &e : c) {
      std::vector<GraphMatrix> v;
      for (auto &g : e) v.push_back(G(g));
      cc.push_back(ElementaryContraction(v));
    }
    return out(w.combinatorial_factor(PR(p), cc));
  });
  m.def("contract_product", [](WickTheorem &w, const rs &f, const std::vector<op_t> &p, int minrank, int maxrank) {
    return w.contract(rational(rational_t(f.first), rational_t(f.second)), PR(p), minrank, maxrank);
  });
  m.def("contract_expr", [](WickTheorem &w, const rs &f, const OperatorExpression &p, int minrank, int maxrank) {
    return w.contract(rational(rational_t(f.first), rational_t(f.second)), p, minrank, maxrank);
  });
}
