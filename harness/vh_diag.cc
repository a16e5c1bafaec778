#include "vh_common.h"
#include "helpers/rational.h"
#include "helpers/orbital_space.h"
#include "diagrams/contraction.h"
#include "diagrams/graph_matrix.h"
#include "diagrams/operator.h"
#include "diagrams/operator_expression.h"
#include "diagrams/operator_product.h"

using rs = std::pair<std::string, std::string>;
using gm = std::vector<std::pair<int, int>>;           // (cre, ann) per space
using op_t = std::pair<std::string, gm>;
static rational mk(const rs &r) { return rational(rational_t(r.first), rational_t(r.second)); }
static rs out(const rational &r) {
  std::ostringstream a, b;
  a << r.numerator();
  b << r.denominator();
  return {a.str(), b.str()};
}
static GraphMatrix G(const gm &g) {
  std::vector<int> c, a;
  for (auto &p : g) { c.push_back(p.first); a.push_back(p.second); }
  return GraphMatrix(c, a);
}
static gm g_out(const GraphMatrix &g) {
  gm r;
  for (int s = 0; s < orbital_subspaces->num_spaces(); s++) r.push_back({g.cre(s), g.ann(s)});
  return r;
}
static Operator O(const op_t &o) { return Operator(o.first, G(o.second)); }
static op_t o_out(const Operator &o) { return {o.label(), g_out(o.graph_matrix())}; }
static OperatorProduct PR(const std::vector<op_t> &v) {
  std::vector<Operator> r;
  for (auto &o : v) r.push_back(O(o));
  return OperatorProduct(r);
}
static std::vector<op_t> p_out(const OperatorProduct &p) {
  std::vector<op_t> r;
  for (auto &o : p) r.push_back(o_out(o));
  return r;
}

PYBIND11_MODULE(vh_diag, m) {
  m.def("terms", [](const OperatorExpression &e) {
    std::vector<std::pair<std::vector<op_t>, rs>> r;
    for (auto &[p, c] : e.terms()) r.push_back({p_out(p), out(c)});
    return r;
  });
  m.def("expr", [](const std::vector<std::pair<std::vector<op_t>, rs>> &v) {
    OperatorExpression e;
    for (auto &[p, c] : v) e.add(PR(p), mk(c));
    return e;
  });
  m.def("scale", [](OperatorExpression e, const rs &c) { e *= mk(c); return e; });
  m.def("neg", [](const OperatorExpression &e) { return -e; });
  m.def("div", [](OperatorExpression e, const rs &c) { e /= mk(c); return e; });
  m.def("muleq", [](OperatorExpression e, const OperatorExpression &f) { e *= f; return e; });
  m.def("mul", [](const OperatorExpression &e, const OperatorExpression &f) { return e * f; });
  m.def("plus", [](const OperatorExpression &e, const OperatorExpression &f) { return e + f; });
  m.def("minus", [](const OperatorExpression &e, const OperatorExpression &f) { return e - f; });
  m.def("add2", [](OperatorExpression e, const OperatorExpression &f, const rs &c) { e.add2(f, mk(c)); return e; });
  m.def("ctor", [](const std::vector<std::vector<op_t>> &v, const rs &c) {
    std::vector<OperatorProduct> w;
    for (auto &p : v) w.push_back(PR(p));
    return OperatorExpression(w, mk(c));
  });
  m.def("dot", [](const OperatorExpression &e, const OperatorExpression &f) { return out(e.dot(f)); });
  m.def("norm", [](const OperatorExpression &e) { return e.norm(); });
  m.def("commutator", [](const OperatorExpression &a, const OperatorExpression &b) { return commutator(a, b); });
  m.def("gm_lt", [](const gm &a, const gm &b) { return G(a) < G(b); });
  m.def("gm_eq", [](const gm &a, const gm &b) { return G(a) == G(b); });
  m.def("gm_ne", [](const gm &a, const gm &b) { return G(a) != G(b); });
  m.def("gm_num_ops", [](const gm &a) { return G(a).num_ops(); });
  m.def("gm_add", [](const gm &a, const gm &b) { auto x = G(a); x += G(b); return g_out(x); });
  m.def("gm_sub", [](const gm &a, const gm &b) { auto x = G(a); x -= G(b); return g_out(x); });
  m.def("gm_adjoint", [](const gm &a) { return g_out(G(a).adjoint()); });
  m.def("op_lt", [](const op_t &a, const op_t &b) { return O(a) < O(b); });
  m.def("op_eq", [](const op_t &a, const op_t &b) { return O(a) == O(b); });
  m.def("op_ne", [](const op_t &a, const op_t &b) { return O(a) != O(b); });
  m.def("op_adjoint", [](const op_t &a) { return o_out(O(a).adjoint()); });
  m.def("op_factor", [](const op_t &a) { return out(O(a).factor()); });
  m.def("prod_lt", [](const std::vector<op_t> &a, const std::vector<op_t> &b) { return PR(a) < PR(b); });
  m.def("prod_eq", [](const std::vector<op_t> &a, const std::vector<op_t> &b) { return PR(a) == PR(b); });
  m.def("prod_adjoint", [](const std::vector<op_t> &a) { return p_out(PR(a).adjoint()); });
  m.def("prod_canonicalize", [](const std::vector<op_t> &a) {
    auto p = PR(a);
    rational s = p.canonicalize();
    return std::make_pair(out(s), p_out(p));
  });
  m.def("do_operators_commute", [](const op_t &a, const op_t &b) { return do_operators_commute(O(a), O(b)); });
  m.def("operator_noncommuting_less", [](const op_t &a, const op_t &b) { return operator_noncommuting_less(O(a), O(b)); });
}
