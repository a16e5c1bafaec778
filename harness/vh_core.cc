#include "vh_common.h"
#include "helpers/combinatorics.h"
#include "helpers/orbital_space.h"
#include "helpers/rational.h"
#include "algebra/expression.h"
#include "algebra/index.h"
#include "algebra/sqoperator.h"
#include "algebra/tensor.h"
#include "algebra/term.h"

static rational mk(const std::string &n, const std::string &d) { return rational(rational_t(n), rational_t(d)); }
using rs = std::pair<std::string, std::string>;
static rs out(const rational &r) {
  std::ostringstream a, b;
  a << r.numerator_;
  b << r.denominator_;
  return {a.str(), b.str()};
}

PYBIND11_MODULE(vh_core, m) {
  m.def("rat", [](const rs &a) { return out(mk(a.first, a.second)); });
  m.def("rat_int", [](int n) { return out(rational(n)); });
  m.def("rat_big", [](const std::string &n) { return out(rational(rational_t(n))); });
  m.def("rat_op", [](const std::string &op, const rs &x, const rs &y) {
    rational a = mk(x.first, x.second), b = mk(y.first, y.second);
    if (op == "+") return out(a + b);
    if (op == "-") return out(a - b);
    if (op == "*") return out(a * b);
    if (op == "/") return out(a / b);
    if (op == "+=") { a += b; return out(a); }
    if (op == "-=") { a -= b; return out(a); }
    if (op == "*=") { a *= b; return out(a); }
    if (op == "/=") { a /= b; return out(a); }
    if (op == "a+=a") { a += a; return out(a); }
    if (op == "a-=a") { a -= a; return out(a); }
    if (op == "a*=a") { a *= a; return out(a); }
    if (op == "a/=a") { a /= a; return out(a); }
    if (op == "u-") return out(-a);
    if (op == "u+") return out(+a);
    throw std::runtime_error("op");
  });
  m.def("rat_eq", [](const rs &x, const rs &y) { return mk(x.first, x.second) == mk(y.first, y.second); });
  m.def("rat_ne", [](const rs &x, const rs &y) { return mk(x.first, x.second) != mk(y.first, y.second); });
  m.def("factorial", &factorial);
  m.def("binomial", &binomial);
  m.def("permutation_sign", &permutation_sign);
  m.def("integer_partitions", [](int n, int k) { return integer_partitions(n, k); });
  m.def("integer_partitions1", [](int n) { return integer_partitions(n); });
  m.def("canonicalize_indices", [](std::vector<Index> v, bool rev) {
    rational s = canonicalize_indices(v, rev);
    return std::make_pair(out(s), v);
  });
  m.def("canonicalize_sqops", [](const std::vector<SQOperator> &v, bool rev) {
    Product<SQOperator> p(v);
    rational s = canonicalize_sqops(p, rev);
    return std::make_pair(out(s), p.vec());
  });
  m.def("tensor_canonicalize", [](Tensor t) {
    rational s = t.canonicalize();
    return std::make_pair(out(s), t);
  });
  m.def("tensor_adjoint", [](const Tensor &t) { return t.adjoint(); });
  m.def("tensor_cc", [](const Tensor &t) { return t.is_complex_conjugate(); });
  m.def("tensor_lt", [](const Tensor &a, const Tensor &b) { return a < b; });
  m.def("tensor_eq", [](const Tensor &a, const Tensor &b) { return a == b; });
  m.def("tensor_symmetry_factor", [](const Tensor &a) { return a.symmetry_factor(); });
  m.def("tensor_signature", [](const Tensor &a) { return a.signature(); });
  m.def("tensor_reindex", [](Tensor t, const std::vector<std::pair<Index, Index>> &mp) {
    index_map_t im;
    for (auto &[a, b] : mp) im[a] = b;
    t.reindex(im);
    return t;
  });
  m.def("symmetry_factor", [](const std::vector<Index> &v) { return symmetry_factor(v); });
  m.def("num_indices_per_space", [](const std::vector<Index> &v) { return num_indices_per_space(v); });
  m.def("sqop_adjoint", [](const SQOperator &o) { return o.adjoint(); });
  m.def("commutator_factor", [](const SQOperator &a, const SQOperator &b) { return out(a.commutator_factor(b)); });
  m.def("sqop_is_qp_creation", [](const SQOperator &a) { return a.is_quasiparticle_creation(); });
  m.def("index_lt", [](const Index &a, const Index &b) { return a < b; });
  m.def("index_eq", [](const Index &a, const Index &b) { return a == b; });
  m.def("term_lt", [](const SymbolicTerm &a, const SymbolicTerm &b) { return a < b; });
  m.def("term_eq", [](const SymbolicTerm &a, const SymbolicTerm &b) { return a == b; });
  m.def("term_normal", [](const SymbolicTerm &a) { return a.normal_ordered(); });
  m.def("term_canonicalize", [](SymbolicTerm a) {
    rational s = a.canonicalize();
    return std::make_pair(out(s), a);
  });
  m.def("term_adjoint", [](const SymbolicTerm &a) { return a.adjoint(); });
  m.def("term_mul", [](const SymbolicTerm &a, const SymbolicTerm &b) { return a * b; });
  m.def("term_is_vacuum_normal_ordered", [](const SymbolicTerm &a) { return a.is_vacuum_normal_ordered(); });
  m.def("term_reindex", [](SymbolicTerm t, const std::vector<std::pair<Index, Index>> &mp) {
    index_map_t im;
    for (auto &[a, b] : mp) im[a] = b;
    t.reindex(im);
    return t;
  });
  m.def("term_vno", [](const SymbolicTerm &t, bool same) {
    std::vector<std::pair<SymbolicTerm, rs>> r;
    for (auto &[x, c] : t.vacuum_normal_order(same)) r.push_back({x, out(c)});
    return r;
  });
  m.def("expr_reindex", [](Expression e, const std::vector<std::pair<Index, Index>> &mp) {
    index_map_t im;
    for (auto &[a, b] : mp) im[a] = b;
    e.reindex(im);
    return e;
  });
  m.def("expr_terms", [](const Expression &e) {
    std::vector<std::pair<SymbolicTerm, rs>> r;
    for (auto &[x, c] : e.terms()) r.push_back({x, out(c)});
    return r;
  });
  m.def("expr_add", [](Expression e, const SymbolicTerm &t, const rs &c) { e.add(t, mk(c.first, c.second)); return e; });
  m.def("expr_scale", [](Expression e, const rs &c) { e *= mk(c.first, c.second); return e; });
  m.def("expr_div", [](Expression e, const rs &c) { e /= mk(c.first, c.second); return e; });
  m.def("expr_contains", [](const Expression &e, const SymbolicTerm &t) { return e.contains(t); });
  m.def("expr_is_equal", [](const Expression &a, const Expression &b) { return a.is_equal(b); });
  m.def("osi_state", [](const OrbitalSpaceInfo &o) {
    std::vector<std::tuple<char, int, int, std::vector<std::string>, std::vector<int>>> v;
    for (auto &s : o.space_info_)
      v.push_back({s.label(), (int)s.field_type(), (int)s.space_type(), s.indices(), s.elementary_spaces()});
    return v;
  });
  m.def("osi_maps", [](const OrbitalSpaceInfo &o) { return std::make_pair(o.label_to_pos_, o.indices_to_pos_); });
  m.def("osi_label_to_space", [](const OrbitalSpaceInfo &o, char l) { return o.label_to_space(l); });
  m.def("osi_add", [](OrbitalSpaceInfo &o, char l, int f, int s, const std::vector<std::string> &i, const std::vector<char> &e) {
    o.add_space(l, (FieldType)f, (SpaceType)s, i, e);
  });
}
