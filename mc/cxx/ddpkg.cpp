// Drives the decision-diagram package of the working tree: every operation as one call, operands held in numbered slots,
// results read back by walking the diagram itself (independently of the package's own readers).
#include "dd/MDDPackage.hpp"

#include <complex>
#include <memory>
#include <pybind11/complex.h>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

namespace py = pybind11;
using C = std::complex<double>;
using P = dd::MDDPackage;

static C val(const dd::Complex& c) { return {dd::CTEntry::val(c.real), dd::CTEntry::val(c.img)}; }
static C val(const dd::ComplexValue& c) { return {c.r, c.i}; }

struct Pkg {
  std::unique_ptr<P> p;
  std::vector<std::size_t> sizes;
  std::vector<P::vEdge> v;
  std::vector<P::mEdge> m;

  explicit Pkg(std::vector<std::size_t> s) : p(std::make_unique<P>(s.size(), s)), sizes(std::move(s)) {}

  std::size_t keep(const P::vEdge& e) { v.push_back(e); return v.size() - 1; }
  std::size_t keep(const P::mEdge& e) { m.push_back(e); return m.size() - 1; }

  auto n() const { return static_cast<dd::QuantumRegisterCount>(sizes.size()); }
  std::size_t zero() { return keep(p->makeZeroState(n())); }
  std::size_t basis(const std::vector<std::size_t>& s) { return keep(p->makeBasisState(n(), s)); }
  std::size_t basis_part(std::size_t count, const std::vector<std::size_t>& s, std::size_t start) {
    return keep(p->makeBasisState(static_cast<dd::QuantumRegisterCount>(count), s, start));
  }
  std::size_t zero_vector() { return keep(P::vEdge::zero); }
  std::size_t zero_matrix() { return keep(P::mEdge::zero); }
  std::size_t ident() { return keep(p->makeIdent(n())); }
  std::size_t ident_part(int lo, int hi) {
    return keep(p->makeIdent(static_cast<dd::QuantumRegister>(lo), static_cast<dd::QuantumRegister>(hi)));
  }
  std::size_t gate(const std::vector<C>& mat, int target, const std::vector<std::pair<int, int>>& controls) {
    std::vector<dd::ComplexValue> x;
    for (const auto& c : mat) x.push_back({c.real(), c.imag()});
    dd::Controls cs;
    for (const auto& c : controls)
      cs.insert(dd::Control{static_cast<dd::QuantumRegister>(c.first), static_cast<dd::Control::Type>(c.second)});
    return keep(p->makeGateDD(x, n(), cs, static_cast<dd::QuantumRegister>(target)));
  }
  std::size_t gate_on(std::size_t count, const std::vector<C>& mat, int target) {
    std::vector<dd::ComplexValue> x;
    for (const auto& c : mat) x.push_back({c.real(), c.imag()});
    return keep(p->makeGateDD(x, static_cast<dd::QuantumRegisterCount>(count), static_cast<dd::QuantumRegister>(target)));
  }
  std::size_t cex(int level, double phi, std::size_t a, std::size_t b, int c, int t, bool dag) {
    return keep(p->cex(n(), static_cast<dd::Control::Type>(level), phi, a, b, static_cast<dd::QuantumRegister>(c), static_cast<dd::QuantumRegister>(t), dag));
  }
  std::size_t csum(int c, int t, bool dag) {
    return keep(p->csum(n(), static_cast<dd::QuantumRegister>(c), static_cast<dd::QuantumRegister>(t), dag));
  }
  std::size_t mul_v(std::size_t a, std::size_t b) { return keep(p->multiply(m.at(a), v.at(b))); }
  std::size_t mul_m(std::size_t a, std::size_t b) { return keep(p->multiply(m.at(a), m.at(b))); }
  std::size_t add_v(std::size_t a, std::size_t b) { return keep(p->add(v.at(a), v.at(b))); }
  std::size_t add_m(std::size_t a, std::size_t b) { return keep(p->add(m.at(a), m.at(b))); }
  std::size_t kron_m(std::size_t a, std::size_t b) { return keep(p->kronecker(m.at(a), m.at(b))); }
  std::size_t extend(std::size_t a, int h, int l) {
    return keep(p->extend(m.at(a), static_cast<dd::QuantumRegister>(h), static_cast<dd::QuantumRegister>(l)));
  }
  std::size_t dagger(std::size_t a) { return keep(p->conjugateTranspose(m.at(a))); }
  std::size_t transpose(std::size_t a) { return keep(p->transpose(m.at(a))); }
  C inner(std::size_t a, std::size_t b) { return val(p->innerProduct(v.at(a), v.at(b))); }
  double fidelity(std::size_t a, std::size_t b) { return p->fidelity(v.at(a), v.at(b)); }

  // independent readers
  std::vector<C> read_v(std::size_t a, std::size_t regs) {
    std::size_t len = 1;
    for (std::size_t i = 0; i < regs; ++i) len *= sizes.at(i);
    std::vector<C> out(len, 0.);
    walk_v(v.at(a), static_cast<int>(regs) - 1, 1., 0, len, out);
    return out;
  }
  void walk_v(const P::vEdge& e, int level, C w, std::size_t at, std::size_t len, std::vector<C>& out) {
    const C c = w * val(e.weight);
    if (c == 0.) return;
    if (e.isTerminal()) {
      if (level != -1) throw std::runtime_error("a branch of the state ends above the last qudit");
      out.at(at) = c;
      return;
    }
    if (e.nextNode->varIndx != level || e.nextNode->edges.size() != sizes.at(static_cast<std::size_t>(level)))
      throw std::runtime_error("a node of the state sits on the wrong qudit or has the wrong number of branches");
    const auto part = len / e.nextNode->edges.size();
    for (std::size_t k = 0; k < e.nextNode->edges.size(); ++k) walk_v(e.nextNode->edges.at(k), level - 1, c, at + k * part, part, out);
  }
  std::vector<std::vector<C>> read_m(std::size_t a, std::size_t regs) {
    std::size_t len = 1;
    for (std::size_t i = 0; i < regs; ++i) len *= sizes.at(i);
    std::vector<std::vector<C>> out(len, std::vector<C>(len, 0.));
    walk_m(m.at(a), static_cast<int>(regs) - 1, 1., 0, 0, len, out);
    return out;
  }
  void walk_m(const P::mEdge& e, int level, C w, std::size_t r, std::size_t c, std::size_t len, std::vector<std::vector<C>>& out) {
    const C x = w * val(e.weight);
    if (x == 0.) return;
    if (e.isTerminal()) {
      if (level != -1) throw std::runtime_error("a branch of the operator ends above the last qudit");
      out.at(r).at(c) = x;
      return;
    }
    const auto d = sizes.at(static_cast<std::size_t>(level));
    if (e.nextNode->varIndx != level || e.nextNode->edges.size() != d * d)
      throw std::runtime_error("a node of the operator sits on the wrong qudit or has the wrong number of branches");
    const auto part = len / d;
    for (std::size_t i = 0; i < d; ++i)
      for (std::size_t j = 0; j < d; ++j) walk_m(e.nextNode->edges.at(i * d + j), level - 1, x, r + i * part, c + j * part, part, out);
  }
  // the package's own readers
  std::vector<C> vector(std::size_t a) {
    std::vector<C> out;
    for (const auto& x : p->getVector(v.at(a))) out.emplace_back(x.real(), x.imag());
    return out;
  }
  C amplitude(std::size_t a, std::vector<std::size_t> path) { return val(p->getValueByPath(v.at(a), path)); }
  C amplitude_text(std::size_t a, const std::string& path) { return val(p->getValueByPath(v.at(a), path)); }
  C entry(std::size_t a, std::vector<std::size_t> i, std::vector<std::size_t> j) { return val(p->getValueByPath(m.at(a), i, j)); }
  C entry_text(std::size_t a, const std::string& path) { return val(p->getValueByPath(m.at(a), path)); }
  std::vector<std::size_t> digits(std::size_t i) {
    std::size_t len = 1;
    for (const auto s : sizes) len *= s;
    return p->getReprOfIndex(i, len);
  }
  std::size_t nodes(std::size_t a) {
    std::unordered_set<P::vNode*> seen;
    return p->nodeCount(v.at(a), seen);
  }
  std::size_t node_of_v(std::size_t a) { return reinterpret_cast<std::size_t>(v.at(a).nextNode); }
  std::size_t node_of_m(std::size_t a) { return reinterpret_cast<std::size_t>(m.at(a).nextNode); }
  std::size_t cached() { return p->complexNumber.cacheCount(); }
  void forget() { v.clear(); m.clear(); }
};

PYBIND11_MODULE(ddpkg, mod) {
  py::class_<Pkg>(mod, "Pkg")
      .def(py::init<std::vector<std::size_t>>())
      .def("zero", &Pkg::zero).def("basis", &Pkg::basis).def("basis_part", &Pkg::basis_part)
      .def("zero_vector", &Pkg::zero_vector).def("zero_matrix", &Pkg::zero_matrix)
      .def("ident", &Pkg::ident).def("ident_part", &Pkg::ident_part).def("gate", &Pkg::gate).def("gate_on", &Pkg::gate_on)
      .def("cex", &Pkg::cex).def("csum", &Pkg::csum)
      .def("mul_v", &Pkg::mul_v).def("mul_m", &Pkg::mul_m).def("add_v", &Pkg::add_v).def("add_m", &Pkg::add_m)
      .def("kron_m", &Pkg::kron_m).def("extend", &Pkg::extend)
      .def("dagger", &Pkg::dagger).def("transpose", &Pkg::transpose).def("inner", &Pkg::inner).def("fidelity", &Pkg::fidelity)
      .def("read_v", &Pkg::read_v).def("read_m", &Pkg::read_m).def("vector", &Pkg::vector)
      .def("amplitude", &Pkg::amplitude).def("amplitude_text", &Pkg::amplitude_text)
      .def("entry", &Pkg::entry).def("entry_text", &Pkg::entry_text).def("digits", &Pkg::digits).def("nodes", &Pkg::nodes)
      .def("node_of_v", &Pkg::node_of_v).def("node_of_m", &Pkg::node_of_m).def("cached", &Pkg::cached).def("forget", &Pkg::forget);
}
