// exposes the circuit encoders of the repository: circuits in, encoded operation lists out
#include "Definitions.hpp"
#include "ecc/Ecc.hpp"
#include "ecc/Id.hpp"
#include "ecc/Q18Surface.hpp"
#include "ecc/Q3Shor.hpp"
#include "ecc/Q5Laflamme.hpp"
#include "ecc/Q7Steane.hpp"
#include "ecc/Q9Shor.hpp"
#include "ecc/Q9Surface.hpp"
#include "ir/QuantumComputation.hpp"
#include "ir/operations/ClassicControlledOperation.hpp"
#include "ir/operations/NonUnitaryOperation.hpp"
#include "ir/operations/StandardOperation.hpp"
#include <map>
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
namespace py = pybind11;
using Op = std::tuple<std::string, std::vector<std::pair<qc::Qubit, bool>>, std::vector<qc::Qubit>, std::vector<std::size_t>, std::vector<double>>;
static const std::map<std::string, qc::OpType> T = {{"i", qc::I}, {"barrier", qc::Barrier}, {"x", qc::X}, {"y", qc::Y}, {"z", qc::Z}, {"h", qc::H}, {"s", qc::S}, {"sdg", qc::Sdg}, {"t", qc::T}, {"tdg", qc::Tdg}, {"v", qc::V}, {"vdg", qc::Vdg}, {"sx", qc::SX}, {"sxdg", qc::SXdg}, {"swap", qc::SWAP}, {"iswap", qc::iSWAP}, {"rx", qc::RX}, {"ry", qc::RY}, {"rz", qc::RZ}, {"p", qc::P}, {"u", qc::U}, {"u2", qc::U2}, {"gphase", qc::GPhase}, {"ecr", qc::ECR}, {"dcx", qc::DCX}, {"rxx", qc::RXX}, {"rzz", qc::RZZ}};
static py::tuple show(const qc::Operation& o) {
    if (o.isClassicControlledOperation()) {
        const auto* c = dynamic_cast<const qc::ClassicControlledOperation*>(&o);
        return py::make_tuple("if", show(*c->getOperation()), c->getControlRegister().first, c->getControlRegister().second, c->getExpectedValue());
    }
    std::vector<std::pair<qc::Qubit, bool>> cs;
    for (const auto& c : o.getControls()) cs.emplace_back(c.qubit, c.type == qc::Control::Type::Pos);
    std::vector<std::size_t> cl;
    if (o.getType() == qc::Measure) cl = dynamic_cast<const qc::NonUnitaryOperation&>(o).getClassics();
    return py::make_tuple(qc::toString(o.getType()), cs, o.getTargets(), cl, o.getParameter());
}
// records where the correction rounds start and end
template <class B> struct Open : B {
    using B::B;
    std::vector<std::array<std::size_t, 3>> rounds;
    std::vector<std::tuple<std::string, std::size_t, std::size_t>> events;   // outermost calls only
    int depth = 0;
    void mapGate(const qc::Operation& g) override {
        const auto a = B::qcMapped->getNops(); ++depth;
        B::mapGate(g);
        if (--depth == 0) events.emplace_back("map", a, B::qcMapped->getNops());
    }
    void writeEncoding() override { ++depth; B::writeEncoding(); --depth; }
    void writeDecoding() override { ++depth; B::writeDecoding(); --depth; }
    void measureAndCorrect() override {
        const auto a = B::qcMapped->getNops(); const bool dec = B::isDecoded; ++depth;
        B::measureAndCorrect();
        if (--depth == 0) events.emplace_back("round", a, B::qcMapped->getNops());
        rounds.push_back({a, B::qcMapped->getNops(), dec ? 1U : 0U});
    }
};
template <class B> static py::dict go(const std::shared_ptr<qc::QuantumComputation>& q, std::size_t freq) {
    Open<B> m(q, freq); py::dict r;
    try {
        const auto out = m.apply();
        py::list l;
        for (const auto& o : *out) l.append(show(*o));
        py::list cr;
        for (const auto& [name, se] : out->getCregs()) cr.append(py::make_tuple(name, se.first, se.second));
        r["ops"] = l; r["qubits"] = out->getNqubits(); r["clbits"] = out->getNcbits(); r["cregs"] = cr; r["data"] = m.getDataQubits();
        py::list rs;
        for (const auto& x : m.rounds) rs.append(py::make_tuple(x[0], x[1], x[2] != 0));
        r["rounds"] = rs; r["events"] = m.events;
    } catch (const qc::QFRException& e) { r["rejected"] = std::string(e.what()); }
    return r;
}
static py::dict run(const std::string& code, std::size_t n, const std::vector<std::pair<std::string, std::size_t>>& regs, const std::vector<Op>& ops, std::size_t freq) {
    auto q = std::make_shared<qc::QuantumComputation>();
    if (n > 0) q->addQubitRegister(n);
    for (const auto& [name, size] : regs) q->addClassicalRegister(size, name);
    for (const auto& [name, cs, ts, cl, par] : ops) {
        qc::Controls c;
        for (const auto& [b, pos] : cs) c.insert(qc::Control{b, pos ? qc::Control::Type::Pos : qc::Control::Type::Neg});
        if (name == "measure") q->measure(ts, cl);
        else if (name == "reset") q->reset(ts);
        else if (name == "cif") q->classicControlled(qc::X, ts.at(0), {0, 1}, 1U);
        else q->emplace_back<qc::StandardOperation>(c, ts, T.at(name), par);
    }
    if (code == "Id") return go<ecc::Id>(q, freq);
    if (code == "Q3Shor") return go<ecc::Q3Shor>(q, freq);
    if (code == "Q5Laflamme") return go<ecc::Q5Laflamme>(q, freq);
    if (code == "Q7Steane") return go<ecc::Q7Steane>(q, freq);
    if (code == "Q9Shor") return go<ecc::Q9Shor>(q, freq);
    if (code == "Q9Surface") return go<ecc::Q9Surface>(q, freq);
    if (code == "Q18Surface") return go<ecc::Q18Surface>(q, freq);
    throw std::invalid_argument(code);
}
PYBIND11_MODULE(qecc, m) { m.def("run", &run); m.def("name", [](const std::string& n) { return qc::toString(n == "measure" ? qc::Measure : n == "reset" ? qc::Reset : n == "cif" ? qc::ClassicControlled : T.at(n)); }); }
