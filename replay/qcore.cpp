#include "Decoder.hpp"
#include "GF2.hpp"
#include "TreeNode.hpp"
#include "Utils.hpp"
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <functional>
#include <memory>
#include <set>
#include <unordered_map>
#include <unordered_set>
#define private public          // the component partition is an internal function
#include "UFDecoder.hpp"
#include "UFHeuristic.hpp"
#undef private
// called through templates so that a changed parameter list of an internal function does not stop the build
template <class D> auto comps(const D& d, const std::set<std::size_t>& s, int) -> decltype(d.getConnectedComps(s)) { return d.getConnectedComps(s); }
template <class D> auto comps(const D& d, const std::set<std::size_t>& s, long) -> decltype(d.getConnectedComps(s, d.getCode()->gethZ())) { return d.getConnectedComps(s, d.getCode()->gethZ()); }
template <class D> std::vector<std::set<std::size_t>> comps(const D&, const std::set<std::size_t>&, ...) { throw std::logic_error("no access"); }
namespace py = pybind11;
using M = std::vector<std::vector<bool>>;
using Vb = std::vector<bool>;
// a forest of tree nodes with the operations of the repository
struct Forest {
    std::vector<std::unique_ptr<TreeNode>> v;
    explicit Forest(std::vector<bool> chk) {
        for (std::size_t i = 0; i < chk.size(); i++) {
            v.push_back(std::make_unique<TreeNode>(i));
            v.back()->isCheck = chk[i];
            if (chk[i]) { v.back()->checkVertices.push_back(i); }
        }
    }
    std::size_t find(std::size_t i) { return TreeNode::Find(v.at(i).get())->vertexIdx; }
    void unite(std::size_t i, std::size_t j) { TreeNode::Union(v.at(i).get(), v.at(j).get()); }
    long parent(std::size_t i) { return v.at(i)->parent == nullptr ? -1 : static_cast<long>(v.at(i)->parent->vertexIdx); }
    std::vector<std::size_t> children(std::size_t i) { std::vector<std::size_t> r; for (auto* c : v.at(i)->children) { r.push_back(c->vertexIdx); } return r; }
    std::vector<std::size_t> checks(std::size_t i) { return v.at(i)->checkVertices; }
    std::vector<std::size_t> boundary(std::size_t i) { return {v.at(i)->boundaryVertices.begin(), v.at(i)->boundaryVertices.end()}; }
    std::size_t size(std::size_t i) { return v.at(i)->clusterSize; }
    bool marked(std::size_t i) { return v.at(i)->marked || v.at(i)->deleted; }
};
PYBIND11_MODULE(qcore, m) {
    m.def("isVectorInRowspace", &Utils::isVectorInRowspace);
    m.def("getTranspose", &Utils::getTranspose);
    m.def("rectMatrixMultiply", [](const M& a, const Vb& v, Vb r) { Utils::rectMatrixMultiply(a, v, r); return r; });
    m.def("swapRows", [](M a, std::size_t i, std::size_t j) { Utils::swapRows(a, i, j); return a; });
    m.def("computeResidualErr", [](const Vb& e, Vb r) { Utils::computeResidualErr(e, r); return r; });
    m.def("toCsc", &Utils::toCsc);
    m.def("rank", [](std::size_t r, std::size_t c, CscMatrix a) { return PluDecomposition(r, c, std::move(a)).getMatrixRank(); });
    m.def("luSolve", [](std::size_t r, std::size_t c, CscMatrix a, const std::vector<uint64_t>& y) { return PluDecomposition(r, c, std::move(a)).luSolve(y); });
    py::class_<Code>(m, "Code").def(py::init<>()).def(py::init<std::string>()).def(py::init<std::string, std::string>()).def(py::init<M&>()).def(py::init<M&, M&>())
        .def("getXSyndrome", &Code::getXSyndrome).def("getSyndrome", &Code::getSyndrome).def("isXStabilizer", &Code::isXStabilizer).def_readwrite("n", &Code::n)
        .def("getHz", &Code::getHzMat).def("getHx", &Code::getHxMat)
        .def("isStabilizer2", static_cast<bool (Code::*)(const Vb&, const Vb&) const>(&Code::isStabilizer)).def("isStabilizer", static_cast<bool (Code::*)(const Vb&) const>(&Code::isStabilizer))
        .def("nbrsZ", [](Code& c, std::size_t i) { return c.gethZ()->getNbrs(i); }).def("nbrsX", [](Code& c, std::size_t i) { return c.gethX()->getNbrs(i); });
    py::enum_<GrowthVariant>(m, "Growth").value("AllComponents", GrowthVariant::AllComponents).value("InvalidComponents", GrowthVariant::InvalidComponents).value("SingleSmallest", GrowthVariant::SingleSmallest).value("SingleRandom", GrowthVariant::SingleRandom).value("SingleQubitRandom", GrowthVariant::SingleQubitRandom);
    py::class_<DecodingResult>(m, "DecodingResult").def_readwrite("idxs", &DecodingResult::estimNodeIdxVector).def_readwrite("estimate", &DecodingResult::estimBoolVector);
    py::class_<Decoder>(m, "Decoder").def_readwrite("result", &Decoder::result).def_readwrite("growth", &Decoder::growth).def("setCode", &Decoder::setCode).def("setGrowth", &Decoder::setGrowth).def("decode", &Decoder::decode).def("reset", &Decoder::reset).def("code", [](Decoder& d) -> Code& { return *d.getCode(); }, py::return_value_policy::reference);
    py::class_<UFHeuristic, Decoder>(m, "UFHeuristic").def(py::init<>());
    py::class_<UFDecoder, Decoder>(m, "UFDecoder").def(py::init<>()).def("comps", [](const UFDecoder& d, const std::set<std::size_t>& s) { return comps(d, s, 0); });
    py::class_<Forest>(m, "Forest").def(py::init<std::vector<bool>>()).def("find", &Forest::find).def("unite", &Forest::unite).def("parent", &Forest::parent).def("children", &Forest::children).def("checks", &Forest::checks).def("boundary", &Forest::boundary).def("size", &Forest::size).def("marked", &Forest::marked);
}
