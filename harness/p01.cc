#include "json.hh"
#include <iomanip>
#include <unordered_map>
#include <frackit/common/id.hh>
#include <frackit/sampling/status.hh>
using namespace Frackit;
#ifdef PY
#include "py.hh"
struct Status { pyx::py::object o = pyx::make("sampling", "SamplingStatus");
    void setTargetCount(Id i, std::size_t n) { pyx::call(o, "setTargetCount", i, n); } void increaseCounter(Id i) { pyx::call(o, "increaseCounter", i); } void increaseRejectedCounter() { pyx::call(o, "increaseRejectedCounter"); }
    void reset() { pyx::call(o, "reset"); } void resetCounters() { pyx::call(o, "resetCounters"); } void resetCounter(Id i) { pyx::call(o, "resetCounter", i); }
    std::size_t getCount(Id i) { return pyx::out<std::size_t>(pyx::call(o, "getCount", i)); } std::size_t getCount() { return pyx::out<std::size_t>(pyx::call(o, "getCount")); }
    bool finished() { return pyx::out<bool>(pyx::call(o, "finished")); } bool finished(Id i) { return pyx::out<bool>(pyx::call(o, "finished", i)); } void print(bool f) { if (f) pyx::call(o, "print", f); else pyx::call(o, "print"); } };
#else
using Status = SamplingStatus;
#endif
// ids of the specification are mapped onto index values spread over the whole range of the index type
static std::size_t realId(int variant, int i) {
    static const std::size_t t[3][6] = {{0,1,2,3,4,5},{7,4294967296ull,4294967303ull,1,18446744073709551615ull,12},{101,1000003,55,0,9223372036854775808ull,2}};
    return t[variant % 3][i];
}
static void checkPrint(Status& s, bool force, double acc, double rej, double tgt) {
    std::ostringstream out; auto* old = std::cout.rdbuf(out.rdbuf());
    try { s.print(force); } catch (...) { std::cout.rdbuf(old); deviate("print() refused (accepted=", acc, " rejected=", rej, " targets=", tgt, ")"); }
    std::cout.rdbuf(old);
    // the figures are the numbers in the last line that is not a comment
    std::string line, last; std::istringstream ls(out.str());
    while (std::getline(ls, line)) { auto p = line.find_first_not_of(' '); if (p != std::string::npos && line[p] != '#') last = line; }
    std::vector<std::string> tok; std::string cur;
    for (char c : last) { if (c == ' ' || c == '|' || c == '\t' || c == '%') { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) tok.push_back(cur);
    require(tok.size() >= 4, "printed line has no four figures: '", last, "'");
    require(std::stod(tok[0]) == acc, "printed accepted count ", tok[0], ", expected ", acc);
    require(std::stod(tok[1]) == rej, "printed rejected count ", tok[1], ", expected ", rej);
    if (acc + rej > 0) require(std::abs(std::stod(tok[2]) - 100.0*acc/(acc+rej)) < 0.0051, "printed ratio ", tok[2], ", expected ", 100.0*acc/(acc+rej));
    if (tgt > 0) require(std::abs(std::stod(tok[3]) - 100.0*acc/tgt) < 0.0051 + 1e-12*100.0*acc/tgt, "printed progress ", tok[3], ", expected ", 100.0*acc/tgt);
}
static int finId(Status& s, std::size_t id) {
    try { return s.finished(Id(id)) ? 1 : 0; } catch (const std::exception&) { return 2; }
}
int main(int argc, char** argv) {
    return caseLoop(argc, argv, [&] (int idx, const J& c) {
        const int v = idx;
        Status s; int step = 0;
        auto id = [&] (const J& e) { return Id(realId(v, e["id"].i())); };
        for (const auto& e : c["hist"]) {
            ++step; const auto op = e["op"].S();
            try {
                if (op == "setTarget") s.setTargetCount(id(e), e["n"].i());
                else if (op == "accept") for (int k = 0; k < e["n"].i(); ++k) s.increaseCounter(id(e));
                else if (op == "reject") for (int k = 0; k < e["n"].i(); ++k) s.increaseRejectedCounter();
                else if (op == "reset") s.reset();
                else if (op == "resetCounters") s.resetCounters();
                else if (op == "resetCounter") s.resetCounter(id(e));
                else if (op == "getCount") { auto r = s.getCount(id(e)); require(r == std::size_t(e["r"].i()), "getCount(", e["id"].i(), ") = ", r, ", expected ", e["r"].i()); }
                else if (op == "getTotal") { auto r = s.getCount(); require(r == std::size_t(e["r"].i()), "getCount() = ", r, ", expected ", e["r"].i()); }
                else if (op == "finished") { bool r = s.finished(); require(r == (e["r"].i() == 1), "finished() = ", r); }
                else if (op == "finishedId") { int r = finId(s, id(e).get()); require(r == e["r"].i(), "finished(", e["id"].i(), ") = ", r, ", expected ", e["r"].i(), " (2 = refused)"); }
                else if (op == "print") checkPrint(s, e["force"].B(), e["acc"].d(), e["rej"].d(), e["tgt"].d());
                else { std::cerr << "unknown op " << op; std::_Exit(3); }
            } catch (const std::exception& ex) { deviate("step ", step, " (", op, "): ", ex.what()); }
        }
        // final observation
        const auto& ids = c["ids"];
        auto one = [&] (const J& r) {
            std::size_t rid = realId(v, r["id"].i());
            require(s.getCount(Id(rid)) == std::size_t(r["c"].i()), "end: getCount(", r["id"].i(), ") = ", s.getCount(Id(rid)), ", expected ", r["c"].i());
            if (r["f"].i() != 3) require(finId(s, rid) == r["f"].i(), "end: finished(", r["id"].i(), ") = ", finId(s, rid), ", expected ", r["f"].i());
        };
        if (ids.t == J::ARR) for (const auto& r : ids) one(r); else for (const auto& kv : ids.o) one(kv.second);
        bool f; try { f = s.finished(); } catch (const std::exception& ex) { deviate("end: finished() refused: ", ex.what()); }
        require(f == c["fin"].B(), "end: finished() = ", f);
        require(s.getCount() == std::size_t(c["total"].i()), "end: total ", s.getCount(), ", expected ", c["total"].i());
        checkPrint(s, true, c["total"].d(), c["rej"].d(), c["tgt"].d());
    });
}
