// Minimal JSON reader and case loop shared by all harnesses.
#ifndef VERIF_JSON_HH
#define VERIF_JSON_HH
#include <cassert>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include <functional>
#include <unistd.h>
#include <csignal>

struct J {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    double n = 0; bool b = false; std::string s;
    std::vector<J> a; std::map<std::string, J> o;
    const J& operator[](const std::string& k) const {
        auto it = o.find(k);
        if (it == o.end()) { std::cerr << "missing key " << k << std::endl; std::_Exit(3); }
        return it->second; }
    const J& operator[](const char* k) const { return (*this)[std::string(k)]; }
    bool has(const std::string& k) const { return o.count(k) > 0; }
    const J& operator[](int i) const { return (*this)[std::size_t(i)]; }
    const J& operator[](std::size_t i) const {
        if (i >= a.size()) { std::cerr << "index out of range" << std::endl; std::_Exit(3); }
        return a[i]; }
    std::size_t size() const { return a.size(); }
    int i() const { if (t != NUM) { std::cerr << "not a number" << std::endl; std::_Exit(3); } return int(std::lround(n)); }
    double d() const { if (t != NUM) { std::cerr << "not a number" << std::endl; std::_Exit(3); } return n; }
    bool B() const { if (t != BOOL) { std::cerr << "not a bool" << std::endl; std::_Exit(3); } return b; }
    std::string S() const { if (t != STR) { std::cerr << "not a string" << std::endl; std::_Exit(3); } return s; }
    std::vector<J>::const_iterator begin() const { return a.begin(); }
    std::vector<J>::const_iterator end() const { return a.end(); }
};

struct JParser {
    const char* p; const char* e;
    void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { std::cerr << "bad json near " << std::string(p, std::min(e, p+40)) << std::endl; std::_Exit(3); }
    J parse() {
        ws(); J r; if (p >= e) bad();
        if (*p == '{') { r.t = J::OBJ; ++p; ws(); if (*p == '}') { ++p; return r; }
            while (true) { ws(); J k = parse(); ws(); if (*p != ':') bad(); ++p; r.o[k.s] = parse(); ws();
                if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return r; } bad(); } }
        if (*p == '[') { r.t = J::ARR; ++p; ws(); if (*p == ']') { ++p; return r; }
            while (true) { r.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return r; } bad(); } }
        if (*p == '"') { r.t = J::STR; ++p; while (p < e && *p != '"') { if (*p == '\\') ++p; r.s += *p++; } ++p; return r; }
        if (!strncmp(p, "true", 4)) { r.t = J::BOOL; r.b = true; p += 4; return r; }
        if (!strncmp(p, "false", 5)) { r.t = J::BOOL; p += 5; return r; }
        if (!strncmp(p, "null", 4)) { p += 4; return r; }
        char* q; r.n = strtod(p, &q); if (q == p) bad(); p = q; r.t = J::NUM; return r;
    }
};

// thrown by the harness on a deviation from the specification
struct Deviation : std::runtime_error { using std::runtime_error::runtime_error; };

template<class... A> [[noreturn]] void deviate(const A&... a)
{ std::ostringstream s; s.precision(15); (s << ... << a); throw Deviation(s.str()); }

template<class... A> void require(bool c, const A&... a) { if (!c) deviate(a...); }

// returns true iff f throws anything derived from std::exception
template<class F> bool throws(F&& f) { try { f(); } catch (const Deviation&) { throw; } catch (const std::exception&) { return true; } return false; }

// Reads "<index> <json>" lines and calls f(index, case); deviations and exceptions are reported.
inline int caseLoop(int argc, char** argv, const std::function<void(int, const J&)>& f)
{
    // the protocol goes to the real stdout; whatever the library prints on std::cout is dropped
    FILE* proto = fdopen(dup(1), "w");
    std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
    const int to = std::getenv("CASE_TIMEOUT") ? atoi(std::getenv("CASE_TIMEOUT")) : 60;
    std::ifstream in(argv[1]); std::string line;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        const auto sp = line.find(' ');
        const int idx = atoi(line.substr(0, sp).c_str());
        JParser ps{line.c_str() + sp, line.c_str() + line.size()};
        const J c = ps.parse();
        fprintf(proto, "@B %d\n", idx); fflush(proto);
        alarm(to);
        std::string msg;
        try { f(idx, c); }
        catch (const Deviation& e) { msg = e.what(); }
        catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); }
        catch (...) { msg = "unexpected exception of unknown type"; }
        alarm(0);
        sink.str("");
        if (!msg.empty()) { for (auto& ch : msg) if (ch == '\n') ch = ' '; fprintf(proto, "@FAIL %d %s\n", idx, msg.c_str()); fflush(proto); }
    }
    fprintf(proto, "@END\n"); fflush(proto);
    std::cout.rdbuf(old);
    return 0;
}
inline int envSeed() { return std::getenv("VERIF_SEED") ? atoi(std::getenv("VERIF_SEED")) : 1; }
#endif
