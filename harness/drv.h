// Common part of the conformance drivers.
//
// A driver is an interpreter: it reads one JSON object per line (an operation
// on the public API of the library), performs it on real OXSX objects, and
// writes the same object to the trace with one more field, "out", holding what
// a caller can observe (the outcome and the projected state).  The trace is
// then checked by TLC against the specification in /verif/spec.
//
// Reals are strings: C99 hex floats out, anything strtod (or n/d) takes in.
#ifndef VERIF_DRV_H
#define VERIF_DRV_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>
#include <unistd.h>
#include <Exceptions.h>

struct J;
typedef std::vector<J> JA;
typedef std::vector<std::pair<std::string, J>> JO;

// thrown when a script is not one the driver understands: never a verdict
struct ScriptError
{
    std::string what;
    ScriptError(const std::string &s) : what(s) {}
};

inline double parseReal(const std::string &s)
{
    if (s == "min_double") return 2.2250738585072014e-308;
    size_t p = s.find('/');
    if (p != std::string::npos)
        return strtod(s.substr(0, p).c_str(), 0) / strtod(s.substr(p + 1).c_str(), 0);
    char *e = 0;
    double d = strtod(s.c_str(), &e);
    if (e == s.c_str()) throw ScriptError("not a real: " + s);
    return d;
}
inline std::string fmtReal(double d)
{
    if (std::isnan(d)) return "nan";
    if (std::isinf(d)) return d > 0 ? "inf" : "-inf";
    if (d == 0) return "0";
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

struct J
{
    enum T { STR, INT, BOOL, ARR, OBJ } t;
    std::string s;
    long i;
    bool b;
    JA a;
    JO o;
    J() : t(OBJ), i(0), b(false) {}
    J(const char *x) : t(STR), s(x), i(0), b(false) {}
    J(const std::string &x) : t(STR), s(x), i(0), b(false) {}
    J(int x) : t(INT), i(x), b(false) {}
    J(long x) : t(INT), i(x), b(false) {}
    J(size_t x) : t(INT), i(x > 2000000000ul ? 2000000000l : long(x)), b(false) {}
    J(bool x) : t(BOOL), i(0), b(x) {}
    J(double x) : t(STR), s(fmtReal(x)), i(0), b(false) {}
    J(const JA &x) : t(ARR), i(0), b(false), a(x) {}
    J(const JO &x) : t(OBJ), i(0), b(false), o(x) {}
    template <typename E>
    J(const std::vector<E> &x) : t(ARR), i(0), b(false)
    {
        for (const auto &e : x) a.push_back(J(E(e)));
    }
    template <typename E>
    J(const std::set<E> &x) : t(ARR), i(0), b(false)
    {
        for (const auto &e : x) a.push_back(J(e));
    }
    template <typename E>
    J(const std::map<std::string, E> &x) : t(ARR), i(0), b(false) // maps are arrays of pairs, in key order
    {
        for (const auto &e : x) a.push_back(J(JA{J(e.first), J(e.second)}));
    }
    bool has(const std::string &k) const
    {
        for (auto &p : o) if (p.first == k) return true;
        return false;
    }
    const J &operator[](const std::string &k) const
    {
        for (auto &p : o) if (p.first == k) return p.second;
        throw ScriptError("missing field " + k);
    }
    const J &operator[](const char *k) const { return (*this)[std::string(k)]; }
    const J &operator[](size_t k) const
    {
        if (t != ARR || k >= a.size()) throw ScriptError("bad index");
        return a[k];
    }
    const J &operator[](int k) const { return (*this)[size_t(k)]; }
    size_t size() const { return a.size(); }
    double real() const
    {
        if (t == INT) return double(i);
        if (t != STR) throw ScriptError("real expected");
        return parseReal(s);
    }
    long num() const
    {
        if (t == INT) return i;
        throw ScriptError("int expected");
    }
    const std::string &str() const
    {
        if (t != STR) throw ScriptError("string expected");
        return s;
    }
    bool yes() const
    {
        if (t != BOOL) throw ScriptError("bool expected");
        return b;
    }
    std::vector<double> reals() const
    {
        std::vector<double> r;
        for (auto &e : a) r.push_back(e.real());
        return r;
    }
    std::vector<std::string> strs() const
    {
        std::vector<std::string> r;
        for (auto &e : a) r.push_back(e.str());
        return r;
    }
    std::vector<size_t> sizes() const
    {
        std::vector<size_t> r;
        for (auto &e : a) r.push_back(size_t(e.num()));
        return r;
    }
    std::map<std::string, double> dict() const // array of [name, real]
    {
        std::map<std::string, double> r;
        for (auto &e : a) r[e[0].str()] = e[1].real();
        return r;
    }
    std::set<std::string> strset() const
    {
        std::set<std::string> r;
        for (auto &e : a) r.insert(e.str());
        return r;
    }
    void put(const std::string &k, const J &v) { o.push_back(std::make_pair(k, v)); }
    void write(std::ostream &os) const
    {
        switch (t)
        {
        case STR:
            os << '"';
            for (char c : s)
            {
                if (c == '"' || c == '\\') os << '\\' << c;
                else if (c == '\n') os << "\\n";
                else if (c == '\t') os << "\\t";
                else if ((unsigned char)c < 32 || (unsigned char)c > 126)
                {
                    char b[8];
                    snprintf(b, sizeof b, "\\u%04x", (unsigned char)c);
                    os << b;
                }
                else os << c;
            }
            os << '"';
            break;
        case INT: os << i; break;
        case BOOL: os << (b ? "true" : "false"); break;
        case ARR:
            os << '[';
            for (size_t k = 0; k < a.size(); k++)
            {
                if (k) os << ',';
                a[k].write(os);
            }
            os << ']';
            break;
        case OBJ:
            os << '{';
            for (size_t k = 0; k < o.size(); k++)
            {
                if (k) os << ',';
                J(o[k].first).write(os);
                os << ':';
                o[k].second.write(os);
            }
            os << '}';
            break;
        }
    }
};

struct JParser
{
    const std::string &s;
    size_t p;
    JParser(const std::string &x) : s(x), p(0) {}
    void ws() { while (p < s.size() && isspace((unsigned char)s[p])) p++; }
    char peek()
    {
        ws();
        if (p >= s.size()) throw ScriptError("unexpected end of line");
        return s[p];
    }
    void expect(char c)
    {
        if (peek() != c) throw ScriptError(std::string("expected ") + c);
        p++;
    }
    std::string string_()
    {
        expect('"');
        std::string r;
        while (p < s.size() && s[p] != '"')
        {
            if (s[p] == '\\')
            {
                p++;
                char c = s[p++];
                if (c == 'n') r += '\n';
                else if (c == 't') r += '\t';
                else if (c == 'r') r += '\r';
                else if (c == 'u')
                {
                    r += char(strtol(s.substr(p, 4).c_str(), 0, 16));
                    p += 4;
                }
                else r += c;
            }
            else r += s[p++];
        }
        expect('"');
        return r;
    }
    J value()
    {
        char c = peek();
        if (c == '"') return J(string_());
        if (c == '[')
        {
            JA a;
            p++;
            if (peek() == ']') { p++; return J(a); }
            while (true)
            {
                a.push_back(value());
                if (peek() == ',') { p++; continue; }
                expect(']');
                return J(a);
            }
        }
        if (c == '{')
        {
            JO o;
            p++;
            if (peek() == '}') { p++; return J(o); }
            while (true)
            {
                ws();
                std::string k = string_();
                expect(':');
                J v = value();
                o.push_back(std::make_pair(k, v));
                if (peek() == ',') { p++; continue; }
                expect('}');
                return J(o);
            }
        }
        if (s.compare(p, 4, "true") == 0) { p += 4; return J(true); }
        if (s.compare(p, 5, "false") == 0) { p += 5; return J(false); }
        size_t q = p;
        while (p < s.size() && (isdigit((unsigned char)s[p]) || s[p] == '-')) p++;
        if (q == p) throw ScriptError("bad json");
        return J(atol(s.substr(q, p - q).c_str()));
    }
};

inline J obj(std::initializer_list<std::pair<std::string, J>> l) { return J(JO(l.begin(), l.end())); }
inline J okv(const J &v) { return obj({{"ok", J(true)}, {"v", v}}); }
// two public ways of asking the same question disagree: never an allowed outcome
inline J bad(const std::string &why) { return obj({{"ok", J(false)}, {"err", J("crash")}, {"why", J(why)}}); }
inline J okk() { return obj({{"ok", J(true)}}); }

// Runs one call of the library, turning exceptions into an outcome.
inline J attempt(const std::function<J()> &f)
{
    const char *e = 0;
    try { return f(); }
    catch (const DimensionError &) { e = "DimensionError"; }
    catch (const ValueError &) { e = "ValueError"; }
    catch (const NotFoundError &) { e = "NotFoundError"; }
    catch (const IOError &) { e = "IOError"; }
    catch (const RepresentationError &) { e = "RepresentationError"; }
    catch (const ParameterError &) { e = "ParameterError"; }
    catch (const LogicError &) { e = "LogicError"; }
    catch (const NULLPointerAccessError &) { e = "NULLPointerAccessError"; }
    catch (const ConfigSectionMissing &) { e = "ConfigSectionMissing"; }
    catch (const ConfigFieldMissing &) { e = "ConfigFieldMissing"; }
    catch (const OXSXException &) { e = "OXSXException"; }
    catch (const std::exception &x)
    {
        e = "std";
        if (getenv("DRV_WHAT")) fprintf(stderr, "%s\n", x.what());
    }
    return obj({{"ok", J(false)}, {"err", J(e)}});
}

// several ways of asking about one thing: each answers, or each refuses
inline J together(const std::vector<std::function<J()>> &fs)
{
    JA v;
    J no;
    size_t n = 0;
    for (size_t k = 0; k < fs.size(); k++)
    {
        J r = attempt([&]() { return okv(fs[k]()); });
        if (r["ok"].yes()) v.push_back(r["v"]);
        else { no = r; n++; }
        if (n && r["ok"].yes()) return bad("one refuses what the other answers");
    }
    return n == 0 ? okv(J(v)) : n == fs.size() ? no : bad("one refuses what the other answers");
}

// driver-specific: performs ev["op"], returns the value of "out"
J handle(const J &ev);

inline int drvMain(int argc, char **argv)
{
    if (argc != 3)
    {
        fprintf(stderr, "usage: driver script.ndjson trace.ndjson\n");
        return 2;
    }
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    long n = 0;
    while (std::getline(in, line))
    {
        n++;
        if (line.empty()) continue;
        try
        {
            JParser p(line);
            J ev = p.value();
            // the library prints to cout/cerr: those go to /dev/null by the runner
            J r = handle(ev);
            ev.put("out", r);
            ev.write(out);
            out << std::endl;
        }
        catch (const ScriptError &e)
        {
            fprintf(stderr, "SCRIPT ERROR line %ld: %s\n%s\n", n, e.what.c_str(), line.c_str());
            return 3;
        }
    }
    return 0;
}
#define DRV_MAIN \
    int main(int argc, char **argv) { return drvMain(argc, argv); }
#endif
