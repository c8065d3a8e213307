// Conformance driver for spec/ConfSys.tla: configuration files.
#include "drv.h"
#include <ConfigLoader.hh>
#include <list>

static std::string chars(const J &j)
{
    std::string s;
    for (auto &c : j.a) s += c.str();
    return s;
}
static std::string path(const J &f) { return "conf_" + f.str() + ".ini"; }
static std::set<std::string> made;

template <typename T>
static J loadNum(const J &ev)
{
    T x = T(77);
    try
    {
        ConfigLoader::Load(ev["s"].str(), ev["k"].str(), x);
    }
    catch (...)
    {
        if (x != T(77)) return bad("a refused value was stored");
        throw;
    }
    return okv(J(double(x)));
}
template <typename C, typename E, typename F>
static J loadAll(const J &ev, F put)
{
    C c;
    for (auto &x : ev["pre"].a) put(c, x);
    ConfigLoader::Load(ev["s"].str(), ev["k"].str(), c);
    JA r;
    for (auto &x : c) r.push_back(J(E(x)));
    return okv(J(r));
}
template <typename T, typename E, typename G>
static J loadKind(const J &ev, G get)
{
    const std::string &kind = ev["kind"].str();
    if (kind == "vector") return loadAll<std::vector<T>, E>(ev, [&](std::vector<T> &c, const J &x) { c.push_back(get(x)); });
    if (kind == "list") return loadAll<std::list<T>, E>(ev, [&](std::list<T> &c, const J &x) { c.push_back(get(x)); });
    if (kind == "set") return loadAll<std::set<T>, E>(ev, [&](std::set<T> &c, const J &x) { c.insert(get(x)); });
    throw ScriptError("kind " + kind);
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        ConfigLoader::Close();
        for (auto &p : made) unlink(p.c_str());
        made.clear();
        return okk();
    }
    if (op == "AddLine")
    {
        std::string p = path(ev["f"]);
        std::ofstream f(p.c_str(), std::ios::app | std::ios::binary);
        if (made.count(p)) f << "\n";   // the last line has no end
        made.insert(p);
        f << chars(ev["line"]);
        return okv(J(JA()));
    }
    if (op == "Remove")
    {
        made.erase(path(ev["f"]));
        unlink(path(ev["f"]).c_str());
        return okv(J(JA()));
    }
    return attempt([&]() -> J {
        if (op == "Open")
        {
            ConfigLoader::Open(path(ev["f"]));
            return okv(J(JA()));
        }
        if (op == "Close")
        {
            ConfigLoader::Close();
            return okv(J(JA()));
        }
        if (op == "Sections") return okv(J(ConfigLoader::ListSections()));
        if (op == "LoadStr")
        {
            std::string x = "before";
            try
            {
                ConfigLoader::Load(ev["s"].str(), ev["k"].str(), x);
            }
            catch (...)
            {
                if (x != "before") return bad("a refused value was stored");
                throw;
            }
            return okv(J(x));
        }
        if (op == "LoadNum")
        {
            const std::string &t = ev["type"].str();
            if (t == "int") return loadNum<int>(ev);
            if (t == "double") return loadNum<double>(ev);
        }
        if (op == "LoadStrs") return loadKind<std::string, std::string>(ev, [](const J &x) { return x.str(); });
        if (op == "LoadNums")
        {
            const std::string &t = ev["type"].str();
            if (t == "int") return loadKind<int, double>(ev, [](const J &x) { return int(x.real()); });
            if (t == "double") return loadKind<double, double>(ev, [](const J &x) { return x.real(); });
        }
        throw ScriptError("op " + op);
    });
}
DRV_MAIN
