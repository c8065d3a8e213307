// Conformance driver for spec/EventSys.tla: OXSXDataSet, Event, ObsSet, cuts, event systematics,
// event distributions, DistFiller, EDManager, CountingExperiment.
#include "drv.h"
#include <AnalyticED.h>
#include <AxisCollection.h>
#include <functional>
#include <BinnedED.h>
#include <BoolCut.h>
#include <BoxCut.h>
#include <CompositeED.h>
#include <CountingExperiment.h>
#include <CountingResult.h>
#include <CutCollection.h>
#include <CutLog.h>
#include <DistFiller.h>
#include <EDManager.h>
#include <Event.h>
#include <ConditionalPDF.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <EventSystematicManager.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <ObsSet.h>
#include <PDF.h>

// an exact density: k * (1 + co . x)
class TestPDF : public PDF
{
public:
    TestPDF(double k_, const std::vector<double> &co_) : k(k_), co(co_), par("k") {}
    Function *Clone() const { return new TestPDF(*this); }
    double operator()(const std::vector<double> &v) const
    {
        if (v.size() != co.size()) throw DimensionError("TestPDF", co.size(), v.size());
        double s = 1;
        for (size_t i = 0; i < v.size(); i++) s += co[i] * v[i];
        return k * s;
    }
    size_t GetNDims() const { return co.size(); }
    double Integral(const std::vector<double> &, const std::vector<double> &) const { return 1; }
    std::vector<double> Sample() const { return std::vector<double>(co.size(), 0); }
    void need(const std::string &n) const
    {
        if (n != par) throw ParameterError("TestPDF: no parameter " + n);
    }
    void SetParameter(const std::string &n, double v) { need(n); k = v; }
    double GetParameter(const std::string &n) const { need(n); return k; }
    void SetParameters(const ParameterDict &p)
    {
        if (!p.count(par)) throw ParameterError("TestPDF");
        k = p.at(par);
    }
    ParameterDict GetParameters() const { return {{par, k}}; }
    size_t GetParameterCount() const { return 1; }
    std::set<std::string> GetParameterNames() const { return {par}; }
    void RenameParameter(const std::string &o, const std::string &n) { need(o); par = n; }
    std::string GetName() const { return name; }
    void SetName(const std::string &n) { name = n; }

private:
    double k;
    std::vector<double> co;
    std::string par, name;
};

// a kernel: its width times the next of the numbers there are to draw; on its own or given where from
static std::vector<double> draws;
static size_t drawn;
class Kernel : public TestPDF
{
public:
    Kernel(size_t dims) : TestPDF(1, std::vector<double>(dims, 1)) { RenameParameter("k", "width"); }
    Function *Clone() const { return new Kernel(*this); }
    std::vector<double> Sample() const
    {
        if (drawn >= draws.size()) throw ValueError("nothing left to draw");
        return std::vector<double>(1, GetParameters().begin()->second * draws[drawn++]);
    }
};
class CondKernel : public ConditionalPDF
{
public:
    CondKernel() : k(1) {}
    ConditionalPDF *Clone() const { return new CondKernel(*this); }
    double ConditionalProbability(const std::vector<double> &, const std::vector<double> &) { return 1; }
    double Integral(const std::vector<double> &, const std::vector<double> &, const std::vector<double> &) const { return 1; }
    std::vector<double> Sample(const std::vector<double> &x) const { return std::vector<double>(1, x.at(0) + k.Sample()[0]); }
    void SetParameter(const std::string &n, double v) { k.SetParameter(n, v); }
    double GetParameter(const std::string &n) const { return k.GetParameter(n); }
    void SetParameters(const ParameterDict &p) { k.SetParameters(p); }
    ParameterDict GetParameters() const { return k.GetParameters(); }
    size_t GetParameterCount() const { return 1; }
    std::set<std::string> GetParameterNames() const { return k.GetParameterNames(); }
    void RenameParameter(const std::string &o, const std::string &n) { k.RenameParameter(o, n); }
    std::string GetName() const { return "cond"; }
    void SetName(const std::string &) {}

private:
    Kernel k;
};
struct Ed
{
    EventDistribution *p; // B, A, C
    EDManager *m;         // M
    BinnedED *b;
    AnalyticED *a;
    Ed() : p(0), m(0), b(0), a(0) {}
    void drop()
    {
        delete p;
        delete m;
        *this = Ed();
    }
};
static std::map<std::string, OXSXDataSet *> ds;
static std::map<std::string, CutCollection *> cuts;
static std::map<std::string, Cut *> own;
static std::map<std::string, CutLog *> logs;
static std::map<std::string, EventSystematic *> syss;
static std::map<std::string, EventSystematicManager *> mans;
static std::map<std::string, Ed> eds;
static std::map<std::string, CountingExperiment *> exps;

template <typename T>
static T &in(std::map<std::string, T> &m, const J &n)
{
    auto it = m.find(n.str());
    if (it == m.end()) throw ScriptError("no object " + n.str());
    return it->second;
}
template <typename T>
static void put(std::map<std::string, T *> &m, const J &n, T *v)
{
    auto it = m.find(n.str());
    if (it != m.end()) delete it->second;
    m[n.str()] = v;
}
template <typename T>
static void clear(std::map<std::string, T *> &m)
{
    for (auto &x : m) delete x.second;
    m.clear();
}

static std::string str(const std::string &s) { return s; }
static AxisCollection axesOf(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals()));
    return c;
}
static Cut *cutOf(const J &c)
{
    const std::string &k = c["kind"].str();
    if (k == "bool") return new BoolCut(c["name"].str(), c["obs"].str(), c["a"].real());
    if (k == "box") return new BoxCut(c["name"].str(), c["obs"].str(), c["a"].real(), c["b"].real());
    if (k == "line") return new LineCut(c["name"].str(), c["obs"].str(), c["a"].real(), c["side"].str());
    throw ScriptError("cut " + k);
}
// everything a caller can read from a data set, by every route
static J dsJ(const OXSXDataSet &d)
{
    J r = J(JO());
    JA rows;
    bool same = true;
    for (size_t i = 0; i < d.GetNEntries(); i++)
    {
        Event e = d.GetEntry(i);
        std::vector<double> v = e.GetData();
        same = same && v.size() == e.GetNObservables();
        for (size_t k = 0; k < v.size(); k++) same = same && (v[k] == e.GetDatum(k) || std::isnan(v[k]));
        if (e.GetObservableNames() != d.GetObservableNames()) same = false;
        rows.push_back(J(v));
    }
    r.put("names", J(d.GetObservableNames()));
    r.put("n", same ? J(size_t(d.GetNEntries())) : J(-7));
    r.put("nobs", J(size_t(d.GetNObservables())));
    r.put("rows", J(rows));
    return r;
}
static J evJ(const Event &e)
{
    std::vector<double> v = e.GetData();
    std::vector<std::string> n = e.GetObservableNames();
    std::set<std::string> u(n.begin(), n.end());
    if (v.size() == n.size() && u.size() == n.size()) // by name as well
    {
        std::map<std::string, double> m = e.GetDataMap();
        for (size_t k = 0; k < n.size(); k++)
            if (!(m.at(n[k]) == v[k] || std::isnan(v[k]))) return obj({{"names", J(-1)}, {"data", J(v)}});
    }
    return obj({{"names", J(n)}, {"data", J(v)}});
}
static J logJ(const CutLog &g)
{
    JA c;
    for (int x : g.GetCutCounts()) c.push_back(J(x));
    return obj({{"names", J(g.GetCutNames())}, {"counts", J(c)}});
}
static J rowJ(const std::string &line)
{
    std::istringstream is(line);
    std::string name, c, pc, l, pl;
    is >> name >> c >> pc >> l >> pl;
    return obj({{"name", J(name)}, {"cut", J(int(atol(c.c_str())))}, {"pcut", J(strtod(pc.c_str(), 0))},
                {"left", J(int(atol(l.c_str())))}, {"pleft", J(strtod(pl.c_str(), 0))}});
}
static JA tablesOf(const std::string &s)
{
    JA r;
    std::istringstream is(s);
    std::string line;
    bool inside = false;
    while (std::getline(is, line))
    {
        if (line.compare(0, 4, "Cut ") == 0 && line.find("# cut") != std::string::npos) inside = true;
        else if (line.empty() || line[0] == '-') inside = false;
        else if (inside) r.push_back(rowJ(line));
    }
    return r;
}
// the titles, each between two lines of dashes, of the sections a report has before its summary
static JA headsOf(const std::string &s)
{
    JA r;
    std::vector<std::string> ls;
    std::istringstream is(s);
    std::string line;
    while (std::getline(is, line) && line.find("Summary") == std::string::npos) ls.push_back(line);
    auto dash = [](const std::string &l) { return l.size() && l.find_first_not_of('-') == std::string::npos; };
    for (size_t i = 1; i + 1 < ls.size(); i++)
        if (dash(ls[i - 1]) && dash(ls[i + 1]) && !dash(ls[i])) r.push_back(J(ls[i]));
    return r;
}
static std::vector<std::string> words(const std::string &l)
{
    std::istringstream is(l);
    std::vector<std::string> r;
    std::string w;
    while (is >> w) r.push_back(w);
    return r;
}
static J sumOf(const std::string &s)
{
    J r = J(JO());
    std::istringstream is(s);
    std::string line;
    bool bg = false;
    JA bgs;
    while (std::getline(is, line))
    {
        std::vector<std::string> w = words(line);
        if (line.compare(0, 10, "Background") == 0) { bg = true; continue; }
        if (line.compare(0, 7, "Total :") == 0 && w.size() == 5)
        {
            bg = false;
            r.put("total", J(strtod(w[2].c_str(), 0)));
            r.put("error", J(strtod(w[4].c_str(), 0)));
        }
        if (bg && w.size() == 4) bgs.push_back(J(JA{J(w[0]), J(strtod(w[1].c_str(), 0)), J(strtod(w[3].c_str(), 0))}));
        if (line.compare(0, 17, "Signal Efficiency") == 0 && w.size() == 3) r.put("eff", J(strtod(w[2].c_str(), 0)));
        if (line.compare(0, 9, "Observed:") == 0 && w.size() == 2) r.put("obs", J(int(atol(w[1].c_str()))));
    }
    r.put("bgs", J(bgs));
    return r;
}
static J parJ(EventSystematic *s)
{
    J r = J(JO());
    r.put("in", J(s->GetInObservables()));
    r.put("out", J(s->GetOutObservables()));
    ParameterDict d;
    J all = attempt([&]() { d = s->GetParameters(); r.put("names", J(s->GetParameterNames())); return okk(); });
    if (!all["ok"].yes())
    {
        // without a kernel there is nothing to ask for
        auto no = [](const std::function<void()> &f) { return !attempt([&]() { f(); return okk(); })["ok"].yes(); };
        r.put("bare", J(no([&]() { s->GetParameterNames(); }) && no([&]() { s->GetParameterCount(); }) &&
                        no([&]() { s->GetParameters(); }) && no([&]() { s->GetParameter("width"); })));
        return r;
    }
    r.put("bare", J(false));
    bool same = d.size() == s->GetParameterCount() && d.size() == 1 && s->GetParameterNames().size() == 1 &&
                d.begin()->first == *s->GetParameterNames().begin() &&
                s->GetParameter(d.begin()->first) == d.begin()->second;
    r.put("val", J(same ? d.begin()->second : std::nan("")));
    return r;
}
static J mJ(EDManager *m)
{
    J r = okk();
    r.put("norms", J(m->GetNormalisations()));
    r.put("n", J(m->GetNDists()));
    JA p;
    for (auto &x : m->GetParameters()) p.push_back(J(JA{J(x.first), J(x.second)}));
    r.put("pars", J(p));
    r.put("dims", J(m->GetNDists() ? m->GetNDims() : size_t(0)));
    // one by one, and by name
    std::set<std::string> names = m->GetParameterNames();
    if (names.size() != p.size() || m->GetParameterCount() != p.size()) r.put("n", J(-1));
    for (auto &x : m->GetParameters())
        if (!names.count(x.first) || !(m->GetParameter(x.first) == x.second || std::isnan(x.second))) r.put("n", J(-1));
    m->SetName("a name");
    if (m->GetName() != "a name") r.put("n", J(-1));
    return r;
}

static J withSrc(const J &ev, const std::function<J(const Event &)> &f)
{
    OXSXDataSet *d = in(ds, ev["d"]);
    std::vector<double> before, after;
    bool have = false;
    J r = attempt([&]() {
        Event e = d->GetEntry(ev["i"].num());
        have = true;
        Event keep = e;
        J out;
        try { out = f(e); }
        catch (...)
        {
            after = e.GetData();
            throw;
        }
        after = e.GetData();
        return out;
    });
    if (have)
    {
        // neither the event given nor the one in the data set moved
        before = d->GetEntry(ev["i"].num()).GetData();
        for (size_t k = 0; k < before.size(); k++)
            if (before.size() != after.size() || !(before[k] == after[k] || std::isnan(before[k]))) before.clear();
        r.put("src", J(before));
    }
    return r;
}

static bool alike(const std::vector<double> &a, const std::vector<double> &b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false;
    return true;
}
static std::string printed(const std::function<void()> &f)
{
    std::ostringstream os;
    std::streambuf *old = std::cout.rdbuf(os.rdbuf());
    try { f(); }
    catch (...) { std::cout.rdbuf(old); throw; }
    std::cout.rdbuf(old);
    return os.str();
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        clear(exps), clear(mans), clear(syss), clear(logs), clear(cuts), clear(own), clear(ds);
        for (auto &x : eds) x.second.drop();
        eds.clear();
        return okk();
    }
    // ---------------------------------------------------------------- data sets
    if (op == "NewDs") { put(ds, ev["d"], new OXSXDataSet()); return okk(); }
    if (op == "SetNames" || op == "AddEntry" || op == "DsState")
    {
        OXSXDataSet *d = in(ds, ev["d"]);
        J r = attempt([&]() {
            if (op == "SetNames") d->SetObservableNames(ev["names"].strs());
            if (ev.has("reserve")) d->Reserve(ev["reserve"].num());
            if (op == "AddEntry") d->AddEntry(Event(ev["row"].reals()));
            return okk();
        });
        r.put("ds", dsJ(*d));
        return r;
    }
    if (op == "CopyDs")
    {
        OXSXDataSet *d = in(ds, ev["d"]);
        if (ev.has("drop")) // the copy must not depend on the original living on
        {
            OXSXDataSet *c = new OXSXDataSet(*d), *c2 = new OXSXDataSet(*c);
            delete c;
            put(ds, ev["to"], c2);
            if (ev.has("gone")) { delete d; ds.erase(ev["d"].str()); }
        }
        else if (ds.count(ev["to"].str())) *ds[ev["to"].str()] = *d;
        else put(ds, ev["to"], new OXSXDataSet(*d));
        J r = okk();
        r.put("ds", dsJ(*ds[ev["to"].str()]));
        return r;
    }
    if (op == "Concat")
    {
        OXSXDataSet *d = in(ds, ev["d"]), *e = in(ds, ev["e"]);
        OXSXDataSet *c = 0;
        J r = attempt([&]() { c = new OXSXDataSet(*d + *e); return okk(); });
        if (c)
        {
            put(ds, ev["to"], c);
            r.put("ds", dsJ(*c));
        }
        return r;
    }
    if (op == "GetEntry")
    {
        OXSXDataSet *d = in(ds, ev["d"]);
        return attempt([&]() { return okv(evJ(d->GetEntry(ev["i"].num()))); });
    }
    if (op == "Datum") return withSrc(ev, [&](const Event &e) { return okv(J(e.GetDatum(ev["name"].str()))); });
    if (op == "DatumAt") return withSrc(ev, [&](const Event &e) { return okv(J(e.GetDatum(size_t(ev["k"].num())))); });
    if (op == "ToObs")
        return withSrc(ev, [&](const Event &e) {
            std::vector<std::string> n = ev["names"].strs();
            ObsSet o(n);
            if (o.GetNames() != n || o.GetNObservables() != n.size()) return bad("ObsSet");
            return okv(J(e.ToObsSet(o)));
        });
    if (op == "EvMut")
        return withSrc(ev, [&](const Event &e0) {
            Event e = e0;
            for (auto &m : ev["sets"].a)
            {
                if (m.has("name")) e.SetDatum(m["name"].str(), m["x"].real());
                else e.SetDatum(size_t(m["at"].num()), m["x"].real());
            }
            return okv(J(e.GetData()));
        });
    if (op == "FreeEv") // an event that belongs to no data set has numbers but no names
        return attempt([&]() {
            Event e(ev["row"].reals());
            if (ev.has("name")) return okv(J(e.GetDatum(ev["name"].str())));
            if (ev.has("put")) { e.SetDatum(ev["put"].str(), 1); return okv(J("0")); }
            if (ev.has("obs")) { e.ToObsSet(ObsSet(ev["obs"].strs())); return okv(J("0")); }
            return okv(J(e.GetDatum(size_t(ev["k"].num()))));
        });
    if (op == "RelIdx")
        return attempt([&]() {
            JA a;
            // sets that have had other names before
            ObsSet x(ev["in"].strs()), y(ev["of"].strs());
            x.SetNames(ev["of"].strs());
            y.SetNames(ev["in"].strs());
            for (size_t k : x.GetRelativeIndices(y)) a.push_back(J(k));
            if ((x == y) != (ev["of"].strs() == ev["in"].strs()) || (x != y) == (x == y)) return bad("ObsSet::==");
            if (x != ObsSet(ev["of"].strs()) || y != ObsSet(ev["in"].strs())) return bad("ObsSet::==");
            return okv(J(a));
        });
    // ---------------------------------------------------------------- cuts
    if (op == "NewCuts") { put(cuts, ev["c"], new CutCollection()); return okk(); }
    if (op == "AddCut")
    {
        CutCollection *c = in(cuts, ev["c"]);
        return attempt([&]() {
            std::unique_ptr<Cut> k(cutOf(ev["cut"]));
            c->AddCut(*k);
            return okk();
        });
    }
    if (op == "CopyCuts")
    {
        CutCollection *c = in(cuts, ev["c"]);
        if (cuts.count(ev["to"].str())) *cuts[ev["to"].str()] = *c; // maybe to itself
        else if (ev.has("assign"))
        {
            CutCollection *n = new CutCollection;
            n->AddCut(BoolCut("elsewhere", "e", 1));
            *n = *c;
            put(cuts, ev["to"], n);
        }
        else put(cuts, ev["to"], new CutCollection(*c));
        if (ev.has("drop")) { delete c; cuts.erase(ev["c"].str()); }
        return okk();
    }
    if (op == "CutNames") { CutCollection *c = in(cuts, ev["c"]); return okv(J(c->GetCutNames())); }
    if (op == "NewK") return attempt([&]() { put(own, ev["k"], cutOf(ev["cut"])); return okk(); });
    if (op == "KCopy")
    {
        Cut *k = in(own, ev["k"]);
        put(own, ev["to"], k->Clone());
        return okk();
    }
    if (op == "KAdd") { in(cuts, ev["c"])->AddCut(*in(own, ev["k"])); return okk(); }
    if (op == "KPass")
    {
        Cut *k = in(own, ev["k"]);
        return withSrc(ev, [&](const Event &e) { return okv(J(k->PassesCut(e))); });
    }
    if (op == "KSet" || op == "KGet")
    {
        Cut *k = in(own, ev["k"]);
        BoxCut *b = dynamic_cast<BoxCut *>(k);
        LineCut *l = dynamic_cast<LineCut *>(k);
        if (op == "KGet")
        {
            J r = J(JO());
            r.put("name", J(k->GetName()));
            if (b) r.put("a", J(b->GetLowerLimit())), r.put("b", J(b->GetUpperLimit()));
            if (l) r.put("a", J(l->GetCutValue())), r.put("side", J(l->GetSidedness()));
            return okv(r);
        }
        const std::string &f = ev["f"].str();
        return attempt([&]() {
            if (f == "side" && l) l->SetSidedness(ev["x"].str());
            else if (f == "a" && l) l->SetCutValue(ev["x"].real());
            else if (f == "a" && b) b->SetLowerLimit(ev["x"].real());
            else if (f == "b" && b) b->SetUpperLimit(ev["x"].real());
            else throw ScriptError("KSet " + f);
            return okk();
        });
    }
    if (op == "Pass")
    {
        CutCollection *c = in(cuts, ev["c"]);
        return withSrc(ev, [&](const Event &e) { return okv(J(c->PassesCuts(e))); });
    }
    if (op == "NewLog" || op == "NewLogOf")
    {
        CutLog *g = op == "NewLog" ? new CutLog(ev["names"].strs()) : new CutLog(in(cuts, ev["c"])->GetCutNames());
        put(logs, ev["g"], g);
        J r = okk();
        r.put("log", logJ(*g));
        return r;
    }
    if (op == "LogCut" || op == "LogPass")
    {
        CutLog *g = in(logs, ev["g"]);
        J r = attempt([&]() {
            if (op == "LogCut") g->LogCut(size_t(ev["k"].num()));
            else g->LogPass();
            return okk();
        });
        r.put("log", logJ(*g));
        return r;
    }
    if (op == "PassLog")
    {
        CutCollection *c = in(cuts, ev["c"]);
        CutLog *g = in(logs, ev["g"]);
        J r = withSrc(ev, [&](const Event &e) { return okv(J(c->PassesCuts(e, *g))); });
        r.put("log", logJ(*g));
        return r;
    }
    if (op == "QLog")
    {
        CutLog *g = in(logs, ev["g"]);
        return attempt([&]() {
            J r = okv(J(tablesOf(g->AsString())));
            if (printed([&] { g->Print(); }) != g->AsString() + "\n") return bad("CutLog::Print");
            g->CalculateMeta();
            r.put("pc", J(g->GetCutPercentages()));
            if (ev.has("nofile")) g->SaveAs("title", "no-such-directory/cutlog.txt");
            if (ev.has("file"))
            {
                std::ofstream("cutlog.txt") << std::string(9999, '?');   // what was there before
                g->SaveAs("title", "cutlog.txt");
                std::ifstream f("cutlog.txt");
                std::stringstream ss;
                ss << f.rdbuf();
                if (ss.str().find(g->AsString()) == std::string::npos || ss.str().find("Cut Log : title") == std::string::npos ||
                    ss.str().find('?') != std::string::npos)
                    return bad("CutLog::SaveAs");
            }
            return r;
        });
    }
    // ---------------------------------------------------------------- event systematics
    if (op == "NewSys")
    {
        const std::string &k = ev["kind"].str();
        EventSystematic *s = k == "shift"   ? (EventSystematic *)new EventShift(ev["s"].str())
                             : k == "scale" ? (EventSystematic *)new EventScale(ev["s"].str())
                             : k == "conv"  ? (EventSystematic *)new EventConvolution(ev["s"].str())
                                            : (EventSystematic *)new EventReconvolution(ev["s"].str());
        if (s->GetName() != ev["s"].str()) { delete s; return bad("name"); }
        put(syss, ev["s"], s);
        return okk();
    }
    if (op == "SysIn") { in(syss, ev["s"])->SetInObservables(ev["names"].strs()); return okk(); }
    if (op == "SysOut") { in(syss, ev["s"])->SetOutObservables(ev["names"].strs()); return okk(); }
    if (op == "SysVal" || op == "SysPar" || op == "SysRename")
    {
        EventSystematic *s = in(syss, ev["s"]);
        J r = attempt([&]() {
            if (op == "SysVal")
            {
                double x = ev["x"].real();
                if (EventShift *p = dynamic_cast<EventShift *>(s)) { p->SetShift(x); if (p->GetShift() != x) return bad("GetShift"); }
                else if (EventScale *p = dynamic_cast<EventScale *>(s)) { p->SetScale(x); if (p->GetScale() != x) return bad("GetScale"); }
                else if (EventReconvolution *p = dynamic_cast<EventReconvolution *>(s)) p->SetCorrection(x);
                else s->SetParameter(s->GetParameterNames().empty() ? "" : *s->GetParameterNames().begin(), x);
            }
            else if (op == "SysPar")
            {
                if (ev.has("dict"))
                {
                    ParameterDict d;
                    d[ev["name"].str()] = ev["x"].real();
                    d["zzz other"] = 17;
                    s->SetParameters(d);
                }
                else s->SetParameter(ev["name"].str(), ev["x"].real());
            }
            else s->RenameParameter(ev["from"].str(), ev["to"].str());
            return okk();
        });
        r.put("par", parJ(s));
        return r;
    }
    if (op == "SysKern")
    {
        EventConvolution *s = dynamic_cast<EventConvolution *>(in(syss, ev["s"]));
        const std::string &how = ev["how"].str();
        J r = attempt([&]() {
            // the systematic keeps a kernel of its own
            if (how == "none") { if (ev.has("cond")) s->SetConditionalPDF(NULL); else s->SetPDF(NULL); }
            else if (how == "cond") { CondKernel k; s->SetConditionalPDF(&k); k.SetParameter("width", 99); }
            else { Kernel k(how == "wide" ? 2 : 1); s->SetPDF(&k); k.SetParameter("width", 99); }
            return okk();
        });
        r.put("par", parJ(s));
        return r;
    }
    if (op == "Apply" || op == "ApplyMan")
    {
        draws.clear();
        drawn = 0;
        if (ev.has("u")) draws = ev["u"].reals();
    }
    if (op == "Apply")
    {
        EventSystematic *s = in(syss, ev["s"]);
        J r = withSrc(ev, [&](const Event &e) { return okv(evJ((*s)(e))); });
        r.put("used", J(drawn));
        return r;
    }
    if (op == "NewMan") { put(mans, ev["m"], new EventSystematicManager()); return okk(); }
    if (op == "ManAdd" || op == "ManClear")
    {
        EventSystematicManager *m = in(mans, ev["m"]);
        if (op == "ManAdd") m->Add(in(syss, ev["s"]));
        else m->Clear();
        J r = okk();
        r.put("n", J(m->GetNSystematics() == m->GetSystematics().size() ? m->GetNSystematics() : size_t(999)));
        return r;
    }
    if (op == "ApplyMan")
    {
        EventSystematicManager *m = in(mans, ev["m"]);
        J r = withSrc(ev, [&](const Event &e) { return okv(evJ(m->ApplySystematics(e))); });
        r.put("used", J(drawn));
        return r;
    }
    // ---------------------------------------------------------------- distributions
    if (op == "NewB")
    {
        Ed e;
        e.b = new BinnedED(ev["name"].str(), axesOf(ev["axes"]));
        e.p = e.b;
        e.b->SetBinContents(ev["c"].reals());
        e.b->SetObservables(ev["obs"].strs());
        if (eds.count(ev["h"].str())) eds[ev["h"].str()].drop();
        eds[ev["h"].str()] = e;
        return e.b->GetObservables() == ev["obs"].strs() ? okk() : bad("observables");
    }
    if (op == "NewA")
    {
        TestPDF f(ev["k"].real(), ev["co"].reals());
        Ed e;
        e.a = new AnalyticED(ev["name"].str(), &f);
        e.p = e.a;
        e.a->SetObservables(ObsSet(ev["obs"].strs()));
        f.SetParameter("k", 12345); // the distribution has its own copy
        if (eds.count(ev["h"].str())) eds[ev["h"].str()].drop();
        eds[ev["h"].str()] = e;
        return e.a->GetObservables() == ObsSet(ev["obs"].strs()) ? okk() : bad("observables");
    }
    if (op == "NewC")
    {
        std::vector<EventDistribution *> ps;
        for (auto &n : ev["parts"].a) ps.push_back(in(eds, n).p);
        Ed e;
        if (ps.size() == 2 && ev.has("times")) e.p = new CompositeED(*ps[0] * *ps[1]);
        else if (ps.size() == 2 && !ev.has("vec")) e.p = new CompositeED(ps[0], ps[1]);
        else e.p = new CompositeED(ps);
        if (eds.count(ev["h"].str())) eds[ev["h"].str()].drop();
        eds[ev["h"].str()] = e;
        return okk();
    }
    if (op == "CloneEd")
    {
        Ed &o = in(eds, ev["h"]);
        Ed e;
        if (o.m)
        {
            o.m->SetName("the name of the copied one");
            if (eds.count(ev["to"].str()) && eds[ev["to"].str()].m) *eds[ev["to"].str()].m = *o.m; // maybe to itself
            else
            {
                if (ev.has("assign")) { e.m = new EDManager; *e.m = *o.m; }
                else e.m = new EDManager(*o.m);
                if (eds.count(ev["to"].str())) eds[ev["to"].str()].drop();
                eds[ev["to"].str()] = e;
            }
            const bool named = eds[ev["to"].str()].m->GetName() == "the name of the copied one";
            if (ev.has("drop")) { eds[ev["h"].str()].drop(); eds.erase(ev["h"].str()); }
            return named ? okk() : bad("another name");
        }
        if (o.b && ev.has("copy")) e.p = new BinnedED(*o.b);
        else if (o.a && ev.has("copy")) e.p = new AnalyticED(*o.a);
        else if (CompositeED *c = ev.has("copy") ? dynamic_cast<CompositeED *>(o.p) : 0) e.p = new CompositeED(*c);
        else e.p = o.p->Clone();
        if (ev.has("assign") && eds.count(ev["to"].str())) // assign to what is there, if it is of the same class
        {
            EventDistribution *t = eds[ev["to"].str()].p;
            CompositeED *ct = dynamic_cast<CompositeED *>(t), *cf = dynamic_cast<CompositeED *>(o.p);
            bool done = true;
            if (o.b && eds[ev["to"].str()].b) *eds[ev["to"].str()].b = *o.b;
            else if (o.a && eds[ev["to"].str()].a) *eds[ev["to"].str()].a = *o.a;
            else if (ct && cf) *ct = *cf;
            else done = false;
            if (done)
            {
                delete e.p;
                if (ev.has("drop")) { eds[ev["h"].str()].drop(); eds.erase(ev["h"].str()); }
                return okk();
            }
        }
        if (ev["to"].str() == ev["h"].str()) throw ScriptError("self copy");
        e.b = dynamic_cast<BinnedED *>(e.p);
        e.a = dynamic_cast<AnalyticED *>(e.p);
        if (eds.count(ev["to"].str())) eds[ev["to"].str()].drop();
        eds[ev["to"].str()] = e;
        if (ev.has("drop")) { eds[ev["h"].str()].drop(); eds.erase(ev["h"].str()); }
        return okk();
    }
    if (op == "SetObsEd")
    {
        Ed &e = in(eds, ev["h"]);
        if (e.b) e.b->SetObservables(ev["obs"].strs());
        else e.a->SetObservables(ObsSet(ev["obs"].strs()));
        return okk();
    }
    if (op == "RenameEd") { in(eds, ev["h"]).p->SetName(ev["name"].str()); return okk(); }
    if (op == "SetK")
    {
        AnalyticED *a = in(eds, ev["h"]).a;
        return attempt([&]() {
            if (ev.has("dict")) a->SetParameters({{"k", ev["k"].real()}, {"other", 3.}});
            else a->SetParameter("k", ev["k"].real());
            if (a->GetParameter("k") != ev["k"].real() || a->GetParameterCount() != 1 || a->GetParameterNames() != std::set<std::string>{"k"} ||
                a->GetParameters() != ParameterDict{{"k", ev["k"].real()}})
                return bad("AnalyticED parameters");
            return okk();
        });
    }
    if (op == "NormEd") { in(eds, ev["h"]).p->Normalise(); return okk(); }
    if (op == "ProbEd")
    {
        Ed &e = in(eds, ev["h"]);
        return withSrc(ev, [&](const Event &x) { return okv(J(e.m ? e.m->Probability(x) : e.p->Probability(x))); });
    }
    if (op == "InfoEd")
    {
        Ed &e = in(eds, ev["h"]);
        return okv(obj({{"dims", J(size_t(e.p->GetNDims()))}, {"int", J(e.p->Integral())}, {"name", J(e.p->GetName())}}));
    }
    if (op == "FillEv")
    {
        Ed &e = in(eds, ev["h"]);
        J r = withSrc(ev, [&](const Event &x) { e.b->Fill(x, ev["w"].real()); return okk(); });
        r.put("c", J(e.b->GetBinContents()));
        return r;
    }
    if (op == "NewM")
    {
        if (eds.count(ev["h"].str())) eds[ev["h"].str()].drop();
        Ed e;
        e.m = new EDManager();
        eds[ev["h"].str()] = e;
        return okk();
    }
    if (op == "AddM" || op == "NormsM" || op == "ParM" || op == "ParsM" || op == "RenM" || op == "CopyM")
    {
        EDManager *m = in(eds, ev["h"]).m;
        if (op == "CopyM")
        {
            Ed e;
            m->SetName("the name of the copied one");
            if (ev.has("assign"))
            {
                // over what is there already, if something is
                if (eds.count(ev["to"].str()) && eds[ev["to"].str()].m) e.m = eds[ev["to"].str()].m;
                else e.m = new EDManager();
                *e.m = *m;
            }
            else
            {
                e.m = new EDManager(*m);
                if (eds.count(ev["to"].str())) eds[ev["to"].str()].drop();
            }
            m = e.m;
            eds[ev["to"].str()] = e;
        }
        J r = attempt([&]() {
            if (op == "CopyM") return m->GetName() == "the name of the copied one" ? okk() : bad("another name");
            if (op == "ParsM") { m->SetParameters(ev["vals"].dict()); return okk(); }
            if (op == "RenM") { m->RenameParameter(ev["from"].str(), ev["to"].str()); return okk(); }
            if (op == "AddM") { if (ev.has("vec")) m->AddDists({in(eds, ev["p"]).p}); else m->AddDist(in(eds, ev["p"]).p); }
            else if (op == "NormsM") m->SetNormalisations(ev["norms"].reals());
            else m->SetParameter(ev["name"].str(), ev["x"].real());
            return okk();
        });
        J s = mJ(m);
        r.put("norms", s["norms"]), r.put("n", s["n"]), r.put("pars", s["pars"]), r.put("dims", s["dims"]);
        return r;
    }
    if (op == "FillDist")
    {
        Ed &e = in(eds, ev["h"]);
        OXSXDataSet *d = in(ds, ev["d"]);
        CutCollection *c = in(cuts, ev["c"]);
        CutLog *g = ev.has("g") ? in(logs, ev["g"]) : 0;
        EventSystematicManager none, *m = ev.has("m") ? in(mans, ev["m"]) : &none;
        long n = ev["n"].num();
        J r = attempt([&]() {
            if (g)
            {
                if (n < 0 && !ev.has("m")) DistFiller::FillDist(*e.b, *d, *c, *g);
                else DistFiller::FillDist(*e.b, *d, *c, *g, *m, n);
            }
            else if (n < 0 && !ev.has("m")) DistFiller::FillDist(*e.b, *d, *c);
            else DistFiller::FillDist(*e.b, *d, *c, *m, n);
            return okk();
        });
        r.put("c", J(e.b->GetBinContents()));
        if (g) r.put("log", logJ(*g));
        return r;
    }
    // ---------------------------------------------------------------- counting
    if (op == "NewExp") { put(exps, ev["x"], new CountingExperiment()); return okk(); }
    if (op.compare(0, 3, "Exp") == 0 || op.compare(0, 5, "Count") == 0)
    {
        CountingExperiment *x = in(exps, ev["x"]);
        if (op == "ExpCut") { std::unique_ptr<Cut> k(cutOf(ev["cut"])); x->AddCut(*k); return okk(); }
        if (op == "ExpSys") { x->AddSystematic(in(syss, ev["s"]), ev["s"].str()); return okk(); }
        if (op == "ExpBg") { x->AddBackground(in(ds, ev["d"]), ev["rate"].real(), ev["name"].str()); return okk(); }
        if (op == "ExpSig") { x->SetSignal(in(ds, ev["d"]), ev["name"].str()); return okk(); }
        if (op == "CountData") return attempt([&]() { x->CountData(in(ds, ev["d"])); return okk(); });
        if (op == "CountSig") return attempt([&]() { x->CountSignal(); return okk(); });
        if (op == "CountBg") return attempt([&]() { x->CountBackgrounds(); return okk(); });
        if (op == "ExpResult")
            return attempt([&]() {
                CountingResult q = x->GetCountingResult();
                J r = okv(obj({{"obs", J(q.GetObservedCounts())}, {"eff", J(q.GetSignalEfficiency())}, {"total", J(q.GetExpectedCounts())},
                               {"error", J(q.GetExpectedCountError())}, {"rates", J(q.GetExpectedRates())},
                               {"errors", J(q.GetExpectedRateErrors())}}));
                std::string s = q.AsString();
                r.put("tables", J(tablesOf(s)));
                r.put("sum", sumOf(s));
                r.put("heads", J(headsOf(s)));
                std::ofstream("counting.txt") << std::string(9999, '?');   // what was there before
                q.SaveAs("counting.txt");
                std::ifstream f("counting.txt");
                std::stringstream ss;
                ss << f.rdbuf();
                if (ss.str().find(s) == std::string::npos || ss.str().find('?') != std::string::npos) return bad("CountingResult::SaveAs");
                if (printed([&] { q.Print(); }) != s + "\n") return bad("CountingResult::Print");
                // what is printed stays as it was
                if (q.AsString() != s || !alike(r["v"]["rates"].reals(), q.GetExpectedRates()) || !alike(r["v"]["errors"].reals(), q.GetExpectedRateErrors()))
                    return bad("CountingResult after AsString");
                return r;
            });
    }
    throw ScriptError("unknown op " + op);
}
DRV_MAIN
