// Conformance driver for spec/HistSys.tla: Histogram, BinnedED, HistTools, BinnedEDShrinker.
#include "drv.h"
#include <AxisCollection.h>
#include <BinAxis.h>
#include <BinnedED.h>
#include <BinnedEDShrinker.h>
#include <Event.h>
#include <HistTools.h>
#include <Histogram.h>

// a handle is a Histogram ("H") or a BinnedED ("B"): same operations through either class
struct Obj
{
    bool isB;
    Histogram h;
    BinnedED b;
    Obj() : isB(false) {}
};
static std::map<std::string, Obj> hs;
static std::map<std::string, BinnedEDShrinker> shr;

static Obj &get(const J &n)
{
    auto it = hs.find(n.str());
    if (it == hs.end()) throw ScriptError("no histogram " + n.str());
    return it->second;
}
static BinnedEDShrinker &getS(const J &n)
{
    auto it = shr.find(n.str());
    if (it == shr.end()) throw ScriptError("no shrinker " + n.str());
    return it->second;
}
static BinAxis axisOf(const J &a)
{
    if (a.has("latex")) return BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals(), a["latex"].str());
    return BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals());
}
static AxisCollection axesOf(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(axisOf(a));
    return c;
}
static J axesJ(const AxisCollection &c)
{
    JA r;
    for (size_t d = 0; d < c.GetNDimensions(); d++)
    {
        const BinAxis &a = c.GetAxis(d);
        r.push_back(obj({{"name", J(a.GetName())}, {"latex", J(a.GetLatexName())}, {"lo", J(a.GetBinLowEdges())}, {"hi", J(a.GetBinHighEdges())}}));
    }
    return J(r);
}
static std::vector<double> contents(const Obj &o)
{
    std::vector<double> c = o.isB ? o.b.GetBinContents() : o.h.GetBinContents(), d;
    size_t n = o.isB ? o.b.GetNBins() : o.h.GetNBins();
    for (size_t k = 0; k < n; k++) d.push_back(o.isB ? o.b.GetBinContent(k) : o.h.GetBinContent(k));
    if (c.size() != d.size()) return {};
    for (size_t k = 0; k < c.size(); k++)
        if (!(c[k] == d[k] || (std::isnan(c[k]) && std::isnan(d[k])))) return {};
    return c;
}
static const AxisCollection &axes(const Obj &o) { return o.isB ? o.b.GetAxes() : o.h.GetAxes(); }
static void describe(J &r, const Obj &o)
{
    r.put("c", J(contents(o)));
    r.put("axes", axesJ(axes(o)));
    size_t nd = o.isB ? o.b.GetNDims() : o.h.GetNDims();
    if (nd != axes(o).GetNDimensions()) r.put("c", J(-1));
    if (o.isB) r.put("obs", J(o.b.GetObservables()));
}
template <typename T>
static JA family(const std::vector<T> &v)
{
    JA r;
    for (auto &h : v) r.push_back(obj({{"names", J(h.GetAxes().GetAxisNames())}, {"c", J(h.GetBinContents())}}));
    return r;
}
#define BOTH(call) (o.isB ? o.b.call : o.h.call)

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset") { hs.clear(); shr.clear(); return okk(); }
    if (op == "New" || op == "NewWith")
    {
        J r = attempt([&] {
            Obj o;
            o.isB = ev["kind"].str() == "B";
            AxisCollection a = axesOf(ev["axes"]);
            if (o.isB) o.b = BinnedED(ev["h"].str(), a);
            else o.h = Histogram(a);
            if (op == "NewWith") BOTH(SetBinContents(ev["c"].reals()));
            hs[ev["h"].str()] = o;
            return okk();
        });
        J d = r;
        if (r["ok"].yes()) describe(d, get(ev["h"]));
        return d;
    }
    if (op == "NewShr") { shr[ev["s"].str()] = BinnedEDShrinker(); return okk(); }
    if (op == "SetBuffer")
        return attempt([&] { getS(ev["s"]).SetBuffer(ev["name"].str(), ev["lo"].num(), ev["hi"].num()); return okk(); });
    if (op == "SetOv")
        return attempt([&] { getS(ev["s"]).SetUsingOverflows(ev["b"].yes()); return okv(getS(ev["s"]).GetUsingOverflows()); });
    if (op == "GetBuffer")
        return attempt([&] {
            auto p = getS(ev["s"]).GetBuffer(ev["name"].str());
            auto all = getS(ev["s"]).GetBuffers();
            if (all.at(ev["name"].str()) != p) return bad("GetBuffers");
            return okv(JA{J(long(p.first)), J(long(p.second))});
        });
    if (op == "ShrinkAxis")
        return attempt([&] {
            const J &a = ev["axis"];
            BinAxis x = getS(ev["s"]).ShrinkAxis(axisOf(a), ev["lo"].num(), ev["hi"].num());
            return okv(obj({{"name", J(x.GetName())}, {"latex", J(x.GetLatexName())}, {"lo", J(x.GetBinLowEdges())}, {"hi", J(x.GetBinHighEdges())}}));
        });

    Obj &o = get(ev["h"]);
    if (op == "Copy" || op == "Marg" || op == "Slice" || op == "ShrinkDist")
    {
        Obj n;
        n.isB = o.isB;
        J r = attempt([&] {
            if (op == "Copy")
            {
                if (ev.has("assign") && hs.count(ev["to"].str())) { n = hs[ev["to"].str()]; }
                if (ev["to"].str() == ev["h"].str()) o = o;
                n = Obj(o);
            }
            else if (op == "Marg")
            {
                std::vector<std::string> w = ev["names"].strs();
                bool one = w.size() == 1 && ev.has("one");
                if (o.isB) n.b = one ? o.b.Marginalise(w[0]) : o.b.Marginalise(w);
                else n.h = one ? o.h.Marginalise(w[0]) : o.h.Marginalise(w);
            }
            else if (op == "Slice")
            {
                std::map<std::string, size_t> f;
                for (auto &p : ev["fixed"].a) f[p[0].str()] = p[1].num();
                if (o.isB) n.b = o.b.GetSlice(f);
                else n.h = o.h.GetSlice(f);
            }
            else
            {
                if (o.isB) n.b = getS(ev["s"]).ShrinkDist(o.b);
                else
                {
                    BinnedED tmp("tmp", o.h);
                    n.h = getS(ev["s"]).ShrinkDist(tmp).GetHistogram();
                }
            }
            return okk();
        });
        r.put("c2", J(contents(o)));
        if (r["ok"].yes())
        {
            if (op == "Copy" && ev.has("drop")) hs.erase(ev["h"].str());
            describe(r, n);
            hs[ev["to"].str()] = n;
        }
        return r;
    }
    if (op == "SetMap")
    {
        J r = attempt([&] {
            if (o.isB) getS(ev["s"]).SetBinMap(o.b);
            else
            {
                BinnedED tmp("tmp", o.h);
                getS(ev["s"]).SetBinMap(tmp);
            }
            return okk();
        });
        r.put("c2", J(contents(o)));
        return r;
    }
    if (op == "Projs")
        return attempt([&] {
            return o.isB ? okv(family(HistTools::GetVisualisableProjections(o.b)))
                         : okv(family(HistTools::GetVisualisableProjections(o.h)));
        });
    if (op == "Slices1")
        return attempt([&] {
            return o.isB ? okv(family(HistTools::Get1DSlices(o.b, ev["axis"].str())))
                         : okv(family(HistTools::Get1DSlices(o.h, ev["axis"].str())));
        });
    if (op == "Family")
        return attempt([&] {
            std::vector<std::string> one;
            std::set<std::pair<std::string, std::string>> two;
            for (auto &c : ev["combs"].a)
                if (c.size() == 1) one.push_back(c[0].str());
                else two.insert({c[0].str(), c[1].str()});
            std::map<std::string, Histogram> m = HistTools::MakeAllHists(axes(o), one), m2 = HistTools::MakeAllHists(axes(o), two);
            m.insert(m2.begin(), m2.end());
            for (auto &f : ev["fills"].a) HistTools::FillAllHists(m, f.dict());
            JA r;
            for (auto &p : m) r.push_back(obj({{"names", J(p.second.GetAxisNames())}, {"c", J(p.second.GetBinContents())}}));
            return okv(r);
        });
    if (op == "Lattice")
        return attempt([&] {
            std::vector<std::vector<double>> locs;
            const Histogram &h = o.isB ? o.b.GetHistogram() : o.h;
            std::vector<double> v = h.GetLatticePointValues(ev["vals"].reals(), locs);
            JA l;
            for (auto &x : locs) l.push_back(J(x));
            return okv(obj({{"vals", J(v)}, {"locs", J(l)}}));
        });

    if (op == "Where" || op == "BinAt" || op == "AxisNo")
    {
        const Histogram &h = o.isB ? o.b.GetHistogram() : o.h;
        J r;
        if (op == "Where")
        {
            std::vector<double> v = ev["vals"].reals();
            std::vector<std::function<J()>> ways = {[&] { return J(h.FindBin(v)); }};
            if (o.isB) ways.push_back([&] { return J(o.b.FindBin(v)); });
            if (o.isB && o.b.GetObservables().size() == v.size())
                // the same point as an event, its observables in another order
                ways.push_back([&] {
                    std::vector<std::string> names = o.b.GetObservables();
                    std::vector<double> w = v;
                    std::reverse(w.begin(), w.end());
                    std::reverse(names.begin(), names.end());
                    Event e(w);
                    e.SetObservableNames(&names);
                    return J(o.b.FindBin(e));
                });
            if (v.size() == 1) ways.push_back([&] { return J(h.FindBin(v[0])); });
            r = together(ways);
            if (r["ok"].yes())
            {
                JA all = r["v"].a;
                for (auto &x : all) if (x.num() != all[0].num()) r = bad("FindBin");
                if (r["ok"].yes()) r = okv(all[0]);
            }
        }
        else if (op == "AxisNo")
            r = attempt([&] { return okv(h.GetAxisIndex(ev["name"].str())); });
        else
        {
            size_t b = ev["b"].num(), nd = h.GetNDims();
            bool room = ev.has("room");
            std::vector<double> l(room ? ev["room"].num() : nd, 77), u = l, c = l;
            r = together({[&] { h.GetBinLowEdges(b, l); return J(l); }, [&] { h.GetBinHighEdges(b, u); return J(u); },
                          [&] { h.GetBinCentres(b, c); return J(c); }});
            J one = together({[&] { JA x; for (size_t d = 0; d < nd; d++) x.push_back(h.GetBinLowEdge(b, d)); return J(x); },
                              [&] { JA x; for (size_t d = 0; d < nd; d++) x.push_back(h.GetBinHighEdge(b, d)); return J(x); },
                              [&] { JA x; for (size_t d = 0; d < nd; d++) x.push_back(h.GetBinCentre(b, d)); return J(x); },
                              [&] { return J(h.UnpackIndices(b)); },
                              [&] { return o.isB ? J(o.b.UnpackIndices(b)) : J(h.UnpackIndices(b)); }});
            J beyond = together({[&] { return J(h.GetBinLowEdge(b, nd)); }, [&] { return J(h.GetBinHighEdge(b, nd)); },
                                 [&] { return J(h.GetBinCentre(b, nd)); }});
            if (beyond["ok"].yes() || beyond["err"].str() == "crash") r = bad("an axis that does not exist");
            else if (!room && one["ok"].yes() != r["ok"].yes()) r = bad("BinAt");
            else if (r["ok"].yes())
            {
                const JA &x = one["v"].a, &y = r["v"].a;
                std::vector<size_t> idx = x[3].sizes();
                if (idx != x[4].sizes() || h.FlattenIndices(idx) != b || (o.isB && o.b.FlattenIndices(idx) != b)) r = bad("indices");
                else if (x[0].reals() != y[0].reals() || x[1].reals() != y[1].reals() || x[2].reals() != y[2].reals()) r = bad("edges");
                else r = okv(obj({{"idx", J(idx)}, {"lo", y[0]}, {"hi", y[1]}, {"ctr", y[2]}}));
            }
        }
        r.put("c", J(contents(o)));
        return r;
    }

    J r = attempt([&] {
        if (op == "SetObs") { if (o.isB) o.b.SetObservables(ev["names"].strs()); return okk(); }
        if (op == "Fill")
        {
            std::vector<double> v = ev["vals"].reals();
            double w = ev["w"].real();
            if (ev.has("one") && v.size() == 1) { if (o.isB) o.b.Fill(v[0], w); else o.h.Fill(v[0], w); }
            else if (ev.has("unit") && w == 1) { if (o.isB) o.b.Fill(v); else o.h.Fill(v); }
            else { if (o.isB) o.b.Fill(v, w); else o.h.Fill(v, w); }
            return okk();
        }
        if (op == "FillMap")
        {
            if (o.isB)
            {
                Histogram h = o.b.GetHistogram();
                h.Fill(ev["m"].dict(), ev["w"].real());
                o.b.SetHistogram(h);
            }
            else o.h.Fill(ev["m"].dict(), ev["w"].real());
            return okk();
        }
        if (op == "SetBin") { BOTH(SetBinContent(ev["b"].num(), ev["x"].real())); return okk(); }
        if (op == "AddBin") { BOTH(AddBinContent(ev["b"].num(), ev["x"].real())); return okk(); }
        if (op == "GetBin") return okv(BOTH(GetBinContent(ev["b"].num())));
        if (op == "SetAll") { BOTH(SetBinContents(ev["x"].reals())); return okk(); }
        if (op == "Scale") { BOTH(Scale(ev["k"].real())); return okk(); }
        if (op == "Normalise") { BOTH(Normalise()); return okk(); }
        if (op == "Empty") { BOTH(Empty()); return okk(); }
        if (op == "Pad")
        {
            // the smallest normal number is what it pads with when not told
            if (ev["p"].real() == std::numeric_limits<double>::min()) BOTH(AddPadding());
            else BOTH(AddPadding(ev["p"].real()));
            return okk();
        }
        if (op == "Integral") return okv(BOTH(Integral()));
        if (op == "Range")
        {
            const Histogram &h = o.isB ? o.b.GetHistogram() : o.h;
            return okv(h.Integral(ev["a"].real(), ev["b"].real()));
        }
        if (op == "Means") return okv(BOTH(Means()));
        if (op == "Vars") return okv(BOTH(Variances()));
        if (op == "Prob") // of a vector: only binned distributions have it
        {
            if (o.isB) return okv(o.b.Probability(ev["vals"].reals()));
            BinnedED tmp("tmp", o.h);
            return okv(tmp.Probability(ev["vals"].reals()));
        }
        if (op == "Add" || op == "Mul" || op == "Div")
        {
            Obj &g = get(ev["g"]);
            if (o.isB)
            {
                BinnedED t = g.isB ? g.b : BinnedED("t", g.h);
                BinnedED &u = g.isB ? g.b : t;
                if (op == "Add") o.b.Add(u, ev["w"].real());
                else if (op == "Mul") o.b.Multiply(u);
                else o.b.Divide(u);
            }
            else
            {
                const Histogram &u = g.isB ? g.b.GetHistogram() : g.h;
                if (op == "Add") { if (ev["w"].real() == 1 && ev.has("unit")) o.h.Add(u); else o.h.Add(u, ev["w"].real()); }
                else if (op == "Mul") o.h.Multiply(u);
                else o.h.Divide(u);
            }
            return okk();
        }
        throw ScriptError("unknown op " + op);
    });
    r.put("c", J(contents(o)));
    if (ev.has("g")) r.put("c2", J(contents(get(ev["g"]))));
    return r;
}
DRV_MAIN
