// Conformance driver for spec/AxesSys.tla: BinAxis and AxisCollection.
#include "drv.h"
#include <BinAxis.h>
#include <AxisCollection.h>

static std::map<std::string, BinAxis> axs;
static std::map<std::string, AxisCollection> cols;

static const BinAxis &ax(const J &h)
{
    auto it = axs.find(h.str());
    if (it == axs.end()) throw ScriptError("no axis " + h.str());
    return it->second;
}
static AxisCollection &col(const J &c)
{
    auto it = cols.find(c.str());
    if (it == cols.end()) throw ScriptError("no collection " + c.str());
    return it->second;
}
static J axisObs(const BinAxis &a)
{
    std::vector<double> lo, hi, ct, wd;
    for (size_t k = 0; k < a.GetNBins(); k++)
    {
        lo.push_back(a.GetBinLowEdge(k));
        hi.push_back(a.GetBinHighEdge(k));
        ct.push_back(a.GetBinCentre(k));
        wd.push_back(a.GetBinWidth(k));
    }
    if (lo != a.GetBinLowEdges() || hi != a.GetBinHighEdges() || ct != a.GetBinCentres())
        lo.clear(); // the two ways of reading an axis disagree: reported as an axis without bins
    return obj({{"n", J(a.GetNBins())}, {"name", J(a.GetName())}, {"latex", J(a.GetLatexName())},
                {"lo", J(lo)}, {"hi", J(hi)}, {"ctr", J(ct)}, {"wid", J(wd)},
                {"min", J(a.GetMin())}, {"max", J(a.GetMax())}});
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset") { axs.clear(); cols.clear(); return okk(); }
    if (op == "NewEq")
        return attempt([&] {
            BinAxis a(ev["name"].str(), ev["min"].real(), ev["max"].real(), size_t(ev["n"].num()), ev["latex"].str());
            axs.erase(ev["h"].str());
            axs.insert({ev["h"].str(), a});
            return okv(axisObs(ax(ev["h"])));
        });
    if (op == "NewEdge")
        return attempt([&] {
            BinAxis a(ev["name"].str(), ev["lo"].reals(), ev["hi"].reals(), ev["latex"].str());
            axs.erase(ev["h"].str());
            axs.insert({ev["h"].str(), a});
            return okv(axisObs(ax(ev["h"])));
        });
    if (op == "AxisFind")
        return attempt([&] { return okv(ax(ev["h"]).FindBin(ev["v"].real())); });
    if (op == "AxisBin")
    {
        const BinAxis &a = ax(ev["h"]);
        size_t i = ev["i"].num();
        return together({[&] { return J(a.GetBinLowEdge(i)); }, [&] { return J(a.GetBinHighEdge(i)); },
                         [&] { return J(a.GetBinCentre(i)); }, [&] { return J(a.GetBinWidth(i)); }});
    }
    if (op == "AxisEq")
        return attempt([&] {
            bool e = ax(ev["h"]) == ax(ev["g"]);
            bool n = ax(ev["h"]) != ax(ev["g"]);
            return e == n ? bad("two accessors disagree") : okv(e);
        });
    if (op == "NewCol") { cols[ev["c"].str()] = AxisCollection(); return okk(); }
    if (op == "AddAxis")
    {
        AxisCollection &c = col(ev["c"]);
        const BinAxis &a = ax(ev["h"]);
        J r = attempt([&] { c.AddAxis(a); return okk(); });
        r.put("obs", obj({{"names", J(c.GetAxisNames())}, {"nb", J(c.GetNBins())}, {"nd", J(c.GetNDimensions())}}));
        return r;
    }
    if (op == "AddAxes")
    {
        AxisCollection &c = col(ev["c"]);
        std::vector<BinAxis> as;
        for (const std::string &h : ev["hs"].strs()) as.push_back(ax(J(h)));
        J r = attempt([&] { c.AddAxes(as); return okk(); });
        r.put("obs", obj({{"names", J(c.GetAxisNames())}, {"nb", J(c.GetNBins())}, {"nd", J(c.GetNDimensions())}}));
        return r;
    }
    if (op == "ColFind")
        return attempt([&] { return okv(col(ev["c"]).FindBin(ev["vals"].reals())); });
    if (op == "Flatten")
        return attempt([&] { return okv(col(ev["c"]).FlattenIndices(ev["idx"].sizes())); });
    if (op == "Unpack")
        return attempt([&] {
            AxisCollection &c = col(ev["c"]);
            size_t b = ev["bin"].num();
            std::vector<size_t> u = c.UnpackIndices(b), w;
            for (size_t d = 0; d < c.GetNDimensions(); d++) w.push_back(c.UnflattenIndex(b, d));
            return u == w ? okv(u) : bad("two accessors disagree");
        });
    if (op == "ColBin")
    {
        AxisCollection &c = col(ev["c"]);
        size_t b = ev["bin"].num(), d = ev["dim"].num();
        return together({[&] { return J(c.GetBinLowEdge(b, d)); }, [&] { return J(c.GetBinHighEdge(b, d)); },
                         [&] { return J(c.GetBinCentre(b, d)); }, [&] { return J(c.GetBinWidth(b, d)); }});
    }
    if (op == "ColBinAll")
    {
        AxisCollection &c = col(ev["c"]);
        size_t b = ev["bin"].num();
        // the room offered for the answer, with something in it already
        std::vector<double> l(ev.has("room") ? ev["room"].num() : c.GetNDimensions(), 77), h = l, m = l;
        return together({[&] { c.GetBinLowEdges(b, l); return J(l); }, [&] { c.GetBinHighEdges(b, h); return J(h); },
                         [&] { c.GetBinCentres(b, m); return J(m); }});
    }
    if (op == "ColAxis")
        return attempt([&] {
            AxisCollection &c = col(ev["c"]);
            size_t i = c.GetAxisIndex(ev["name"].str());
            return okv(obj({{"idx", J(i)}, {"ax", axisObs(c.GetAxis(ev["name"].str()))}}));
        });
    if (op == "ColAxisAt")
        return attempt([&] { return okv(axisObs(col(ev["c"]).GetAxis(size_t(ev["i"].num())))); });
    if (op == "ColEq")
        return attempt([&] {
            bool e = col(ev["c"]) == col(ev["d"]), n = col(ev["c"]) != col(ev["d"]);
            return e == n ? bad("two accessors disagree") : okv(e);
        });
    throw ScriptError("unknown op " + op);
}
DRV_MAIN
