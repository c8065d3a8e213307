// A test statistic that is a polynomial of its parameters, histograms from and to JSON: shared by drivers.
#ifndef POLY_H
#define POLY_H
#include "drv.h"
#include <AxisCollection.h>
#include <Histogram.h>
#include <TestStatistic.h>

template <typename M>
static auto &in(M &m, const J &n)
{
    auto it = m.find(n.str());
    if (it == m.end()) throw ScriptError("no object " + n.str());
    return it->second;
}
class PolyStat : public TestStatistic
{
public:
    PolyStat(const J &ev)
    {
        for (auto &n : ev["names"].strs()) par[n] = 0;
        for (auto &t : ev["terms"].a) terms.push_back(std::make_pair(t["k"].real(), t["x"].strs()));
    }
    double Evaluate()
    {
        seen.push_back(par);
        double s = 0;
        for (auto &t : terms)
        {
            double x = t.first;
            for (auto &n : t.second) x *= par.at(n);
            s += x;
        }
        return s;
    }
    void SetParameters(const ParameterDict &p)
    {
        for (auto &x : par)
            if (!p.count(x.first)) throw ParameterError("missing " + x.first);
        for (auto &x : par) x.second = p.at(x.first);
    }
    ParameterDict GetParameters() const { return par; }
    std::set<std::string> GetParameterNames() const
    {
        std::set<std::string> s;
        for (auto &x : par) s.insert(x.first);
        return s;
    }
    size_t GetParameterCount() const { return par.size(); }
    void RegisterFitComponents() { registered++; }
    std::vector<ParameterDict> seen;
    int registered = 0;

private:
    ParameterDict par;
    std::vector<std::pair<double, std::vector<std::string>>> terms;
};
static AxisCollection axesIn(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals()));
    return c;
}
static Histogram histOf(const J &j)
{
    Histogram h(axesIn(j["axes"]));
    std::vector<double> c = j["c"].reals();
    for (size_t k = 0; k < c.size(); k++) h.SetBinContent(k, c[k]);
    return h;
}
static J histJ(const Histogram &h)
{
    JA ax;
    for (size_t d = 0; d < h.GetNDims(); d++)
    {
        BinAxis a = h.GetAxes().GetAxis(d);
        ax.push_back(obj({{"name", J(a.GetName())}, {"lo", J(a.GetBinLowEdges())}, {"hi", J(a.GetBinHighEdges())}}));
    }
    return obj({{"axes", J(ax)}, {"c", J(h.GetBinContents())}});
}
#endif
