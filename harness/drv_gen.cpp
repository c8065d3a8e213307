// Conformance driver for spec/GenSys.tla: fake data sets, fake binned data, random numbers.
#include "drv.h"
#include "poly.h"
#include <BinnedED.h>
#include <BinnedEDGenerator.h>
#include <BoxCut.h>
#include <CutCollection.h>
#include <DataSetGenerator.h>
#include <Event.h>
#include <Function.h>
#include <OXSXDataSet.h>
#include <Rand.h>
#include <TRandom3.h>

static std::map<std::string, OXSXDataSet *> dss;
static std::map<std::string, DataSetGenerator> gens;
static std::map<std::string, BinnedEDGenerator> bgens;

// p[0] + p[1] x + ... of the first of `dims` variables
class PolyX : public Function
{
public:
    PolyX(const std::vector<double> &p_, size_t d_) : p(p_), d(d_) {}
    Function *Clone() const { return new PolyX(*this); }
    double operator()(const std::vector<double> &v) const
    {
        double s = 0, x = 1;
        for (double k : p)
        {
            s += k * x;
            x *= v.at(0);
        }
        return s;
    }
    size_t GetNDims() const { return d; }
    void SetParameter(const std::string &, double) {}
    double GetParameter(const std::string &) const { return 0; }
    void SetParameters(const ParameterDict &) {}
    ParameterDict GetParameters() const { return ParameterDict(); }
    size_t GetParameterCount() const { return 0; }
    std::set<std::string> GetParameterNames() const { return std::set<std::string>(); }
    void RenameParameter(const std::string &, const std::string &) {}
    std::string GetName() const { return "poly"; }
    void SetName(const std::string &) {}

private:
    std::vector<double> p;
    size_t d;
};

static J evsJ(const DataSet &d)
{
    JA r;
    for (size_t i = 0; i < d.GetNEntries(); i++)
    {
        Event e = d.GetEntry(i);
        r.push_back(J(e.GetData()));
    }
    return J(r);
}
static std::vector<bool> flags(const J &j)
{
    std::vector<bool> r;
    for (auto &x : j.a) r.push_back(x.yes());
    return r;
}
static VerifRng &rng() { return VerifRng::get(); }
static void feed(const std::vector<double> &us)
{
    rng().next.assign(us.begin(), us.end());
    rng().used.clear();
    rng().pois.clear();
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        gens.clear();
        bgens.clear();
        for (auto &d : dss) delete d.second;
        dss.clear();
        feed({});
        rng().lcg = 12345;
        return okk();
    }
    const J none = okv(J(JA()));
    return attempt([&]() -> J {
        if (op == "SetNew")
        {
            OXSXDataSet *d = new OXSXDataSet;
            d->SetObservableNames(ev["names"].strs());
            std::vector<double> xs = ev["xs"].reals();
            for (size_t i = 0; i < xs.size(); i++) d->AddEntry(Event({double(1000 * ev["k"].num() + long(i)), xs[i]}));
            if (dss.count(ev["h"].str())) throw ScriptError("data set twice");
            dss[ev["h"].str()] = d;
            return none;
        }
        if (op == "GenNew") { gens[ev["g"].str()] = DataSetGenerator(); return none; }
        if (op == "Binned")
        {
            BinnedEDGenerator &b = bgens[ev["g"].str()];
            std::vector<BinnedED> pdfs;
            for (auto &p : ev["pdfs"].a)
            {
                BinnedED e(p["name"].str(), axesIn(ev["axes"]));
                e.SetObservables(e.GetAxes().GetAxisNames());
                e.SetBinContents(p["c"].reals());
                pdfs.push_back(e);
            }
            b.SetPdfs(pdfs);
            b.SetRates(ev["rates"].reals());
            if (b.GetPdfs().size() != pdfs.size() || b.GetRates() != ev["rates"].reals()) return bad("pdfs or rates");
            feed(ev["us"].reals());
            std::string name = ev["name"].str();
            BinnedED r = ev["poi"].yes() ? (name.empty() ? b.PoissonFluctuatedED() : b.PoissonFluctuatedED(name))
                                         : (name.empty() ? b.ExpectedRatesED() : b.ExpectedRatesED(name));
            return okv(obj({{"c", J(r.GetBinContents())}, {"name", J(r.GetName())}, {"used", J(rng().used.size())},
                            {"sameaxes", J(r.GetAxes() == pdfs[0].GetAxes() && r.GetObservables() == pdfs[0].GetObservables())}}));
        }
        if (op == "VonNeumann")
        {
            PolyX f(ev["p"].reals(), ev["dims"].num());
            feed(ev["us"].reals());
            double x = Rand::VonNeumannSample(&f, ev["a"].real(), ev["b"].real(), ev["y"].real());
            return okv(obj({{"x", J(x)}, {"used", J(rng().used.size())}}));
        }
        if (op == "Spread")
        {
            std::vector<double> r;
            const std::string &kind = ev["kind"].str();
            long n = ev["n"].num();
            for (long j = 0; j < n; j++)
            {
                feed({(double(j) + .5) / double(n)});
                double a = ev["a"].real(), b = ev["b"].real();
                if (kind == "range") r.push_back(Rand::UniformRange(a, b));
                else if (kind == "uniform") r.push_back(Rand::Uniform(b));
                else if (kind == "unit") r.push_back(Rand::Uniform());
                else if (kind == "shoot") r.push_back(double(Rand::Shoot(int(b))));
                else throw ScriptError("kind " + kind);
            }
            return okv(J(r));
        }
        if (op == "Gaus")
        {
            feed({ev["u"].real()});
            return okv(J(Rand::Gaus(ev["mean"].real(), ev["sd"].real())));
        }
        if (op == "Poisson")
        {
            feed({ev["u"].real()});
            return okv(J(Rand::Poisson(ev["mean"].real())));
        }
        if (op == "Seed")
        {
            feed({});
            Rand::SetSeed(unsigned(ev["s"].num()));
            long s = long(Rand::GetSeed());
            std::vector<double> r;
            for (long j = 0; j < ev["n"].num(); j++) r.push_back(Rand::Uniform());
            return okv(obj({{"s", J(s)}, {"r", J(r)}}));
        }
        DataSetGenerator &g = in(gens, ev["g"]);
        if (op == "GenSets")
        {
            std::vector<DataSet *> v;
            for (auto &h : ev["src"].strs()) v.push_back(in(dss, J(h)));
            g.SetDataSets(v);
            return none;
        }
        if (op == "GenRates") { g.SetExpectedRates(ev["rates"].reals()); return none; }
        if (op == "GenBoot")
        {
            g.SetBootstrap(flags(ev["flags"]));
            return g.GetBootstrap() == flags(ev["flags"]) ? none : bad("bootstrap flags");
        }
        if (op == "GenSeq")
        {
            g.SetSequentialFlags(flags(ev["flags"]));
            return g.GetSequentialFlags() == flags(ev["flags"]) ? none : bad("sequential flags");
        }
        if (op == "GenAdd") { g.AddDataSet(in(dss, ev["h"]), ev["rate"].real(), ev["seq"].yes()); return none; }
        if (op == "GenCut") { g.AddCut(BoxCut("c", "x", ev["lo"].real(), ev["hi"].real())); return none; }
        if (op == "GenSetCuts")
        {
            CutCollection c;
            for (auto &x : ev["cuts"].a) c.AddCut(BoxCut("c", "x", x[0].real(), x[1].real()));
            g.SetCuts(c);
            return none;
        }
        if (op == "GenClear") { g.ClearDataSets(); return none; }
        if (op == "GenReset") { g.Reset(); return none; }
        if (op == "GenCopy") { DataSetGenerator c(g); gens[ev["to"].str()] = c; if (ev.has("drop")) gens.erase(ev["g"].str()); return none; }
        if (op == "Draw")
        {
            feed({});
            std::vector<int> taken(1, -7);
            J out = attempt([&]() -> J {
                OXSXDataSet d = ev["poi"].yes() ? (ev["take"].yes() ? g.PoissonFluctuatedDataSet(&taken) : g.PoissonFluctuatedDataSet())
                                                : (ev["take"].yes() ? g.ExpectedRatesDataSet(&taken) : g.ExpectedRatesDataSet());
                return okv(obj({{"evs", evsJ(d)}, {"taken", J(taken)}, {"names", J(d.GetObservableNames())}}));
            });
            out.put("pois", J(rng().pois));
            return out;
        }
        if (op == "All")
        {
            std::vector<int> taken(1, -7);
            OXSXDataSet d = g.AllValidEvents(&taken);
            return okv(obj({{"evs", evsJ(d)}, {"taken", J(taken)}, {"names", J(d.GetObservableNames())}}));
        }
        if (op == "Left")
        {
            int n = -7;
            std::unique_ptr<OXSXDataSet> d(g.AllRemainingEvents(size_t(ev["i"].num()), &n));
            if (d->GetObservableNames() != ev["names"].strs()) return bad("names");
            return okv(obj({{"evs", evsJ(*d)}, {"n", J(n)}}));
        }
        if (op == "GenSpread")
        {
            long n = ev["n"].num();
            JA r;
            for (long j = 0; j < n; j++)
            {
                DataSetGenerator c(g);
                std::vector<double> rates(ev["of"].num(), 0);
                rates.at(ev["i"].num()) = 1;
                c.SetExpectedRates(rates);
                feed({(double(j) + .5) / double(n)});
                OXSXDataSet d = c.ExpectedRatesDataSet();
                if (d.GetNEntries() != 1) return bad("one event asked for");
                r.push_back(J(d.GetEntry(0).GetData()));
            }
            return okv(J(r));
        }
        throw ScriptError("op " + op);
    });
}
DRV_MAIN
