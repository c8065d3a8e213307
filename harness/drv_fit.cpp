// Conformance driver for spec/FitSys.tla: GridSearch, FitResult, BayesIntervalCalc, AutoCorrelationCalc,
// Gradient, LeapFrog, HMCEnergy, SigmoidBoundary.
#include "poly.h"
#include <AutoCorrelationCalc.h>
#include <BayesIntervalCalc.h>
#include <FitResult.h>
#include <Gradient.h>
#include <GridSearch.h>
#include <HMCEnergy.h>
#include <LeapFrog.h>
#include <SigmoidBoundary.h>

struct Orb
{
    std::string s;
    double e;
    ParameterDict m, q, p, lo, hi;
};
static std::map<std::string, std::unique_ptr<PolyStat>> stats;
static std::map<std::string, std::unique_ptr<GridSearch>> grids;
static std::map<std::string, std::unique_ptr<FitResult>> fits;
static std::map<std::string, std::unique_ptr<AutoCorrelationCalc>> acs;
static std::map<std::string, Orb> orbs;

static std::vector<std::vector<double>> rowsOf(const J &j)
{
    std::vector<std::vector<double>> r;
    for (auto &x : j.a) r.push_back(x.reals());
    return r;
}
static HistMap mapOf(const J &j)
{
    HistMap m;
    for (auto &x : j.a) m[x["name"].str()] = histOf(x);
    return m;
}
static J mapJ(const HistMap &m)
{
    JA a;
    for (auto &x : m)
    {
        J h = histJ(x.second);
        h.put("name", J(x.first));
        a.push_back(h);
    }
    return J(a);
}
// as far as it has components
static bool at(const DenseMatrix &m, size_t i, size_t j, double &x)
{
    try
    {
        x = m.GetComponent(i, j);
        return true;
    }
    catch (const OXSXException &) { return false; }
}
static J covJ(const DenseMatrix &m)
{
    JA a;
    double x;
    for (size_t i = 0; at(m, i, 0, x); i++)
    {
        JA r;
        for (size_t j = 0; at(m, i, j, x); j++) r.push_back(J(x));
        a.push_back(J(r));
    }
    return J(a);
}
static J fitJ(const std::string &n, const FitResult &f)
{
    J s = attempt([&] { return okv(histJ(f.GetStatSpace())); });
    J r = obj({{"f", J(n)}, {"best", J(f.GetBestFit())}, {"ext", J(f.GetExtremeVal())}, {"valid", J(f.GetValid())},
               {"prec", J(f.GetPrintPrecision())}, {"sample", J(f.GetStatSample())}, {"cov", covJ(f.GetCovarianceMatrix())},
               {"p1", mapJ(f.Get1DProjections())}, {"p2", mapJ(f.Get2DProjections())}, {"has", s["ok"]}});
    r.put("space", s["ok"].b ? s["v"] : J("none"));
    return r;
}
// the lines "name value" of a printed fit result
static J linesOf(const std::string &text)
{
    JA a;
    std::istringstream in(text);
    std::string line;
    bool on = false;
    while (std::getline(in, line))
    {
        if (line.find("Best Fit Values") != std::string::npos) on = true;
        else if (on)
        {
            std::istringstream w(line);
            std::string n, v, rest;
            if (!(w >> n)) continue;
            if (!(w >> v) || (w >> rest)) return J("bad line: " + line);
            char *e = 0;
            double x = strtod(v.c_str(), &e);
            if (*e) return J("bad line: " + line);
            long digits = 0;
            bool lead = true;
            for (char c : v)
            {
                if (c == 'e') break;
                if (!isdigit((unsigned char)c)) continue;
                if (lead && c == '0') continue;
                lead = false;
                digits++;
            }
            a.push_back(obj({{"name", J(n)}, {"v", J(x)}, {"digits", J(digits)}}));
        }
    }
    return J(a);
}
static J same(const J &a, const J &b, const char *why)
{
    std::ostringstream x, y;
    a.write(x);
    b.write(y);
    return x.str() == y.str() ? okv(a) : bad(why);
}
static J fitOp(const std::string &op, const J &ev)
{
    const std::string &n = ev["f"].str();
    if (op == "FrNew")
    {
        fits[n].reset(new FitResult());
        return okk();
    }
    FitResult &f = *in(fits, ev["f"]);
    if (op == "FrBest") f.SetBestFit(ev["d"].dict());
    else if (op == "FrExt") f.SetExtremeVal(ev["x"].real());
    else if (op == "FrValid") f.SetValid(ev["on"].yes());
    else if (op == "FrPrec") f.SetPrintPrecision(ev["n"].num());
    else if (op == "FrSpace") f.SetStatSpace(histOf(ev["hist"]));
    else if (op == "FrSample") f.SetStatSample(rowsOf(ev["rows"]));
    else if (op == "FrCov")
    {
        std::vector<std::vector<double>> r = rowsOf(ev["rows"]);
        DenseMatrix m(r.size(), r.empty() ? 0 : r[0].size());
        for (size_t i = 0; i < r.size(); i++)
            for (size_t j = 0; j < r[i].size(); j++) m.SetComponent(i, j, r[i][j]);
        f.SetCovarianceMatrix(m);
    }
    else if (op == "FrProj")
    {
        if (ev["which"].num() == 1) f.Set1DProjections(mapOf(ev["hists"]));
        else f.Set2DProjections(mapOf(ev["hists"]));
    }
    else if (op == "FrGetSpace") return okv(histJ(f.GetStatSpace()));
    else if (op == "FrCopy")
    {
        std::string to = ev["to"].str();
        if ((ev["how"].str() == "assign" || ev.has("assign")) && fits.count(to)) *fits[to] = f; // maybe to itself
        else if (ev.has("assign")) { fits[to].reset(new FitResult); *fits[to] = f; }
        else if (to != n) fits[to].reset(new FitResult(f));
        if (ev.has("drop")) fits.erase(n);
    }
    else if (op == "FrDel") fits.erase(n);
    else if (op == "FrString")
    {
        J a = linesOf(f.AsString());
        std::ostringstream os;
        std::streambuf *old = std::cout.rdbuf(os.rdbuf());
        f.Print();
        std::cout.rdbuf(old);
        J r = same(a, linesOf(os.str()), "Print is not AsString");
        if (!r["ok"].b) return r;
        std::ofstream("fit.txt") << std::string(9999, '?');   // what was there before
        f.SaveAs("fit.txt");
        std::ifstream is("fit.txt");
        std::stringstream ss;
        ss << is.rdbuf();
        unlink("fit.txt");
        return same(a, linesOf(ss.str()), "SaveAs is not AsString");
    }
    else throw ScriptError("op " + op);
    return okk();
}
static J fitObs(J r)
{
    JA a;
    for (auto &x : fits) a.push_back(fitJ(x.first, *x.second));
    r.put("fits", J(a));
    return r;
}
static J gridOp(const std::string &op, const J &ev, J &pts)
{
    if (op == "GrNew")
    {
        grids[ev["g"].str()].reset(new GridSearch());
        return okk();
    }
    GridSearch &g = *in(grids, ev["g"]);
    if (op == "GrMin") g.SetMinima(ev["d"].dict());
    else if (op == "GrMax") g.SetMaxima(ev["d"].dict());
    else if (op == "GrStep") g.SetStepSizes(ev["d"].dict());
    else if (op == "GrMx") g.SetMaximising(ev["on"].yes());
    else if (op == "GrRun")
    {
        PolyStat &s = *in(stats, ev["s"]);
        s.seen.clear();
        s.registered = 0;
        const FitResult &r = g.Optimise(&s);
        if (!s.registered) return bad("components never registered");
        JA a;
        for (auto &p : s.seen) a.push_back(J(p));
        pts = J(a);
        FitResult q = g.GetFitResult();
        if (q.GetBestFit() != r.GetBestFit() || !(q.GetExtremeVal() == r.GetExtremeVal())) return bad("GetFitResult");
    }
    else throw ScriptError("op " + op);
    return okk();
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        stats.clear();
        grids.clear();
        fits.clear();
        acs.clear();
        orbs.clear();
        return okk();
    }
    if (op == "StNew")
    {
        stats[ev["h"].str()].reset(new PolyStat(ev));
        return okk();
    }
    if (op.compare(0, 2, "Fr") == 0) return fitObs(attempt([&] { return fitOp(op, ev); }));
    if (op == "GrRes") return fitObs(attempt([&] {
        fits[ev["f"].str()].reset(new FitResult(in(grids, ev["g"])->GetFitResult()));
        return okk();
    }));
    if (op.compare(0, 2, "Gr") == 0)
    {
        J pts = J(JA());
        J r = attempt([&] { return gridOp(op, ev, pts); });
        GridSearch &g = *in(grids, ev["g"]);
        FitResult f = g.GetFitResult();
        r.put("pts", pts);
        r.put("min", J(g.GetMinima()));
        r.put("max", J(g.GetMaxima()));
        r.put("step", J(g.GetStepSizes()));
        r.put("mx", J(g.GetMaximising()));
        r.put("best", J(f.GetBestFit()));
        r.put("ext", J(f.GetExtremeVal()));
        r.put("valid", J(f.GetValid()));
        return r;
    }
    if (op == "IvHist") return attempt([&] { return okv(J(BayesIntervalCalc::UpperBound(histOf(ev["hist"]), ev["cl"].real()))); });
    if (op == "IvCounts") return attempt([&] { return okv(J(BayesIntervalCalc::OneSidedUpperInterval(ev["b"].real(), ev["n"].num(), ev["u"].real()))); });
    if (op == "IvBound") return attempt([&] { return okv(J(BayesIntervalCalc::UpperBound(ev["b"].real(), ev["n"].num(), ev["cl"].real(), ev["tol"].real()))); });
    if (op.compare(0, 2, "Ac") == 0)
    {
        J r = attempt([&] {
            if (op == "AcNew")
            {
                acs[ev["a"].str()].reset(new AutoCorrelationCalc(ev["n"].num()));
                return okk();
            }
            AutoCorrelationCalc &a = *in(acs, ev["a"]);
            if (op == "AcFill") a.Fill(ev["x"].real());
            else if (op == "AcClear") a.Clear();
            else if (op == "AcGet") return okv(J(a.Get()));
            else throw ScriptError("op " + op);
            return okk();
        });
        r.put("mean", J(in(acs, ev["a"])->Mean()));
        r.put("var", J(in(acs, ev["a"])->Var()));
        return r;
    }
    if (op == "Slope") return attempt([&] {
        PolyStat &s = *in(stats, ev["s"]);
        Gradient<PolyStat> g(s, ev["e"].real());
        return okv(J(g(ev["d"].dict())));
    });
    if (op == "Energy") return attempt([&] {
        PolyStat &s = *in(stats, ev["s"]);
        HMCEnergy<PolyStat> e(s);
        if (e.GetParameterNames() != s.GetParameterNames()) return bad("names");
        e.SetParameters(ev["d"].dict());
        return okv(J(e.Evaluate()));
    });
    if (op == "Walled") return attempt([&] {
        PolyStat &s = *in(stats, ev["s"]);
        SigmoidBoundary<PolyStat> e(s, ev["lo"].dict(), ev["hi"].dict(), ev["mu"].real());
        if (e.GetParameterNames() != s.GetParameterNames()) return bad("names");
        e.SetParameters(ev["d"].dict());
        double x = e.Evaluate();
        if (!(e.Evaluate() == x)) return bad("evaluated again");
        return okv(J(x));
    });
    if (op == "OrNew")
    {
        orbs[ev["o"].str()] = Orb{ev["s"].str(), ev["e"].real(), ev["m"].dict(), ev["q"].dict(), ev["p"].dict(), ev["lo"].dict(), ev["hi"].dict()};
        return okk();
    }
    if (op == "OrFlip")
    {
        for (auto &x : in(orbs, ev["o"]).p) x.second = -x.second;
        return okk();
    }
    if (op == "OrRun")
    {
        Orb &o = in(orbs, ev["o"]);
        J r = attempt([&] {
            Gradient<PolyStat> g(*in(stats, J(o.s)), o.e);
            double t = ev["t"].real();
            long n = ev["n"].num();
            if (!o.lo.empty()) LeapFrog::Hamiltonian(o.q, o.p, o.m, t, g, n, o.lo, o.hi);
            else if (n == 1 && ev.has("one")) LeapFrog::Hamiltonian(o.q, o.p, o.m, t, g);
            else LeapFrog::Hamiltonian(o.q, o.p, o.m, t, g, n);
            return okk();
        });
        r.put("q", J(o.q));
        r.put("p", J(o.p));
        return r;
    }
    throw ScriptError("op " + op);
}
DRV_MAIN
