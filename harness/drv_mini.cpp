// Conformance driver for spec/MiniSys.tla: Minuit and MinuitFCN, with a scripted minimiser in place of Minuit2.
#include "poly.h"
#include <Minuit2/MinuitShim.h>
#include <Minuit.h>

static std::map<std::string, std::unique_ptr<PolyStat>> stats;
static std::map<std::string, std::unique_ptr<Minuit>> mins;

static J resJ(const FitResult &f)
{
    const DenseMatrix c = f.GetCovarianceMatrix();
    auto inside = [&](size_t i, size_t j)
    {
        try
        {
            c.GetComponent(i, j);
            return true;
        }
        catch (const NotFoundError &)
        {
            return false;
        }
    };
    JA rows;
    for (size_t i = 0; inside(i, 0); i++)
    {
        JA r;
        for (size_t j = 0; inside(i, j); j++) r.push_back(J(c.GetComponent(i, j)));
        rows.push_back(J(r));
    }
    return obj({{"best", J(f.GetBestFit())}, {"ext", J(f.GetExtremeVal())}, {"valid", J(f.GetValid())}, {"cov", J(rows)}});
}
static J bools(const std::vector<bool> &v)
{
    JA r;
    for (bool b : v) r.push_back(J(b));
    return J(r);
}
static J run(Minuit &m, PolyStat &s, const J &ev)
{
    MinuitScript &sc = minuitScript();
    sc = MinuitScript();
    for (auto &p : ev["pts"].a) sc.points.push_back(p.reals());
    sc.valid = ev["valid"].yes();
    sc.hasCov = ev["hascov"].yes();
    sc.cov = ev["cov"].reals();
    sc.cov.resize(200, 0);
    minuitSeen() = MinuitSeen();
    s.seen.clear();
    s.registered = 0;
    const FitResult &r = m.Optimise(&s);
    const MinuitSeen &z = minuitSeen();
    JA evs;
    if (z.runs != 1 || s.seen.size() < z.evals.size()) return bad("the minimiser did not run once");
    if (!s.registered) return bad("components never registered");
    for (size_t k = 0; k < z.evals.size(); k++)
        evs.push_back(obj({{"x", J(z.evals[k].first)}, {"f", J(z.evals[k].second)}, {"at", J(s.seen[k])}}));
    J a = resJ(r), b = resJ(m.GetFitResult());
    std::ostringstream x, y;
    a.write(x);
    b.write(y);
    if (x.str() != y.str()) return bad("GetFitResult differs");
    return okv(obj({{"algo", J(z.algo)}, {"strategy", J(size_t(z.strategy))}, {"calls", J(size_t(z.maxCalls))}, {"tol", J(z.tol)}, {"up", J(z.up)},
                    {"init", J(z.init)}, {"errs", J(z.errs)}, {"haslo", bools(z.hasLo)}, {"hashi", bools(z.hasHi)}, {"lo", J(z.lo)}, {"hi", J(z.hi)},
                    {"fixed", bools(z.fixed)}, {"evals", J(evs)}, {"res", a}}));
}
J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        mins.clear();
        stats.clear();
        return okk();
    }
    if (op == "StNew")
    {
        stats[ev["h"].str()].reset(new PolyStat(ev));
        return okk();
    }
    if (op == "MnNew")
    {
        mins[ev["m"].str()].reset(new Minuit);
        return okk();
    }
    if (op == "MnCopy")
    {
        std::unique_ptr<Minuit> c(new Minuit(*in(mins, ev["m"])));
        mins[ev["to"].str()] = std::move(c);
        return okk();
    }
    if (op == "MnAssign")
    {
        *in(mins, ev["to"]) = *in(mins, ev["m"]);
        return okk();
    }
    return attempt([&]() -> J {
        Minuit &m = *in(mins, ev["m"]);
        if (op == "MnVals") m.SetInitialValues(ev["d"].dict());
        else if (op == "MnErrs") m.SetInitialErrors(ev["d"].dict());
        else if (op == "MnMin") m.SetMinima(ev["d"].dict());
        else if (op == "MnMax") m.SetMaxima(ev["d"].dict());
        else if (op == "MnFix") m.Fix(ev["n"].str());
        else if (op == "MnRelease") m.Release(ev["n"].str());
        else if (op == "MnMethod") m.SetMethod(ev["x"].str());
        else if (op == "MnStrategy") m.SetStrategy(ev["x"].num());
        else if (op == "MnCalls") m.SetMaxCalls(ev["x"].num());
        else if (op == "MnTol") m.SetTolerance(ev["x"].real());
        else if (op == "MnUp") m.SetUpperContourEdge(ev["x"].real());
        else if (op == "MnMx") m.SetMaximising(ev["x"].yes());
        else if (op == "MnGet")
            return okv(obj({{"min", J(m.GetMinima())}, {"max", J(m.GetMaxima())}, {"method", J(m.GetMethod())}, {"strategy", J(m.GetStrategy())},
                            {"calls", J(size_t(m.GetMaxCalls()))}, {"tol", J(m.GetTolerance())}, {"up", J(m.GetUpperContourEdge())}, {"mx", J(m.GetMaximising())},
                            {"res", resJ(m.GetFitResult())}}));
        else if (op == "MnRun") return run(m, *in(stats, ev["s"]), ev);
        else throw ScriptError("op " + op);
        return okk();
    });
}
DRV_MAIN
