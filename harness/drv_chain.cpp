// Driver for ChainSys: Markov chains.  The random numbers and the proposals of a scripted sampler come with
// the script; what every step proposes, draws and evaluates is recorded.
#include "poly.h"
#include <HamiltonianSampler.h>
#include <MCMC.h>
#include <MetropolisSampler.h>
#include <TRandom3.h>
#include <TTree.h>

static std::map<std::string, std::unique_ptr<PolyStat>> stats;
struct Sam
{
    MetropolisSampler none;
    std::unique_ptr<MCMC> mc;
    std::unique_ptr<MCMCSamples> s;
};
static std::map<std::string, Sam> sams;

static ParameterDict dictIn(const J &j)
{
    ParameterDict d;
    for (auto &x : j.a) d[x[0].str()] = x[1].real();
    return d;
}
static VerifRng &rng() { return VerifRng::get(); }

class Recorder : public MCSampler
{
public:
    void aim(MCSampler *inner, PolyStat *st, const J &steps)
    {
        in = inner;
        stat = st;
        script = steps;
        k = seen0 = used0 = 0;
        open = false;
        out.clear();
    }
    ParameterDict Draw(const ParameterDict &cur)
    {
        close();
        const J &w = script[k];
        rng().next.clear();
        for (auto &x : w["g"].a) rng().next.push_back(x.real());
        used0 = rng().used.size();
        ParameterDict p = in ? in->Draw(cur) : dictIn(w["p"]);
        e = J(JO());
        e.put("cur", J(cur));
        e.put("p", J(p));
        e.put("du", slice());
        if (!in) e.put("wish", obj({{"p", w["p"]}, {"corr", w["corr"]}}));
        e.put("corr", J(CorrectAccParam()));
        rng().next.clear();
        for (auto &x : w["u"].a) rng().next.push_back(x.real());
        used0 = rng().used.size();
        seen0 = stat->seen.size();
        open = true;
        return p;
    }
    double CorrectAccParam() { return in ? in->CorrectAccParam() : script[k]["corr"].real(); }
    void close()
    {
        if (!open) return;
        e.put("u", slice());
        JA ev;
        for (size_t i = seen0; i < stat->seen.size(); i++) ev.push_back(J(stat->seen[i]));
        e.put("ev", J(ev));
        out.push_back(e);
        open = false;
        k++;
    }
    JA out;

private:
    J slice()
    {
        JA a;
        for (size_t i = used0; i < rng().used.size(); i++) a.push_back(J(rng().used[i]));
        return J(a);
    }
    MCSampler *in = nullptr;
    PolyStat *stat = nullptr;
    J script;
    size_t seen0 = 0, used0 = 0, k = 0;
    bool open = false;
    J e;
};
// a chain that may be run again, or be copied before
struct Conf
{
    J ev;
    std::unique_ptr<Recorder> rec;
    std::unique_ptr<MCMC> mc;
};
static std::map<std::string, Conf> confs;
static J histsJ(const std::map<std::string, Histogram> &m)
{
    JA a;
    for (auto &h : m)
    {
        J x = histJ(h.second);
        x.put("name", J(h.first));
        a.push_back(x);
    }
    return J(a);
}
// everything an account of a chain can be asked for
static void account(J &v, MCMCSamples &sam, bool hist)
{
    v.put("rate", J(sam.GetAcceptanceRate()));
    v.put("rej", J(sam.GetRejectionRate()));
    v.put("h1", histsJ(sam.Get1DProjections()));
    v.put("h2", histsJ(sam.Get2DProjections()));
    if (hist) v.put("hist", histJ(sam.GetHistogram()));
    JA rows;
    if (TTree *t = sam.GetChain())
    {
        const ShimData &d = t->shim();
        for (auto &row : d.rows)
        {
            JO x;
            JA at;
            for (size_t k = 0; k < d.names.size(); k++)
            {
                if (d.names[k] == "LogL") x.push_back({"v", J(row[k])});
                else if (d.names[k] == "Accepted") x.push_back({"acc", J(row[k] != 0)});
                else if (d.names[k] == "Step") x.push_back({"n", J(int(row[k]))});
                else if (d.names[k] != "StepTime") at.push_back(J(JA{J(d.names[k]), J(row[k])}));
            }
            x.push_back({"at", J(at)});
            rows.push_back(J(x));
        }
    }
    v.put("rows", J(rows));
    std::vector<double> ac = sam.GetAutoCorrelations();
    JA a;
    for (size_t k = 0; k < ac.size() && k < 6; k++) a.push_back(J(std::isfinite(ac[k]) ? ac[k] : 0.));
    v.put("ac", J(a));
}
static J run(Conf &cf, PolyStat &s, const J &ev)
{
    const J &c = cf.ev;
    const J &sm = ev["sm"];
    std::unique_ptr<MCSampler> inner;
    if (sm["kind"].str() == "metro")
    {
        MetropolisSampler *m = new MetropolisSampler;
        inner.reset(m);
        m->SetSigmas(dictIn(sm["sig"]));
        for (auto &n : sm["fix"].strs()) m->Fix(n);
        for (auto &n : sm["freed"].strs()) { m->Fix(n); m->Release(n); }
        if (m->GetSigmas() != dictIn(sm["sig"])) return bad("sigmas");
    }
    if (sm["kind"].str() == "hmc")
    {
        HamiltonianSampler<PolyStat> *m = new HamiltonianSampler<PolyStat>(s, sm["eps"].real(), sm["n"].num());
        inner.reset(m);
        if (!sm.has("unit")) m->SetMasses(dictIn(sm["m"]));
        if (m->GetMasses() != dictIn(sm["m"])) return bad("masses");
        m->SetMinima(dictIn(sm["lo"]));
        m->SetMaxima(dictIn(sm["hi"]));
        if (m->GetMinima() != dictIn(sm["lo"]) || m->GetMaxima() != dictIn(sm["hi"])) return bad("walls");
    }
    s.seen.clear();
    bool again = ev.has("again") && cf.mc;
    if (!again)
    {
        cf.rec.reset(new Recorder);
        cf.mc.reset(new MCMC(*cf.rec));
    }
    else if (ev["again"].str() == "copy")
        cf.mc.reset(new MCMC(*cf.mc));
    Recorder &rec = *cf.rec;
    rec.aim(inner.get(), &s, ev["steps"]);
    MCMC &m = *cf.mc;
    m.SetMaxIter(c["iter"].num());
    m.SetMinima(dictIn(c["min"]));
    m.SetMaxima(dictIn(c["max"]));
    if (again || c["start"].a.size()) m.SetInitialTrial(dictIn(c["start"]));
    if (c["flip"].yes() || c.has("say") || again) m.SetFlipSign(c["flip"].yes());
    if (c["logged"].yes() || c.has("say") || again) m.SetTestStatLogged(c["logged"].yes());
    m.SetBurnIn(c["burn"].num());
    m.SetThinFactor(c["thin"].num());
    if (c["full"].yes() || c.has("say") || again) m.SetSaveFullHistogram(c["full"].yes());
    if (c["save"].yes() || c.has("say") || again) m.SetSaveChain(c["save"].yes());
    if (again || c["axes"].a.size()) m.SetHistogramAxes(axesIn(c["axes"]));
    if (m.GetMaxIter() != (unsigned)c["iter"].num() || m.GetMinima() != dictIn(c["min"]) || m.GetMaxima() != dictIn(c["max"]) ||
        m.GetFlipSign() != c["flip"].yes() || m.GetTestStatLogged() != c["logged"].yes() || m.GetBurnIn() != (unsigned)c["burn"].num() ||
        m.GetThinFactor() != (unsigned)c["thin"].num() || m.GetSaveFullHistogram() != c["full"].yes() || m.GetSaveChain() != c["save"].yes() ||
        m.GetInitialTrial() != dictIn(c["start"]) || m.GetHistogramAxes().GetNDimensions() != c["axes"].a.size())
        return bad("settings");
    rng().next.clear();
    for (auto &x : ev["su"].a) rng().next.push_back(x.real());
    rng().used.clear();
    size_t drawn = 0;
    const FitResult &r = m.Optimise(&s);
    rec.close();
    if (s.registered < 1) return bad("fit components were not registered");
    s.registered = 0;
    (void)drawn;
    J v = J(JO());
    v.put("start", s.seen.empty() ? J(JA()) : J(s.seen[0]));
    JA su;
    size_t n0 = c["start"].a.size() ? 0 : dictIn(c["min"]).size();
    for (size_t k = 0; k < n0 && k < rng().used.size(); k++) su.push_back(J(rng().used[k]));
    v.put("su", J(su));
    v.put("steps", J(rec.out));
    v.put("best", J(r.GetBestFit()));
    v.put("ext", J(r.GetExtremeVal()));
    v.put("valid", J(r.GetValid()));
    MCMCSamples sam = m.GetSamples();
    account(v, sam, c["full"].yes() && c["iter"].num() > 0);
    // without a step there is no new tree
    if (!c["iter"].num()) v.put("rows", J(JA()));
    return okv(v);
}
J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        stats.clear();
        confs.clear();
        sams.clear();
        return okk();
    }
    if (op == "StNew")
    {
        stats[ev["h"].str()].reset(new PolyStat(ev));
        return okk();
    }
    if (op == "ChNew")
    {
        confs[ev["c"].str()].ev = ev;
        return okk();
    }
    if (op == "ChRun") return attempt([&] { return run(in(confs, ev["c"]), *in(stats, ev["s"]), ev); });
    if (op == "SmNew")
    {
        Sam &t = sams[ev["h"].str()];
        t.mc.reset(new MCMC(t.none));
        t.mc->SetMinima(dictIn(ev["min"]));
        t.mc->SetMaxima(dictIn(ev["max"]));
        t.mc->SetMaxIter(ev["iter"].num());
        t.s.reset(new MCMCSamples(t.mc.get()));
        t.s->SetBurnIn(ev["burn"].num());
        t.s->SetThinFactor(ev["thin"].num());
        t.s->SetSaveFullHistogram(ev["full"].yes());
        t.s->SetSaveChain(ev["save"].yes());
        if (ev["axes"].a.size()) t.s->SetHistogramAxes(axesIn(ev["axes"]));
        return okk();
    }
    if (op.size() > 2 && op[0] == 'S' && op[1] == 'm')
        return attempt([&]() -> J {
            MCMCSamples &s = *in(sams, ev["h"]).s;
            if (op == "SmSet") { s.SetBurnIn(ev["burn"].num()); s.SetThinFactor(ev["thin"].num()); return okk(); }
            if (op == "SmKeep") { s.SetSaveFullHistogram(ev["full"].yes()); s.SetSaveChain(ev["save"].yes()); return okk(); }
            if (op == "SmFill") { s.Fill(dictIn(ev["at"]), ev["v"].real(), ev["acc"].yes()); return okk(); }
            if (op == "SmClear") { s.Clear(); return okk(); }
            if (op != "SmGet") throw ScriptError("unknown op " + op);
            J v = J(JO());
            account(v, s, s.GetSaveFullHistogram() && ev["told"].yes());
            v.put("full", J(s.GetSaveFullHistogram()));
            v.put("save", J(s.GetSaveChain()));
            v.put("burn", J(s.GetBurnIn()));
            v.put("thin", J(s.GetThinFactor()));
            return okv(v);
        });
    throw ScriptError("unknown op " + op);
}
DRV_MAIN
