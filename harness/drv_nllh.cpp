// Conformance driver for spec/NllhSys.tla: BinnedEDManager, BinnedNLLH, StatisticSum.
#include "sysdrv.h"
#include <BinnedEDManager.h>
#include <BinnedNLLH.h>
#include <LineCut.h>
#include <OXSXDataSet.h>
#include <BinnedEDShrinker.h>
#include <StatisticSum.h>
#include <SystematicManager.h>
#include <memory>

struct St
{
    std::unique_ptr<TestStatistic> p;
    std::shared_ptr<OXSXDataSet> data; // copies of a statistic use the same data
    BinnedNLLH &lh()
    {
        BinnedNLLH *b = dynamic_cast<BinnedNLLH *>(p.get());
        if (!b) throw ScriptError("not a likelihood");
        return *b;
    }
    StatisticSum &sum()
    {
        StatisticSum *b = dynamic_cast<StatisticSum *>(p.get());
        if (!b) throw ScriptError("not a sum");
        return *b;
    }
};
static std::map<std::string, Sys> sys_;
static std::map<std::string, std::vector<std::string>> pn;
static std::map<std::string, std::unique_ptr<BinnedEDManager>> bms;
static std::map<std::string, St> sts;
static std::map<std::string, std::unique_ptr<SystematicManager>> sgs;
static std::map<std::string, std::vector<std::string>> along; // axes the distributions of a manager were projected on

static BinnedED distOf(const J &j)
{
    AxisCollection a = axesOf(j["axes"]);
    BinnedED d(j["name"].str(), a);
    d.SetBinContents(j["c"].reals());
    d.SetObservables(a.GetAxisNames());
    return d;
}
static NormFittingStatus modeOf(const std::string &m) { return m == "F" ? FALSE : m == "D" ? DIRECT : INDIRECT; }
static ParameterDict dictOf(const J &j)
{
    ParameterDict d;
    for (auto &e : j.a) d[e[0].str()] = e[1].real();
    return d;
}
template <typename T>
static J parsOf(const T &t)
{
    ParameterDict d = t.GetParameters();
    std::set<std::string> n = t.GetParameterNames();
    JA a;
    for (auto &e : d)
    {
        if (!n.count(e.first)) return J("names");
        a.push_back(J(JA{J(e.first), J(e.second)}));
    }
    if (n.size() != d.size() || t.GetParameterCount() != d.size()) return J("count");
    return J(a);
}
static bool same(const ParameterDict &a, const ParameterDict &b)
{
    for (auto &e : a)
        if (!b.count(e.first) || !(b.at(e.first) == e.second || (std::isnan(e.second) && std::isnan(b.at(e.first))))) return false;
    return a.size() == b.size();
}
// the lists a call takes, one of them maybe one short
struct Lists
{
    std::vector<BinnedED> d;
    std::vector<std::vector<std::string>> g;
    std::vector<int> n;
    std::vector<NormFittingStatus> m;
    std::vector<NormFittingStatus> *q;
    bool global = true, gens = false;
    explicit Lists(const J &ev)
    {
        for (auto &p : ev["pdfs"].a)
        {
            d.push_back(distOf(p));
            n.push_back(p["gen"].num());
            m.push_back(modeOf(p["mode"].str()));
            gens = n.back() >= 0;
        }
        if (ev.has("gss"))
            for (auto &x : ev["gss"].a)
            {
                g.push_back(x.strs());
                global = global && g.back().size() == 1 && g.back()[0] == "";
            }
        std::string s = ev.has("short") ? ev["short"].str() : "";
        if (s == "gss") g.pop_back(), global = false;
        if (s == "gens") n.pop_back();
        if (s == "modes") m.pop_back();
        if (ev.has("each")) global = false;
        q = ev.has("dflt") ? nullptr : &m;
    }
};
static void addPdfs(BinnedNLLH &l, const J &ev)
{
    Lists x(ev);
    if (x.global && !x.gens) l.AddPdfs(x.d, x.q);
    else if (x.global) l.AddPdfs(x.d, x.n, x.q);
    else if (!x.gens) l.AddPdfs(x.d, x.g, x.q);
    else l.AddPdfs(x.d, x.g, x.n, x.q);
}
static void addPdf(BinnedNLLH &l, const J &ev)
{
    const J &p = ev["pdf"];
    BinnedED d = distOf(p);
    NormFittingStatus m = modeOf(p["mode"].str());
    std::vector<std::string> gs = ev["gs"].strs();
    long gen = p["gen"].num();
    bool global = gs.size() == 1 && gs[0] == "", dflt = m == INDIRECT && ev.has("dflt");
    if (ev.has("list"))
    {
        std::vector<BinnedED> v(1, d);
        std::vector<std::vector<std::string>> g(1, gs);
        std::vector<int> n(1, gen);
        std::vector<NormFittingStatus> s(1, m);
        std::vector<NormFittingStatus> *q = dflt ? nullptr : &s;
        if (global && gen < 0) l.AddPdfs(v, q);
        else if (global) l.AddPdfs(v, n, q);
        else if (gen < 0) l.AddPdfs(v, g, q);
        else l.AddPdfs(v, g, n, q);
    }
    else if (dflt)
    {
        if (global && gen < 0) l.AddPdf(d);
        else if (global) l.AddPdf(d, (int)gen);
        else if (gen < 0) l.AddPdf(d, gs);
        else l.AddPdf(d, gs, (int)gen);
    }
    else if (global && gen < 0) l.AddPdf(d, m);
    else if (global) l.AddPdf(d, (int)gen, m);
    else if (gen < 0) l.AddPdf(d, gs, m);
    else l.AddPdf(d, gs, (int)gen, m);
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        sts.clear();
        bms.clear();
        sgs.clear();
        along.clear();
        for (auto &p : sys_) delete p.second.s;
        sys_.clear();
        pn.clear();
        return okk();
    }
    // managers of distributions
    if (op == "BmNew")
    {
        bms[ev["m"].str()].reset(new BinnedEDManager());
        J r = okk();
        r.put("pars", parsOf(*bms[ev["m"].str()]));
        return r;
    }
    if (op.compare(0, 2, "Bm") == 0)
    {
        BinnedEDManager &m = *in(bms, ev["m"]);
        J r = attempt([&] {
            if (op == "BmAdd")
            {
                NormFittingStatus s = modeOf(ev["pdf"]["mode"].str());
                std::vector<NormFittingStatus> q(1, s);
                if (ev.has("list")) m.AddPdfs(std::vector<BinnedED>(1, distOf(ev["pdf"])), &q);
                else m.AddPdf(distOf(ev["pdf"]), s);
            }
            else if (op == "BmAdds")
            {
                Lists x(ev);
                m.AddPdfs(x.d, x.q);
            }
            else if (op == "BmSetNorms") m.SetNormalisations(ev["v"].reals());
            else if (op == "BmSet") m.SetParameter(ev["name"].str(), ev["x"].real());
            else if (op == "BmSets") m.SetParameters(dictOf(ev["dict"]));
            else if (op == "BmGet") return okv(J(m.GetParameter(ev["name"].str())));
            else if (op == "BmRename") m.RenameParameter(ev["from"].str(), ev["to"].str());
            else if (op == "BmCopy")
            {
                auto &to = bms[ev["to"].str()];
                m.SetName("the name of the copied one");
                if (along.count(ev["m"].str())) along[ev["to"].str()] = along[ev["m"].str()];
                else along.erase(ev["to"].str());
                if (to) *to = m; // maybe to itself
                else if (ev.has("assign")) { to.reset(new BinnedEDManager); *to = m; }
                else to.reset(new BinnedEDManager(m));
                if (to->GetName() != "the name of the copied one") return bad("another name");
            }
            else if (op == "BmDel")
            {
                bms.erase(ev["m"].str());
                return okk();
            }
            else if (op == "BmBin") return okv(J(m.BinProbability(ev["i"].num())));
            else if (op == "BmProb")
            {
                std::vector<std::string> n;
                std::vector<double> v;
                for (auto &e : ev["e"].a)
                {
                    n.push_back(e[0].str());
                    v.push_back(e[1].real());
                }
                Event e(v);
                e.SetObservableNames(&n);
                return okv(J(m.Probability(e)));
            }
            else if (op == "BmApply")
            {
                SystematicManager &g = *in(sgs, ev["s"]);
                g.Construct();
                m.ApplySystematics(g);
                along.erase(ev["m"].str());
            }
            else if (op == "BmShrink")
            {
                BinnedEDShrinker q;
                for (auto &b : ev["buf"].a) q.SetBuffer(b[0].str(), b[1].num(), b[2].num());
                q.SetUsingOverflows(ev["ov"].yes());
                // the shrinker is told about the binning by whoever uses it
                if (m.GetNPdfs())
                {
                    const BinnedED &o = m.GetOriginalPdf(0);
                    q.SetBinMap(along.count(ev["m"].str()) ? o.Marginalise(along[ev["m"].str()]) : o);
                }
                m.ApplyShrink(q);
            }
            else if (op == "BmAlong") 
            {
                m.AssertDimensions(ev["names"].strs());
                along[ev["m"].str()] = ev["names"].strs();
            }
            else throw ScriptError("unknown op " + op);
            return okk();
        });
        if (op == "BmDel") return r;
        if (op == "BmApply" || op == "BmShrink" || op == "BmAlong")
        {
            JA q;
            for (size_t i = 0; m.GetNPdfs(); i++)
            {
                J x = attempt([&] { return okv(J(m.BinProbability(i))); });
                if (!x["ok"].yes()) break;
                q.push_back(x["v"]);
            }
            r.put("bins", J(q));
        }
        r.put("pars", parsOf(m));
        r.put("n", J((size_t)m.GetNPdfs()));
        if (ev.has("drop")) bms.erase(ev["m"].str());
        if (ev.has("to") && op == "BmCopy") r.put("cpars", parsOf(*bms[ev["to"].str()]));
        return r;
    }
    if (op == "SgNew")
    {
        sgs[ev["s"].str()].reset(new SystematicManager);
        return okk();
    }
    if (op == "SgAdd")
        return attempt([&] {
            if (ev["g"].str() == "") in(sgs, ev["s"])->Add(in(sys_, ev["h"]).s);
            else in(sgs, ev["s"])->Add(in(sys_, ev["h"]).s, ev["g"].str());
            return okk();
        });
    if (op == "SgReg")
        return attempt([&] {
            AxisCollection a;
            a.AddAxis(BinAxis("x", 0, 1, 1));
            in(sgs, ev["s"])->AddDist(BinnedED(ev["name"].str(), a), ev["gs"].strs());
            return okk();
        });
    // systematics
    if (op == "SyNew")
    {
        Sys s;
        s.kind = ev["kind"].str();
        s.s = make(s.kind, ev["name"].str());
        s.np = ev["p"].size();
        std::string h = ev["h"].str();
        if (sys_.count(h)) throw ScriptError("handle in use");
        sys_[h] = s;
        J r = attempt([&] {
            AxisCollection a = axesOf(ev["axes"]);
            if (s.kind == "shift" || s.kind == "scale" || s.kind == "renorm") setPar(s, 0, ev["p"][0].real(), false);
            else setFn(s, ev["p"], s.kind == "conv" ? std::vector<std::string>() : ev["names"].strs());
            s.s->SetAxes(a);
            s.s->SetDistributionObs(ObsSet(a.GetAxisNames()));
            s.s->SetTransformationObs(obsOf(ev["tobs"]));
            pn[h] = ev["names"].strs();
            for (size_t k = 0; k < pn[h].size(); k++)
                if (s.kind != "scalefn" && s.kind != "shape") s.s->RenameParameter(parName(s, k), pn[h][k]);
            return okk();
        });
        r.put("pars", parsOf(*s.s));
        return r;
    }
    if (op == "SyPar")
    {
        Sys &s = in(sys_, ev["h"]);
        J r = attempt([&] {
            s.s->SetParameter(pn[ev["h"].str()].at(ev["k"].num() - 1), ev["x"].real());
            return okk();
        });
        r.put("pars", parsOf(*s.s));
        return r;
    }
    // statistics
    std::string h = ev["h"].str();
    if (op == "StNew")
    {
        sts[h].p.reset(new BinnedNLLH());
        J r = okk();
        r.put("pars", parsOf(*sts[h].p));
        return r;
    }
    if (op == "SumNew")
    {
        std::vector<TestStatistic *> v;
        for (auto &n : ev["parts"].a) v.push_back(in(sts, n).p.get());
        if (v.size() == 2 && ev.has("plus")) sts[h].p.reset(new StatisticSum(*v[0] + *v[1]));
        else if (v.size() == 2 && ev.has("ctor")) sts[h].p.reset(new StatisticSum(*v[0], *v[1]));
        else sts[h].p.reset(new StatisticSum(Sum(v)));
        J r = okk();
        r.put("pars", parsOf(*sts[h].p));
        return r;
    }
    St &t = in(sts, ev["h"]);
    std::string shown = h;
    J r = attempt([&] {
        if (op == "StAdd") addPdf(t.lh(), ev);
        else if (op == "StAdds") addPdfs(t.lh(), ev);
        else if (op == "StSetBm") t.lh().SetPdfManager(*in(bms, ev["m"]));
        else if (op == "StSys")
        {
            Systematic *s = in(sys_, ev["s"]).s;
            if (ev.has("list")) t.p->AddSystematics(std::vector<Systematic *>(1, s), std::vector<std::string>(1, ev["g"].str()));
            else if (ev["g"].str() == "") t.p->AddSystematic(s);
            else t.p->AddSystematic(s, ev["g"].str());
        }
        else if (op == "StBB") t.lh().SetBarlowBeeston(ev["on"].yes());
        else if (op == "StBuf")
        {
            t.lh().SetBuffer(ev["name"].str(), ev["lo"].num(), ev["hi"].num());
            std::pair<unsigned, unsigned> b = t.lh().GetBuffer(ev["name"].str());
            if (b.first != ev["lo"].num() || b.second != ev["hi"].num()) return bad("buffer");
        }
        else if (op == "StOv")
        {
            t.lh().SetBufferAsOverflow(ev["on"].yes());
            if (t.lh().GetBufferAsOverflow() != ev["on"].yes()) return bad("overflow");
        }
        else if (op == "StDist") t.lh().SetDataDist(distOf(ev["d"]));
        else if (op == "StRows")
        {
            // "keep": the same data set again, with the rows it has (so many) and perhaps more
            size_t keep = ev.has("keep") ? (size_t)ev["keep"].num() : 0;
            if (!keep || !t.data || t.data.use_count() > 1 || t.data->GetNEntries() != keep) { keep = 0; t.data.reset(new OXSXDataSet()); }
            t.data->SetObservableNames(ev["names"].strs());
            for (size_t i = keep; i < ev["rows"].a.size(); i++) t.data->AddEntry(Event(ev["rows"].a[i].reals()));
            t.p->SetDataSet(t.data.get());
        }
        else if (op == "StCut") t.p->AddCut(LineCut("c", ev["obs"].str(), ev["a"].real(), ev["side"].str()));
        else if (op == "StCuts")
        {
            CutCollection c;
            for (auto &e : ev["cuts"].a) c.AddCut(LineCut("c", e["obs"].str(), e["a"].real(), e["side"].str()));
            t.p->SetCuts(c);
        }
        else if (op == "StShape")
        {
            ParameterDict co = dictOf(ev["co"]);
            t.p->SetConstraint(dictOf(ev["dict"]), [co](const ParameterDict &p) {
                double s = 0;
                for (auto &c : co) s += c.second * p.at(c.first);
                return s; }, ev["m"].real(), ev["s"].real());
        }
        else if (op == "StInterp")
        {
            Histogram q(axesOf(ev["axes"]));
            q.SetBinContents(ev["vals"].reals());
            t.p->SetConstraint(ev["label"].str(), q);
        }
        else if (op == "StSetCons") t.p->SetConstraintManager(in(sts, ev["from"]).p->GetConstraintManager());
        else if (op == "StSetSg") t.p->SetSystematicManager(*in(sgs, ev["s"]));
        else if (op == "StData") return okv(J(t.lh().GetDataDist().GetBinContents()));
        else if (op == "StCopy")
        {
            shown = ev["to"].str();
            BinnedNLLH &from = t.lh();
            auto d = t.data;
            St &to = sts[shown];
            if (to.p) to.lh() = from;
            else to.p.reset(new BinnedNLLH(from));
            to.data = d;
        }
        else if (op == "StInd")
        {
            if (ev.has("sym")) t.p->SetConstraint(ev["name"].str(), ev["m"].real(), ev["lo"].real());
            else t.p->SetConstraint(ev["name"].str(), ev["m"].real(), ev["lo"].real(), ev["hi"].real());
        }
        else if (op == "StPair")
            t.p->SetConstraint(ev["a"].str(), ev["m1"].real(), ev["s1"].real(), ev["b"].str(), ev["m2"].real(), ev["s2"].real(), ev["corr"].real());
        else if (op == "StRatio") t.p->SetConstraint(ev["a"].str(), ev["b"].str(), ev["m"].real(), ev["s"].real());
        else if (op == "StReg") t.p->RegisterFitComponents();
        else if (op == "StSets" && ev.has("base")) t.lh().TestStatistic::SetParameters(dictOf(ev["dict"])); // what other statistics inherit
        else if (op == "StSets") t.p->SetParameters(dictOf(ev["dict"]));
        else if (op == "StEval")
        {
            if (!ev.has("dbg")) return okv(J(t.p->Evaluate()));
            t.p->SetDebugMode(true);
            J v = attempt([&] { return okv(J(t.p->Evaluate())); });
            t.p->SetDebugMode(false);
            return v;
        }
        else if (op == "StNorms") return okv(J(t.lh().GetNormalisations()));
        else if (op == "StSetNorms") t.lh().SetNormalisations(ev["v"].reals());
        else if (op == "StCutLog")
        {
            CutLog l = t.p->GetSignalCutLog();
            JA a;
            for (auto n : l.GetCutCounts()) a.push_back(J((size_t)n));
            return okv(J(a));
        }
        else if (op == "SumAdd") t.sum().AddStat(*in(sts, ev["p"]).p);
        else if (op == "SumPlus")
        {
            shown = ev["to"].str();
            std::unique_ptr<TestStatistic> q(new StatisticSum(t.sum() + *in(sts, ev["p"]).p));
            sts[shown].p = std::move(q);
        }
        else throw ScriptError("unknown op " + op);
        return okk();
    });
    r.put("pars", parsOf(*sts[shown].p));
    if (BinnedNLLH *b = dynamic_cast<BinnedNLLH *>(sts[shown].p.get()))
        if (!same(b->TestStatistic::GetParameters(), b->GetParameters()) || b->TestStatistic::GetParameterNames() != b->GetParameterNames() ||
            b->TestStatistic::GetParameterCount() != b->GetParameterCount())
            r.put("pars", J(JA{J(JA{J("what is inherited"), J(0.)})}));
    if (op == "StCopy") r.put("opars", parsOf(*sts[h].p));
    // the parameters of what a sum is made of
    if (op == "StSets")
    {
        JA a;
        for (auto &s : sts) a.push_back(J(JA{J(s.first), parsOf(*s.second.p)}));
        r.put("all", J(a));
    }
    return r;
}
DRV_MAIN
