// Conformance driver for spec/ParamSys.tla: ParameterManager, every fit component, ComponentManager,
// ConstraintManager.
#include "drv.h"
#include <TRandom3.h>
#include <list>
#include <AnalyticED.h>
#include <AxisCollection.h>
#include <ComponentManager.h>
#include <ConstraintManager.h>
#include <Convolution.h>
#include <EventConvolution.h>
#include <EventReconvolution.h>
#include <EventScale.h>
#include <EventShift.h>
#include <Gaussian.h>
#include <Histogram.h>
#include <JumpPDF.h>
#include <ParameterManager.h>
#include <Renorm.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>
#include <SpectralFitDist.h>
#include <SquareRootScale.h>
#include <VaryingCDF.h>

struct Pm
{
    std::unique_ptr<ParameterManager> m;
    std::vector<double> d; // never resized
    std::vector<double> v;
    std::list<double> l;
    bool list;
};
struct Cp
{
    FitComponent *c;
    std::string kind;
    std::shared_ptr<ParameterDict> seen;
};
static std::map<std::string, std::unique_ptr<Pm>> pms;
static std::map<std::string, Cp> cps;
static std::map<std::string, std::vector<std::string>> mgn;
static std::map<std::string, ComponentManager> mgs;
static std::map<std::string, ConstraintManager> cons;

template <typename M>
static auto &in(M &m, const J &n)
{
    auto it = m.find(n.str());
    if (it == m.end()) throw ScriptError("no object " + n.str());
    return it->second;
}
template <typename T>
static T *as(FitComponent *c)
{
    T *t = dynamic_cast<T *>(c);
    if (!t) throw ScriptError("component of another kind");
    return t;
}
static J withState(J out, const std::string &k, const J &v)
{
    out.put(k, v);
    return out;
}
static J pmJ(Pm &p)
{
    J r = J(JO());
    r.put("d", J(p.d));
    r.put("c", p.list ? J(std::vector<double>(p.l.begin(), p.l.end())) : J(p.v));
    r.put("names", J(p.m->GetParameterNames()));
    r.put("n", J(p.m->GetParameterCount()));
    bool live = true;
    try { r.put("pars", J(p.m->GetParameters())); }
    catch (const std::exception &) { live = false; }
    r.put("live", J(live));
    return r;
}
static J pairs(const ParameterDict &d) { return J(d); }
static J cpJ(Cp &h)
{
    FitComponent *c = h.c;
    J r = J(JO());
    r.put("name", J(c->GetName()));
    std::set<std::string> names = c->GetParameterNames();
    r.put("names", J(names));
    r.put("pars", pairs(c->GetParameters()));
    r.put("n", J(c->GetParameterCount()));
    JA g;
    for (auto &n : names) g.push_back(J(JA{J(n), J(c->GetParameter(n))}));
    r.put("gets", J(g));
    if (h.kind == "shift") r.put("view", J(JA{J(as<Shift>(c)->GetShift())}));
    if (h.kind == "scale") r.put("view", J(JA{J(as<Scale>(c)->GetScaleFactor())}));
    if (h.kind == "evshift") r.put("view", J(JA{J(as<EventShift>(c)->GetShift())}));
    if (h.kind == "evscale") r.put("view", J(JA{J(as<EventScale>(c)->GetScale())}));
    if (h.kind == "sqrt") r.put("view", J(JA{J(as<SquareRootScale>(c)->GetGradient())}));
    if (h.kind == "spectral") r.put("view", J(as<SpectralFitDist>(c)->GetBinContents()));
    if (h.kind == "gauss")
    {
        JA v;
        Gaussian *q = as<Gaussian>(c);
        for (double x : q->GetMeans()) v.push_back(J(x));
        for (double x : q->GetStdDevs()) v.push_back(J(x));
        for (size_t i = 0; i < q->GetNDims(); i++)
            if (q->GetMean(i) != q->GetMeans()[i] || q->GetStDev(i) != q->GetStdDevs()[i]) v.push_back(J("nan"));
        r.put("view", J(v));
    }
    if (h.kind == "shape" || h.kind == "scalefn")
    {
        h.seen->clear();
        as<Systematic>(c)->Construct();
        r.put("seen", pairs(*h.seen));
    }
    return r;
}
static AxisCollection axesOf(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals()));
    return c;
}
static Cp make(const std::string &kind, const std::string &name, const J &ev)
{
    Cp r;
    r.kind = kind;
    r.c = 0;
    AxisCollection ax;
    ax.AddAxis(BinAxis("x", 0, 2, 2));
    ObsSet obs(std::vector<std::string>(1, "x"));
    Systematic *s = 0;
    if (kind == "shift") r.c = s = new Shift(name);
    if (kind == "scale") r.c = s = new Scale(name);
    if (kind == "renorm") r.c = s = new Renorm(name);
    if (kind == "evshift") r.c = new EventShift(name);
    if (kind == "evscale") r.c = new EventScale(name);
    if (kind == "evreconv") r.c = new EventReconvolution(name);
    if (kind == "sqrt") r.c = new SquareRootScale(name);
    if (kind == "shape")
    {
        r.seen = std::make_shared<ParameterDict>();
        auto seen = r.seen;
        Shape *q = new Shape(name);
        q->SetShapeFunction([seen](const ParameterDict &p, const std::vector<double> &) { *seen = p; return 1.; }, ev["j"].strs());
        r.c = s = q;
    }
    if (kind == "scalefn")
    {
        r.seen = std::make_shared<ParameterDict>();
        auto seen = r.seen;
        ScaleFunction *q = new ScaleFunction(name);
        q->SetScaleFunction([seen](const ParameterDict &p, const double &x) { *seen = p; return x; }, ev["j"].strs());
        r.c = s = q;
    }
    if (kind == "spectral")
    {
        AxisCollection a;
        a.AddAxis(BinAxis("x", 0, double(ev["j"].num()), size_t(ev["j"].num())));
        r.c = new SpectralFitDist(name, a);
    }
    if (kind == "gauss")
    {
        const std::vector<double> m = ev["j"]["m"].reals(), w = ev["j"]["s"].reals();
        // the shorter ways to the same
        bool plain = m.size() == w.size() && m == std::vector<double>(m.size(), 0) && w == std::vector<double>(m.size(), 1);
        if (plain && m.size() == 1 && name.empty()) r.c = new Gaussian();
        else if (plain) r.c = new Gaussian(m.size(), name);
        else if (m.size() == 1 && w.size() == 1) r.c = new Gaussian(m[0], w[0], name);
        else r.c = new Gaussian(m, w, name);
    }
    if (!r.c) throw ScriptError("component " + kind);
    if (s)
    {
        s->SetAxes(ax);
        s->SetDistributionObs(obs);
        s->SetTransformationObs(obs);
    }
    return r;
}
static Cp copyOf(const Cp &h)
{
    Cp r;
    r.kind = h.kind;
    r.c = 0;
    r.seen = h.seen;
    const FitComponent *c = h.c;
    // a copy, then an assignment over something else: both ways must give an equal, independent object
    if (h.kind == "gauss")
    {
        r.c = as<Gaussian>(h.c)->Clone();
    }
    if (h.kind == "sqrt") r.c = as<SquareRootScale>(h.c)->Clone();
    if (h.kind == "jump")
    {
        JumpPDF *n = new JumpPDF("other");
        *n = *as<JumpPDF>(h.c);
        r.c = n;
    }
    if (h.kind == "vary")
    {
        VaryingCDF *n = new VaryingCDF("other");
        *n = *as<VaryingCDF>(h.c);
        VaryingCDF *m = static_cast<VaryingCDF *>(n->Clone());
        delete n;
        r.c = m;
    }
    if (h.kind == "analytic")
    {
        r.c = new AnalyticED(*as<AnalyticED>(h.c));
    }
    if (h.kind == "evconv") r.c = new EventConvolution(*as<EventConvolution>(h.c));
    if (h.kind == "spectral") r.c = new SpectralFitDist(*as<SpectralFitDist>(h.c));
    if (h.kind == "shift") r.c = new Shift(*as<Shift>(h.c));
    if (h.kind == "scale") r.c = new Scale(*as<Scale>(h.c));
    if (h.kind == "shape") r.c = new Shape(*as<Shape>(h.c));
    if (h.kind == "scalefn") r.c = new ScaleFunction(*as<ScaleFunction>(h.c));
    if (h.kind == "evshift") r.c = new EventShift(*as<EventShift>(h.c));
    if (h.kind == "evscale") r.c = new EventScale(*as<EventScale>(h.c));
    if (h.kind == "evreconv") r.c = new EventReconvolution(*as<EventReconvolution>(h.c));
    if (!r.c) throw ScriptError("cannot copy " + h.kind);
    (void)c;
    return r;
}
template <typename T>
static bool asg(Cp &to, const Cp &from) { *as<T>(to.c) = *as<T>(from.c); return true; }
static bool assign(Cp &to, const Cp &from)
{
    if (from.kind == "jump") return asg<JumpPDF>(to, from);
    if (from.kind == "vary") return asg<VaryingCDF>(to, from);
    if (from.kind == "analytic") return asg<AnalyticED>(to, from);
    if (from.kind == "evconv") return asg<EventConvolution>(to, from);
    if (from.kind == "spectral") return asg<SpectralFitDist>(to, from);
    if (from.kind == "shift") return asg<Shift>(to, from);
    if (from.kind == "scale") return asg<Scale>(to, from);
    if (from.kind == "shape") return asg<Shape>(to, from);
    if (from.kind == "scalefn") return asg<ScaleFunction>(to, from);
    if (from.kind == "evshift") return asg<EventShift>(to, from);
    if (from.kind == "evscale") return asg<EventScale>(to, from);
    if (from.kind == "evreconv") return asg<EventReconvolution>(to, from);
    return false;
}
static void putCp(const J &n, const Cp &c)
{
    auto it = cps.find(n.str());
    if (it != cps.end()) delete it->second.c;
    cps[n.str()] = c;
}
static J mgJ(const std::string &g)
{
    ComponentManager &m = mgs[g];
    J r = J(JO());
    r.put("names", J(m.GetParameterNames()));
    r.put("pars", J(m.GetParameters()));
    r.put("n", J(size_t(m.GetTotalParameterCount())));
    r.put("comps", J(m.GetComponentCount()));
    JA a;
    for (auto &h : mgn[g]) a.push_back(cpJ(cps[h]));
    r.put("cps", J(a));
    return r;
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        mgs.clear();
        mgn.clear();
        for (auto &c : cps) delete c.second.c;
        cps.clear();
        pms.clear();
        cons.clear();
        return okk();
    }
    // ---- ParameterManager
    if (ev.has("p"))
    {
        if (op == "NewPm")
        {
            std::unique_ptr<Pm> p(new Pm);
            p->m.reset(new ParameterManager);
            p->d = ev["d"].reals();
            p->list = ev.has("list");
            p->v = ev["c"].reals();
            p->l = std::list<double>(p->v.begin(), p->v.end());
            pms[ev["p"].str()] = std::move(p);
            return withState(okk(), "pm", pmJ(*pms[ev["p"].str()]));
        }
        Pm &p = *in(pms, ev["p"]);
        J out = attempt([&]() -> J {
            if (op == "PmAddD") p.m->AddDouble(p.d.at(ev["i"].num() - 1), ev["name"].str());
            else if (op == "PmAddC")
            {
                if (p.list) p.m->AddContainer<std::list<double>>(p.l, ev["names"].strs());
                else p.m->AddContainer<std::vector<double>>(p.v, ev["names"].strs());
            }
            else if (op == "PmAddBase")
            {
                if (p.list) p.m->AddContainer<std::list<double>>(p.l, ev["base"].str());
                else p.m->AddContainer<std::vector<double>>(p.v, ev["base"].str());
            }
            else if (op == "PmSet") p.m->SetParameter(ev["name"].str(), ev["x"].real());
            else if (op == "PmGet") return okv(J(p.m->GetParameter(ev["name"].str())));
            else if (op == "PmSets") p.m->SetParameters(ev["dict"].dict());
            else if (op == "PmRename") p.m->RenameParameter(ev["from"].str(), ev["to"].str());
            else if (op == "PmClear") p.m->Clear();
            else if (op == "Poke")
            {
                size_t i = ev["i"].num() - 1;
                if (ev["src"].str() == "d") p.d.at(i) = ev["x"].real();
                else if (p.list)
                {
                    auto it = p.l.begin();
                    std::advance(it, i);
                    *it = ev["x"].real();
                }
                else p.v.at(i) = ev["x"].real();
            }
            else if (op == "Resize")
            {
                p.v.resize(ev["n"].num());
                p.l.resize(ev["n"].num());
            }
            else throw ScriptError("op " + op);
            return okk();
        });
        return withState(out, "pm", pmJ(p));
    }
    // ---- groups
    if (ev.has("m") && op.compare(0, 3, "Con") != 0)
    {
        const std::string g = ev["m"].str();
        if (op == "NewMg")
        {
            mgs[g] = ComponentManager();
            mgn[g].clear();
            return withState(okk(), "mg", mgJ(g));
        }
        if (!mgs.count(g)) throw ScriptError("no group");
        J out = attempt([&]() -> J {
            if (op == "MgAdd")
            {
                mgs[g].AddComponent(in(cps, ev["h"]).c);
                mgn[g].push_back(ev["h"].str());
            }
            else if (op == "MgClear")
            {
                mgs[g].Clear();
                mgn[g].clear();
            }
            else if (op == "MgSets") mgs[g].SetParameters(ev["dict"].dict());
            else if (op == "MgGet") return okv(J(mgs[g].GetParameter(ev["name"].str())));
            else throw ScriptError("op " + op);
            return okk();
        });
        return withState(out, "mg", mgJ(g));
    }
    // ---- components
    if (op == "NewCp" || op == "Wrap" || op == "NewVary")
    {
        J out = attempt([&]() -> J {
            const std::string name = ev["name"].str();
            Cp c;
            if (op == "NewCp") c = make(ev["kind"].str(), name, ev);
            else if (op == "Wrap")
            {
                c.kind = ev["kind"].str();
                Gaussian *g = as<Gaussian>(in(cps, ev["g"]).c);
                if (c.kind == "jump") c.c = new JumpPDF(name, g);
                else if (c.kind == "analytic")
                {
                    c.c = new AnalyticED(name, g);
                }
                else if (c.kind == "conv")
                {
                    Convolution *v = new Convolution(name);
                    v->SetFunction(g);
                    c.c = v;
                }
                else if (c.kind == "evconv")
                {
                    EventConvolution *v = new EventConvolution(name);
                    v->SetPDF(g);
                    c.c = v;
                }
                else throw ScriptError("wrap " + c.kind);
            }
            else
            {
                c.kind = "vary";
                VaryingCDF *v = new VaryingCDF(name);
                v->SetKernel(as<Gaussian>(in(cps, ev["g"]).c));
                if (ev.has("cond"))
                {
                    JumpPDF j("moved", as<Gaussian>(in(cps, ev["g"]).c));
                    v->SetKernel(&j);
                }
                for (auto &d : ev["deps"].a) v->SetDependance(d[0].str(), as<SquareRootScale>(in(cps, d[1]).c));
                c.c = v;
            }
            putCp(ev["h"], c);
            return okk();
        });
        return out["ok"].b ? withState(out, "cp", cpJ(in(cps, ev["h"]))) : out;
    }
    if (ev.has("h"))
    {
        Cp &h = in(cps, ev["h"]);
        FitComponent *c = h.c;
        std::string show = ev["h"].str();
        J out = attempt([&]() -> J {
            if (op == "CpSet") c->SetParameter(ev["name"].str(), ev["x"].real());
            else if (op == "CpGet") return okv(J(c->GetParameter(ev["name"].str())));
            else if (op == "CpSets") c->SetParameters(ev["dict"].dict());
            else if (op == "CpRename") c->RenameParameter(ev["from"].str(), ev["to"].str());
            else if (op == "CpTitle") c->SetName(ev["name"].str());
            else if (op == "CpFunc")
            {
                h.seen = std::make_shared<ParameterDict>();
                auto seen = h.seen;
                if (h.kind == "shape") as<Shape>(c)->SetShapeFunction([seen](const ParameterDict &p, const std::vector<double> &) { *seen = p; return 1.; }, ev["j"].strs());
                else as<ScaleFunction>(c)->SetScaleFunction([seen](const ParameterDict &p, const double &x) { *seen = p; return x; }, ev["j"].strs());
            }
            else if (op == "CpState") {}
            else if (op == "CpCopy")
            {
                show = ev["to"].str();
                if (show == ev["h"].str()) assign(h, h);
                else
                {
                    auto it = cps.find(show);
                    if (ev.has("assign") && it != cps.end() && it->second.kind == h.kind && assign(it->second, h)) it->second.seen = h.seen;
                    else putCp(ev["to"], copyOf(h));
                    if (ev.has("drop")) { delete h.c; cps.erase(ev["h"].str()); }
                }
            }
            else if (op == "Direct")
            {
                double x = ev["x"].real();
                size_t k = ev["k"].num() - 1;
                if (h.kind == "shift") as<Shift>(c)->SetShift(x);
                else if (h.kind == "scale") as<Scale>(c)->SetScaleFactor(x);
                else if (h.kind == "evshift") as<EventShift>(c)->SetShift(x);
                else if (h.kind == "evscale") as<EventScale>(c)->SetScale(x);
                else if (h.kind == "evreconv") as<EventReconvolution>(c)->SetCorrection(x);
                else if (h.kind == "sqrt") as<SquareRootScale>(c)->SetGradient(x);
                else if (h.kind == "spectral") as<SpectralFitDist>(c)->SetBinContent(k, x);
                else if (h.kind == "gauss")
                {
                    Gaussian *g = as<Gaussian>(c);
                    if (k < g->GetNDims()) g->SetMean(k, x);
                    else g->SetStDev(k - g->GetNDims(), x);
                }
                else throw ScriptError("direct " + h.kind);
            }
            else if (op == "Dens")
            {
                std::vector<double> x = ev["x"].reals(), x2 = ev["x2"].reals();
                if (h.kind == "gauss") return okv(J((*as<Gaussian>(c))(x)));
                if (h.kind == "analytic") return okv(J(as<AnalyticED>(c)->Probability(x)));
                return okv(J(as<ConditionalPDF>(c)->ConditionalProbability(x, x2)));
            }
            else if (op == "Inside")
            {
                std::vector<double> lo = ev["lo"].reals(), hi = ev["hi"].reals(), x2 = ev["x2"].reals();
                if (h.kind == "gauss") return okv(J(as<Gaussian>(c)->Integral(lo, hi)));
                return okv(J(as<ConditionalPDF>(c)->Integral(lo, hi, x2)));
            }
            else if (op == "GaMeans") as<Gaussian>(c)->SetMeans(ev["to"].reals());
            else if (op == "GaWidths") as<Gaussian>(c)->SetStDevs(ev["to"].reals());
            else if (op == "GaCut")
            {
                as<Gaussian>(c)->SetCdfCutOff(ev["x"].real());
                if (as<Gaussian>(c)->GetCdfCutOff() != ev["x"].real()) return okv(J("cut-off"));
            }
            else if (op == "GaAt")
            {
                Gaussian *g = as<Gaussian>(c);
                size_t k = ev["k"].num() - 1;
                return together({[&]() { return J(g->GetMean(k)); }, [&]() { return J(g->GetStDev(k)); }});
            }
            else if (op == "GaSample")
            {
                VerifRng::get().used.clear();
                std::vector<double> v = as<Gaussian>(c)->Sample();
                std::vector<double> u;
                for (double x : VerifRng::get().used) u.push_back(6 * x - 3);
                J o = okv(J(v));
                o.put("u", J(u));
                return o;
            }
            else if (op == "CoSample")
            {
                VerifRng::get().used.clear();
                std::vector<double> v = as<ConditionalPDF>(c)->Sample(ev["x2"].reals());
                std::vector<double> u;
                for (double x : VerifRng::get().used) u.push_back(6 * x - 3);
                J o = okv(J(v));
                o.put("u", J(u));
                return o;
            }
            else if (op == "VaDep") as<VaryingCDF>(c)->SetDependance(ev["name"].str(), as<SquareRootScale>(in(cps, ev["g"]).c));
            else if (op == "VaKer")
            {
                Gaussian *g = as<Gaussian>(in(cps, ev["g"]).c);
                JumpPDF j("moved", g);
                if (ev.has("cond")) as<VaryingCDF>(c)->SetKernel(&j);
                else as<VaryingCDF>(c)->SetKernel(g);
            }
            else if (op == "GaOver")
            {
                show = ev["to"].str();
                *as<Gaussian>(in(cps, ev["to"]).c) = *as<Gaussian>(c);
            }
            else if (op == "SqrtAt") return okv(J((*as<SquareRootScale>(c))(std::vector<double>(1, ev["x"].real()))));
            else throw ScriptError("op " + op);
            return okk();
        });
        return withState(out, "cp", cpJ(cps[show]));
    }
    // ---- constraints
    if (op == "NewCon")
    {
        cons[ev["c"].str()] = ConstraintManager();
        return okk();
    }
    ConstraintManager &m = in(cons, ev["c"]);
    return attempt([&]() -> J {
        if (op == "CopyCon")
        {
            ConstraintManager k(m);
            cons[ev["to"].str()] = k;
            if (ev.has("drop")) cons.erase(ev["c"].str());
        }
        else if (op == "ConInd")
        {
            if (ev.has("lo")) m.SetConstraint(ev["name"].str(), ev["m"].real(), ev["hi"].real(), ev["lo"].real());
            else m.SetConstraint(ev["name"].str(), ev["m"].real(), ev["hi"].real());
        }
        else if (op == "ConPair")
            m.SetConstraint(ev["a"].str(), ev["m1"].real(), ev["s1"].real(), ev["b"].str(), ev["m2"].real(), ev["s2"].real(), ev["corr"].real());
        else if (op == "ConRatio") m.SetConstraint(ev["a"].str(), ev["b"].str(), ev["m"].real(), ev["s"].real());
        else if (op == "ConFrac") m.SetFracConstraint(ev["a"].str(), ev["b"].str(), ev["m"].real(), ev["s"].real());
        else if (op == "ConInterp")
        {
            Histogram h(axesOf(ev["axes"]));
            h.SetBinContents(ev["vals"].reals());
            m.SetConstraint(ev["label"].str(), h);
        }
        else if (op == "ConShape")
        {
            ParameterDict co = ev["co"].dict();
            m.SetConstraint(ev["dict"].dict(), [co](const ParameterDict &p) {
                double s = 0;
                for (auto &c : co) s += c.second * p.at(c.first);
                return s; }, ev["m"].real(), ev["s"].real());
        }
        else if (op == "ConEval")
        {
            double a = m.Evaluate(ev["dict"].dict());
            m.SetDebugMode(true);
            double b = m.Evaluate(ev["dict"].dict());
            m.SetDebugMode(false);
            if (a != b && !(std::isnan(a) && std::isnan(b))) return bad("two evaluations differ");
            return okv(J(a));
        }
        else throw ScriptError("op " + op);
        return okk();
    });
}
DRV_MAIN
