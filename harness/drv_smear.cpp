// Conformance driver for spec/SmearSys.tla: SparseMatrix, DenseMatrix, the systematics, SystematicManager.
#include "sysdrv.h"
#include <DenseMatrix.h>
#include <SparseMatrix.h>

struct Mat
{
    bool sparse;
    size_t r, c; // as asked for: DenseMatrix does not tell its size
    SparseMatrix s;
    DenseMatrix d;
};
struct Mgr
{
    SystematicManager m;
};
static std::map<std::string, Mat> mats;
static std::map<std::string, Sys> sys_;
static std::map<std::string, BinnedED> ds;
static std::map<std::string, Mgr> sms;

static J rows(const SparseMatrix &m)
{
    JA a;
    for (size_t i = 0; i < m.GetNRows(); i++)
    {
        JA b;
        for (size_t j = 0; j < m.GetNCols(); j++) b.push_back(J(m.GetComponent(i, j)));
        a.push_back(J(b));
    }
    return J(a);
}
static J matJ(const Mat &m)
{
    if (m.sparse)
        return obj({{"r", J(m.s.GetNRows())}, {"c", J(m.s.GetNCols())}, {"m", rows(m.s)}});
    JA a;
    for (size_t i = 0; i < m.r; i++)
    {
        JA b;
        for (size_t j = 0; j < m.c; j++) b.push_back(J(m.d.GetComponent(i, j)));
        a.push_back(J(b));
    }
    return obj({{"r", J(m.r)}, {"c", J(m.c)}, {"m", J(a)}});
}
static J respJ(const Sys &s)
{
    const SparseMatrix &m = s.s->GetResponse();
    return obj({{"r", J(m.GetNRows())}, {"c", J(m.GetNCols())}, {"m", rows(m)}});
}
template <typename T>
static Systematic *dup(Sys &from, Sys *to, bool assign)
{
    if (!to && assign)
    {
        T *n = new T("another one");
        *n = *as<T>(from);
        return n;
    }
    if (to)
    {
        *as<T>(*to) = *as<T>(from);
        return to->s;
    }
    return new T(*as<T>(from));
}
static Systematic *copy(Sys &s, Sys *to, bool assign)
{
    if (s.kind == "shift") return dup<Shift>(s, to, assign);
    if (s.kind == "scale") return dup<Scale>(s, to, assign);
    if (s.kind == "scalefn") return dup<ScaleFunction>(s, to, assign);
    if (s.kind == "shape") return dup<Shape>(s, to, assign);
    if (s.kind == "renorm") return dup<Renorm>(s, to, assign);
    return dup<Convolution>(s, to, assign);
}
static J dJ(const BinnedED &d) { return obj({{"name", J(d.GetName())}, {"c", J(d.GetBinContents())}}); }
static J smInfo(SystematicManager &m)
{
    JA g;
    for (auto &n : m.GetGroupNames())
    {
        std::vector<std::string> a = m.GetGroup(n), b = m.GetSystematicsNamesInGroup(n), c;
        for (auto *s : m.GetSystematicsInGroup(n)) c.push_back(s->GetName());
        if (a != b || a != c || m.GetNSystematicsInGroup(n) != a.size()) return J(-1);
        if (n == "" && m.GetGlobalSystematics() != m.GetSystematicsInGroup("")) return J(-2);
        g.push_back(J(JA{J(n), J(a)}));
    }
    if (m.GetSystematicsGroup().size() != g.size()) return J(-3);
    return obj({{"n", J(m.GetNSystematics())}, {"ng", J(m.GetNGroups())}, {"groups", J(g)}});
}

J handle(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "Reset")
    {
        mats.clear();
        sms.clear();
        for (auto &p : sys_) delete p.second.s;
        sys_.clear();
        ds.clear();
        return okk();
    }
    // matrices
    if (op == "NewMat")
    {
        Mat m;
        m.sparse = ev["kind"].str() == "S";
        m.r = ev["r"].num();
        m.c = ev["c"].num();
        if (m.sparse) m.s = SparseMatrix(m.r, m.c);
        else m.d = DenseMatrix(m.r, m.c);
        mats[ev["h"].str()] = m;
        J r = okk();
        r.put("a", matJ(m));
        return r;
    }
    if (op.compare(0, 3, "Mat") == 0)
    {
        Mat &m = in(mats, ev["h"]);
        std::string shown = ev["h"].str();
        J r = attempt([&] {
            if (op == "MatSet")
            {
                if (m.sparse) m.s.SetComponent(ev["i"].num(), ev["j"].num(), ev["x"].real());
                else m.d.SetComponent(ev["i"].num(), ev["j"].num(), ev["x"].real());
            }
            else if (op == "MatGet")
                return okv(J(m.sparse ? m.s.GetComponent(ev["i"].num(), ev["j"].num()) : m.d.GetComponent(ev["i"].num(), ev["j"].num())));
            else if (op == "MatSets")
            {
                std::vector<long long unsigned int> a, b;
                std::vector<double> v;
                for (auto &t : ev["ts"].a)
                {
                    a.push_back(t[0].num());
                    b.push_back(t[1].num());
                    v.push_back(t[2].real());
                }
                m.s.SetComponents(a, b, v);
            }
            else if (op == "MatVec")
                return okv(J(m.sparse ? m.s(ev["v"].reals()) : m.d(ev["v"].reals())));
            else if (op == "MatZero") { m.sparse ? m.s.SetZeros() : m.d.SetZeros(); }
            else if (op == "MatId") { m.sparse ? m.s.SetToIdentity() : m.d.SetToIdentity(); }
            else if (op == "MatScale") m.s.Scale(ev["k"].real());
            else if (op == "MatSym") m.d.SetSymmetricMatrix(ev["v"].reals());
            else if (op == "MatCopy")
            {
                mats[ev["to"].str()] = Mat(m);
                shown = ev["to"].str();
                if (ev.has("drop")) mats.erase(ev["h"].str());
            }
            else if (op == "MatMul")
            {
                Mat &g = in(mats, ev["g"]);
                bool eq = ev["to"].str() == ev["h"].str();
                Mat p;
                if (eq) p = m;
                p.sparse = m.sparse;
                p.r = m.r;
                p.c = g.c;
                if (eq) { if (m.sparse) m.s *= g.s; else m.d *= g.d; m.c = g.c; }
                else if (m.sparse) p.s = m.s * g.s;
                else { p.d = m.d; p.d *= g.d; }
                if (!eq) mats[ev["to"].str()] = p;
            }
            else throw ScriptError("unknown op " + op);
            return okk();
        });
        r.put("a", matJ(in(mats, J(shown))));
        if (ev.has("g")) r.put("b", matJ(in(mats, ev["g"])));
        if (ev.has("to") && r["ok"].yes()) r.put("t", matJ(in(mats, ev["to"])));
        return r;
    }
    // systematics
    if (op == "NewSys")
    {
        Sys s;
        s.kind = ev["kind"].str();
        s.s = make(s.kind, ev["name"].str());
        s.np = 1;
        if (sys_.count(ev["h"].str())) throw ScriptError("handle in use");
        sys_[ev["h"].str()] = s;
        J r = okk();
        r.put("resp", respJ(s));
        return r;
    }
    if (op.compare(0, 3, "Sys") == 0)
    {
        Sys &s = in(sys_, ev["h"]);
        std::string shown = ev["h"].str();
        J r = attempt([&] {
            if (op == "SysFn") setFn(s, ev["p"]);
            else if (op == "SysPar") setPar(s, ev["k"].num() - 1, ev["x"].real(), ev.has("direct"));
            else if (op == "SysAxes") s.s->SetAxes(axesOf(ev["axes"]));
            else if (op == "SysT") s.s->SetTransformationObs(obsOf(ev["o"]));
            else if (op == "SysD") s.s->SetDistributionObs(obsOf(ev["o"]));
            else if (op == "SysResp") s.s->SetResponse(in(mats, ev["g"]).s);
            else if (op == "SysBuild") s.s->Construct();
            else if (op == "SysCopy")
            {
                auto it = sys_.find(ev["to"].str());
                Sys n = s;
                n.s = copy(s, it == sys_.end() ? 0 : &it->second, ev.has("assign"));
                sys_[ev["to"].str()] = n;
                shown = ev["to"].str();
                if (ev.has("drop")) { delete s.s; sys_.erase(ev["h"].str()); }
            }
            else throw ScriptError("unknown op " + op);
            return okk();
        });
        r.put("resp", respJ(sys_[shown]));
        Sys &t = sys_[shown];
        if (t.kind == "shift") r.put("par", J(as<Shift>(t)->GetShift()));
        if (t.kind == "scale") r.put("par", J(as<Scale>(t)->GetScaleFactor()));
        if (t.kind == "renorm") r.put("par", J(as<Renorm>(t)->GetScaleFactor()));
        r.put("name", J(t.s->GetName()));
        r.put("tobs", J(t.s->GetTransformationObs().GetNames()));
        r.put("dobs", J(t.s->GetDistributionObs().GetNames()));
        r.put("axes", J(t.s->GetAxes().GetAxisNames()));
        return r;
    }
    if (op == "NewD")
    {
        BinnedED d(ev["name"].str(), axesOf(ev["axes"]));
        d.SetBinContents(ev["c"].reals());
        ds[ev["d"].str()] = d;
        J r = okk();
        r.put("dist", dJ(d));
        return r;
    }
    if (op == "Smear")
    {
        double norm = 0;
        J r = attempt([&] {
            const Systematic &s = *in(sys_, ev["h"]).s;
            BinnedED x = s(in(ds, ev["d"]), ev["norm"].yes() ? &norm : nullptr);
            ds[ev["to"].str()] = x;
            return okv(J(norm));
        });
        r.put("dist", dJ(in(ds, r["ok"].yes() ? ev["to"] : ev["d"])));
        if (ev["to"].str() != ev["d"].str()) r.put("from", dJ(in(ds, ev["d"])));
        return r;
    }
    // managers
    if (op == "NewSm")
    {
        sms[ev["m"].str()];
        J r = okk();
        r.put("sm", smInfo(in(sms, ev["m"]).m));
        return r;
    }
    SystematicManager &m = in(sms, ev["m"]).m;
    if (op == "SmConstruct")
    {
        J r = attempt([&] { m.Construct(); return okk(); });
        JA a, t;
        for (auto &p : sys_) a.push_back(J(JA{J(p.first), respJ(p.second)["m"]}));
        for (auto &g : m.GetGroupNames())
        {
            J x = attempt([&] { return okv(rows(m.GetTotalResponse(g))); });
            t.push_back(J(JA{J(g), x}));
        }
        r.put("resps", J(a));
        r.put("tots", J(t));
        return r;
    }
    if (op == "SmDistort")
    {
        std::vector<BinnedED> o, w;
        for (auto &n : ev["orig"].a) o.push_back(in(ds, n));
        for (auto &n : ev["work"].a) w.push_back(in(ds, n));
        std::vector<double> norms(o.size(), -1);
        bool want = ev["norms"].yes();
        J r = attempt([&] {
            m.DistortEDs(o, w, want ? &norms : nullptr);
            for (size_t k = 0; k < w.size(); k++) ds[ev["work"][k].str()] = w[k];
            return okv(J(norms));
        });
        JA a, b;
        for (auto &n : ev["orig"].a) a.push_back(dJ(in(ds, n)));
        for (auto &n : ev["work"].a) b.push_back(dJ(in(ds, n)));
        for (size_t k = 0; k < o.size(); k++)
            if (o[k].GetName() != in(ds, ev["orig"][k]).GetName() && ev["orig"][k].str() != ev["work"][k].str()) return bad("originals");
        r.put("orig", J(a));
        r.put("work", J(b));
        return r;
    }
    J r = attempt([&] {
        if (op == "SmAdd")
        {
            Systematic *s = in(sys_, ev["h"]).s;
            if (ev["g"].str() == "" && !ev.has("named")) m.Add(s);
            else m.Add(s, ev["g"].str());
        }
        else if (op == "SmReg")
        {
            BinnedED &d = in(ds, ev["d"]);
            std::vector<std::string> g = ev["gs"].strs();
            if (g.size() == 1 && ev.has("one")) m.AddDist(d, g[0]);
            else m.AddDist(d, g);
        }
        else if (op == "SmGroup")
        {
            std::vector<std::string> v = m.GetGroup(ev["g"].str());
            return okv(J(v));
        }
        else if (op == "SmGroup2") return okv(J(m.GetSystematicsNamesInGroup(ev["g"].str())));
        else if (op == "SmGroupN")
        {
            std::vector<std::string> v;
            size_t n = m.GetNSystematicsInGroup(ev["g"].str());
            for (auto *s : m.GetSystematicsInGroup(ev["g"].str())) v.push_back(s->GetName());
            if (n != v.size()) return bad("count");
            return okv(J(v));
        }
        else if (op == "SmTotal") return okv(rows(m.GetTotalResponse(ev["g"].str())));
        else throw ScriptError("unknown op " + op);
        return okk();
    });
    r.put("sm", smInfo(m));
    return r;
}
DRV_MAIN
