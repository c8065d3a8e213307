// Conformance driver for spec/IoSys.tla: IO, OXSXDataSet, LazyOXSXDataSet, ROOTNtuple, ROOTTree, DistTools.
#include "drv.h"
#include <AxisCollection.h>
#include <BinnedED.h>
#include <DataSet.h>
#include <DistTools.h>
#include <Event.h>
#include <Gaussian.h>
#include <H5Cpp.h>
#include <Histogram.h>
#include <IO.h>
#include <LazyOXSXDataSet.h>
#include <OXSXDataSet.h>
#include <ROOTNtuple.h>
#include <ROOTTree.h>
#include <TH1D.h>
#include <TH2D.h>
#include <TH3D.h>
#include <TTree.h>
#include <cstring>

static std::map<std::string, std::unique_ptr<OXSXDataSet>> dsets;
static std::map<std::string, std::unique_ptr<LazyOXSXDataSet>> lazy;
static std::map<std::string, std::unique_ptr<DataSet>> rds;
static std::map<std::string, Histogram> hists;
static std::set<std::string> made;

static std::string join(const J &j, char c)
{
    std::string r;
    for (size_t k = 0; k < j.size(); k++) r += (k ? std::string(1, c) : "") + j[k].str();
    return r;
}
static J pieces(const std::string &s)
{
    JA r(1, J(""));
    for (char c : s)
        if (c == ':') r.push_back(J(""));
        else r.back().s += c;
    return J(r);
}
static std::string file(const J &f)
{
    std::string s = join(f, '.');
    if (s.find('/') != std::string::npos || s.empty()) throw ScriptError("file name");
    made.insert(s);
    return s;
}
static bool root(const std::string &f) { return f.size() > 5 && f.compare(f.size() - 5, 5, ".root") == 0; }
template <typename M>
static auto &in(M &m, const J &n)
{
    auto it = m.find(n.str());
    if (it == m.end()) throw ScriptError("no object " + n.str());
    return it->second;
}
static DataSet &see(const J &ev)
{
    const std::string &from = ev["from"].str();
    if (from == "ds") return *in(dsets, ev["h"]);
    if (from == "lazy") return *in(lazy, ev["h"]);
    if (from == "root") return *in(rds, ev["h"]);
    throw ScriptError("from");
}
static std::string mix(uint64_t &h, double d)
{
    uint64_t x;
    memcpy(&x, &d, sizeof x);
    h = (h ^ x) * 1099511628211ull + 0x9e3779b97f4a7c15ull;
    h ^= h >> 29;
    return "";
}
static std::string digest(const DataSet &d)
{
    uint64_t h = 14695981039346656037ull;
    size_t n = d.GetNEntries();
    for (size_t i = 0; i < n; i++)
        for (double x : d.GetEntry(i).GetData()) mix(h, x);
    char b[32];
    snprintf(b, sizeof b, "d%016llx", (unsigned long long)h);
    return b;
}
// the values of one entry, by position; the event knows each of them by the name of its observable
static J row(const DataSet &d, size_t i, J &err)
{
    Event e = d.GetEntry(i);
    std::vector<double> v = e.GetData();
    std::vector<std::string> names = d.GetObservableNames();
    if (names.size() == v.size() && std::set<std::string>(names.begin(), names.end()).size() == v.size())
        for (size_t k = 0; k < v.size(); k++)
        {
            double x = e.GetDatum(names[k]);
            if (!(x == v[k] || (std::isnan(x) && std::isnan(v[k])))) err = bad("an event has its values under other names");
        }
    return J(v);
}
static J axesJ(const AxisCollection &c)
{
    JA r;
    for (size_t d = 0; d < c.GetNDimensions(); d++)
    {
        const BinAxis &a = c.GetAxis(d);
        r.push_back(obj({{"name", pieces(a.GetName())}, {"latex", pieces(a.GetLatexName())}, {"lo", J(a.GetBinLowEdges())}, {"hi", J(a.GetBinHighEdges())}}));
    }
    return J(r);
}
static AxisCollection axesOf(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(BinAxis(join(a["name"], ':'), a["lo"].reals(), a["hi"].reals(), join(a["latex"], ':')));
    return c;
}
static J thJ(const TH1 &h)
{
    JA ax;
    const TAxis *a[3] = {h.GetXaxis(), h.GetYaxis(), h.GetZaxis()};
    for (int d = 0; d < h.GetDimension(); d++) ax.push_back(obj({{"title", pieces(a[d]->GetTitle())}, {"edges", J(a[d]->e)}}));
    JA c; // the last axis fastest
    int nx = h.GetNbinsX(), ny = h.GetNbinsY(), nz = h.GetNbinsZ(), dim = h.GetDimension();
    double inner = 0, all = 0;
    for (int i = 1; i <= nx; i++)
        for (int j = 1; j <= ny; j++)
            for (int k = 1; k <= nz; k++)
            {
                c.push_back(J(h.GetBinContent(h.GetBin(i, dim > 1 ? j : 0, dim > 2 ? k : 0))));
                inner += h.GetBinContent(h.GetBin(i, dim > 1 ? j : 0, dim > 2 ? k : 0)) != 0;
            }
    for (int k = 0; k < h.GetNcells(); k++) all += h.GetBinContent(k) != 0;
    if (all != inner) return obj({{"axes", J(ax)}, {"c", J(JA())}});
    return obj({{"axes", J(ax)}, {"c", J(c)}});
}
template <typename T>
static Histogram backFrom(T &h, const J &axes, const J &c)
{
    for (int k = 0; k < h.GetNcells(); k++) h.SetBinContent(k, -99.5); // outside the axes
    TAxis *a[3] = {h.GetXaxis(), h.GetYaxis(), h.GetZaxis()};
    size_t n[3] = {1, 1, 1};
    for (size_t d = 0; d < axes.size(); d++)
    {
        a[d]->SetTitle(join(axes[d]["title"], ':').c_str());
        n[d] = a[d]->GetNbins();
    }
    for (size_t b = 0; b < c.size(); b++)
    {
        int k = b % n[2], j = b / n[2] % n[1], i = b / n[2] / n[1];
        h.SetBinContent(h.GetBin(i + 1, axes.size() > 1 ? j + 1 : 0, axes.size() > 2 ? k + 1 : 0), c[b].real());
    }
    return DistTools::ToHist(h);
}

static J act(const J &ev)
{
    const std::string &op = ev["op"].str();
    if (op == "IoDs" || op == "IoBig")
    {
        std::unique_ptr<OXSXDataSet> d(new OXSXDataSet);
        std::vector<std::string> names;
        for (auto &x : ev["names"].a) names.push_back(join(x, ':'));
        d->SetObservableNames(names);
        if (op == "IoDs")
            for (auto &r : ev["rows"].a) d->AddEntry(Event(r.reals()));
        else
        {
            size_t w = names.size(), n = ev["n"].num();
            std::vector<double> v(w);
            for (size_t i = 0; i < n; i++)
            {
                for (size_t j = 0; j < w; j++) v[j] = .5 * double(i * w + j) + ev["k"].num();
                d->AddEntry(Event(v));
            }
        }
        OXSXDataSet &r = *d;
        dsets[ev["h"].str()] = std::move(d);
        return op == "IoDs" ? okk() : okv(J(digest(r)));
    }
    if (op == "IoGet")
    {
        const DataSet &d = see(ev);
        JA names;
        for (auto &x : d.GetObservableNames()) names.push_back(pieces(x));
        return okv(obj({{"names", J(names)}, {"n", J(size_t(d.GetNEntries()))}, {"nobs", J(size_t(d.GetNObservables()))}}));
    }
    if (op == "IoRows")
    {
        const DataSet &d = see(ev);
        size_t n = d.GetNEntries();
        JA rows;
        J err;
        if (n <= 2000)
            for (size_t i = 0; i < n; i++) rows.push_back(row(d, i, err));
        if (err.has("ok")) return err;
        return okv(obj({{"rows", J(rows)}, {"dig", J(n <= 2000 ? std::string() : digest(d))}}));
    }
    if (op == "IoEntry")
    {
        J err;
        J r = row(see(ev), ev["i"].num(), err);
        return err.has("ok") ? err : okv(r);
    }
    if (op == "IoRm" || op == "IoJunk")
    {
        std::string f = file(ev["f"]);
        unlink(f.c_str());
        shimDisk().erase(f);
        if (op == "IoJunk" && !root(f)) std::ofstream(f) << "not what you are looking for\n";
        return okk();
    }
    if (op == "IoSave")
    {
        IO::SaveDataSet(see(ev), file(ev["f"]), ev["tree"].str());
        return okk();
    }
    if (op == "IoLoad")
    {
        std::unique_ptr<OXSXDataSet> d(IO::LoadDataSet(file(ev["f"])));
        dsets[ev["h"].str()] = std::move(d);
        return okk();
    }
    if (op == "LzNew")
    {
        lazy[ev["l"].str()].reset(new LazyOXSXDataSet(file(ev["f"])));
        return okk();
    }
    if (op == "LzLoad")
    {
        in(lazy, ev["l"])->Load();
        return okk();
    }
    if (op == "LzClose")
    {
        in(lazy, ev["l"])->Close();
        return okk();
    }
    if (op == "LzCopy")
    {
        LazyOXSXDataSet *c = new LazyOXSXDataSet(*in(lazy, ev["l"]));
        lazy[ev["to"].str()].reset(c);
        return okk();
    }
    if (op == "LzAssign")
    {
        *in(lazy, ev["to"]) = *in(lazy, ev["l"]);
        return okk();
    }
    if (op == "LzDel")
    {
        in(lazy, ev["l"]);
        lazy.erase(ev["l"].str());
        return okk();
    }
    if (op == "RtTree")
    {
        std::string f = file(ev["f"]);
        ShimFile &s = shimDisk()[f];
        if (!s.hists.empty()) s = ShimFile();
        auto d = std::make_shared<ShimData>();
        d->names = ev["names"].strs();
        for (auto &t : ev["types"].a) d->types += t.str();
        d->ntuple = ev["nt"].yes();
        for (auto &r : ev["rows"].a)
        {
            std::vector<double> v = r.reals();
            for (size_t k = 0; k < v.size(); k++)
                if (d->types[k] == 'F') v[k] = float(v[k]);
            d->rows.push_back(v);
        }
        s.trees[ev["tree"].str()] = d;
        return okk();
    }
    if (op == "RtOpen")
    {
        std::unique_ptr<DataSet> r;
        if (ev["kind"].str() == "tree") r.reset(new ROOTTree(file(ev["f"]), ev["tree"].str()));
        else r.reset(new ROOTNtuple(file(ev["f"]), ev["tree"].str()));
        rds[ev["r"].str()] = std::move(r);
        return okk();
    }
    if (op == "RtBaskets")
    {
        DataSet *d = in(rds, ev["r"]).get();
        if (auto *t = dynamic_cast<ROOTTree *>(d))
        {
            t->LoadBaskets();
            t->DropBaskets();
        }
        if (auto *t = dynamic_cast<ROOTNtuple *>(d))
        {
            t->LoadBaskets();
            t->DropBaskets();
        }
        return okv(J(""));
    }
    if (op == "RtDel")
    {
        in(rds, ev["r"]);
        rds.erase(ev["r"].str());
        return okk();
    }
    if (op == "IoHist")
    {
        Histogram h(axesOf(ev["axes"]));
        h.SetBinContents(ev["c"].reals());
        hists[ev["h"].str()] = h;
        return okk();
    }
    if (op == "IoHistGet")
    {
        const Histogram &h = in(hists, ev["h"]);
        return okv(obj({{"axes", axesJ(h.GetAxes())}, {"c", J(h.GetBinContents())}}));
    }
    if (op == "IoSaveHist")
    {
        IO::SaveHistogram(in(hists, ev["h"]), file(ev["f"]), ev["name"].str());
        return okk();
    }
    if (op == "IoLoadHist")
    {
        Histogram h = IO::LoadHistogram(file(ev["f"]));
        hists[ev["h"].str()] = h;
        return okk();
    }
    if (op == "IoSeeTh")
    {
        JA r;
        auto d = shimDisk().find(file(ev["f"]));
        if (d != shimDisk().end() && d->second.hists.count(ev["name"].str()))
            r.push_back(thJ(*static_cast<TH1 *>(d->second.hists[ev["name"].str()].get())));
        return okv(J(r));
    }
    if (op == "DtTo")
    {
        const Histogram &h = in(hists, ev["h"]);
        BinnedED b("b", h);
        bool ed = ev["ed"].yes(), w = ev["width"].yes();
        switch (ev["dim"].num())
        {
        case 1: return okv(thJ(ed ? DistTools::ToTH1D(b, w) : DistTools::ToTH1D(h, w)));
        case 2: return okv(thJ(ed ? DistTools::ToTH2D(b) : DistTools::ToTH2D(h)));
        case 3: return okv(thJ(ed ? DistTools::ToTH3D(b) : DistTools::ToTH3D(h)));
        }
    }
    if (op == "DtFrom")
    {
        const J &a = ev["axes"];
        std::vector<std::vector<double>> e;
        for (auto &x : a.a) e.push_back(x["edges"].reals());
        Histogram r;
        if (a.size() == 1)
        {
            TH1D h("h", "", e[0].size() - 1, e[0].data());
            r = backFrom(h, a, ev["c"]);
        }
        else if (a.size() == 2)
        {
            TH2D h("h", "", e[0].size() - 1, e[0].data(), e[1].size() - 1, e[1].data());
            r = backFrom(h, a, ev["c"]);
        }
        else
        {
            TH3D h("h", "", e[0].size() - 1, e[0].data(), e[1].size() - 1, e[1].data(), e[2].size() - 1, e[2].data());
            r = backFrom(h, a, ev["c"]);
        }
        hists[ev["to"].str()] = r;
        return okk();
    }
    if (op == "DtPdf") return okv(J(DistTools::ToHist(Gaussian(ev["means"].reals(), ev["sigmas"].reals(), "g"), axesOf(ev["axes"])).GetBinContents()));
    throw ScriptError("op " + op);
}

J handle(const J &ev)
{
    static bool quiet = (H5::Exception::dontPrint(), true);
    (void)quiet;
    if (ev["op"].str() == "Reset")
    {
        lazy.clear();
        rds.clear();
        dsets.clear();
        hists.clear();
        shimDisk().clear();
        for (auto &f : made) unlink(f.c_str());
        made.clear();
        return okk();
    }
    return attempt([&]() -> J { return act(ev); });
}
DRV_MAIN
