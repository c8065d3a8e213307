// Stand-in for ROOT's TAxis, TH1D, TH2D, TH3D: bins, edges, contents with under- and overflow.
#ifndef SHIM_TH1
#define SHIM_TH1
#include <TTree.h>
#include <algorithm>
#include <memory>

class TAxis : public TObject
{
public:
    TAxis() {}
    TAxis(Int_t n, double lo, double hi)
    {
        for (Int_t i = 0; i <= n; i++) e.push_back(i == n ? hi : lo + i * ((hi - lo) / n));
        fUneven = false;
    }
    TAxis(Int_t n, const double *p) : e(p, p + n + 1), fUneven(true) {}
    void SetTitle(const char *t) { fTitle = t; }
    const char *GetTitle() const { return fTitle.c_str(); }
    Int_t GetNbins() const { return Int_t(e.size()) - 1; }
    double GetBinLowEdge(Int_t i) const { return i < 1 ? e.front() - GetBinWidth(1) : i > GetNbins() ? e.back() : e[i - 1]; }
    double GetBinUpEdge(Int_t i) const { return i < 1 ? e.front() : i > GetNbins() ? e.back() + GetBinWidth(GetNbins()) : e[i]; }
    double GetBinWidth(Int_t i) const
    {
        i = std::max(1, std::min(i, GetNbins()));
        return e[i] - e[i - 1];
    }
    double GetBinCenter(Int_t i) const { return .5 * (GetBinLowEdge(i) + GetBinUpEdge(i)); }
    double GetXmin() const { return e.front(); }
    double GetXmax() const { return e.back(); }
    Bool_t IsVariableBinSize() const { return fUneven; }
    Int_t FindBin(double x) const
    {
        if (x < e.front()) return 0;
        if (!(x < e.back())) return GetNbins() + 1;
        return Int_t(std::upper_bound(e.begin(), e.end(), x) - e.begin());
    }
    Int_t FindFixBin(double x) const { return FindBin(x); }
    std::vector<double> e;

private:
    std::string fTitle;
    bool fUneven = true;
};
class TH1 : public TObject
{
public:
    void SetDirectory(void *) {}
    void SetName(const char *n) { fName = n; }
    void SetTitle(const char *n) { fTitle = n; }
    void SetNameTitle(const char *n, const char *t)
    {
        fName = n;
        fTitle = t;
    }
    const char *GetName() const { return fName.c_str(); }
    const char *GetTitle() const { return fTitle.c_str(); }
    Int_t GetDimension() const { return fDim; }
    TAxis *GetXaxis() { return &fAx[0]; }
    TAxis *GetYaxis() { return &fAx[1]; }
    TAxis *GetZaxis() { return &fAx[2]; }
    const TAxis *GetXaxis() const { return &fAx[0]; }
    const TAxis *GetYaxis() const { return &fAx[1]; }
    const TAxis *GetZaxis() const { return &fAx[2]; }
    Int_t GetNbinsX() const { return nb(0); }
    Int_t GetNbinsY() const { return nb(1); }
    Int_t GetNbinsZ() const { return nb(2); }
    Int_t GetNcells() const { return c.size(); }
    Int_t GetBin(Int_t x, Int_t y = 0, Int_t z = 0) const
    {
        Int_t r = cl(0, x);
        if (fDim > 1) r += (nb(0) + 2) * cl(1, y);
        if (fDim > 2) r += (nb(0) + 2) * (nb(1) + 2) * cl(2, z);
        return r;
    }
    void SetBinContent(Int_t b, double v) { c.at(b) = v; }
    double GetBinContent(Int_t b) const { return c.at(b); }
    void AddBinContent(Int_t b, double v) { c.at(b) += v; }
    void SetBinError(Int_t, double) {}
    void SetEntries(double) {}
    void Sumw2(Bool_t = true) {}
    double Integral() const
    {
        double r = 0;
        for (Int_t i = 1; i <= nb(0); i++)
            for (Int_t j = fDim > 1; j <= (fDim > 1 ? nb(1) : 0); j++)
                for (Int_t k = fDim > 2; k <= (fDim > 2 ? nb(2) : 0); k++) r += c[GetBin(i, j, k)];
        return r;
    }
    void Scale(double k)
    {
        for (double &x : c) x *= k;
    }
    void Reset(Option_t * = "") { std::fill(c.begin(), c.end(), 0.); }
    Int_t Write(const char *n = 0, Int_t = 0, Int_t = 0) const
    {
        if (shimCwd()) shimCwd()->fContent.hists[n ? n : fName] = std::make_shared<TH1>(*this);
        return 1;
    }
    void SaveAs(const char *f, Option_t * = "") const
    {
        TFile *was = shimCwd();
        {
            TFile file(f, "RECREATE");
            Write();
            file.Close();
        }
        shimCwd() = was;
    }

protected:
    Int_t nb(Int_t d) const { return d < fDim ? fAx[d].GetNbins() : 1; }
    Int_t cl(Int_t d, Int_t i) const { return std::max(0, std::min(i, nb(d) + 1)); }
    void init(const char *n, const char *t, Int_t dim)
    {
        fName = n;
        fTitle = t;
        fDim = dim;
        Int_t k = 1;
        for (Int_t d = 0; d < dim; d++) k *= nb(d) + 2;
        c.assign(k, 0);
    }
    TAxis fAx[3];
    Int_t fDim = 1;
    std::string fName, fTitle;
    std::vector<double> c;
};
class TH1D : public TH1
{
public:
    TH1D() { fDim = 1; }
    TH1D(const char *n, const char *t, Int_t nx, const double *x) { fAx[0] = TAxis(nx, x); init(n, t, 1); }
    TH1D(const char *n, const char *t, Int_t nx, double a, double b) { fAx[0] = TAxis(nx, a, b); init(n, t, 1); }
    using TH1::SetBinContent;
    using TH1::GetBinContent;
    Int_t FindBin(double x) const { return fAx[0].FindBin(x); }
    Int_t Fill(double x, double w = 1)
    {
        Int_t b = FindBin(x);
        c[b] += w;
        return b;
    }
};
class TH2D : public TH1
{
public:
    TH2D() { fDim = 2; }
    TH2D(const char *n, const char *t, Int_t nx, const double *x, Int_t ny, const double *y)
    {
        fAx[0] = TAxis(nx, x);
        fAx[1] = TAxis(ny, y);
        init(n, t, 2);
    }
    TH2D(const char *n, const char *t, Int_t nx, double a, double b, Int_t ny, double c_, double d)
    {
        fAx[0] = TAxis(nx, a, b);
        fAx[1] = TAxis(ny, c_, d);
        init(n, t, 2);
    }
    using TH1::SetBinContent;
    using TH1::GetBinContent;
    void SetBinContent(Int_t i, Int_t j, double v) { c.at(GetBin(i, j)) = v; }
    double GetBinContent(Int_t i, Int_t j) const { return c.at(GetBin(i, j)); }
    Int_t FindBin(double x, double y) const { return GetBin(fAx[0].FindBin(x), fAx[1].FindBin(y)); }
    Int_t Fill(double x, double y, double w = 1)
    {
        Int_t b = FindBin(x, y);
        c[b] += w;
        return b;
    }
};
class TH3D : public TH1
{
public:
    TH3D() { fDim = 3; }
    TH3D(const char *n, const char *t, Int_t nx, const double *x, Int_t ny, const double *y, Int_t nz, const double *z)
    {
        fAx[0] = TAxis(nx, x);
        fAx[1] = TAxis(ny, y);
        fAx[2] = TAxis(nz, z);
        init(n, t, 3);
    }
    using TH1::SetBinContent;
    using TH1::GetBinContent;
    void SetBinContent(Int_t i, Int_t j, Int_t k, double v) { c.at(GetBin(i, j, k)) = v; }
    double GetBinContent(Int_t i, Int_t j, Int_t k) const { return c.at(GetBin(i, j, k)); }
    Int_t FindBin(double x, double y, double z) const { return GetBin(fAx[0].FindBin(x), fAx[1].FindBin(y), fAx[2].FindBin(z)); }
    Int_t Fill(double x, double y, double z, double w = 1)
    {
        Int_t b = FindBin(x, y, z);
        c[b] += w;
        return b;
    }
};
#endif
