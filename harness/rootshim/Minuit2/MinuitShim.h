// Stand-in for Minuit2: a minimiser that tries the points a script gives it, keeps the best, and writes down
// everything it was told and everything it was answered.
#ifndef SHIM_MINUIT
#define SHIM_MINUIT
#include <algorithm>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

struct MinuitScript
{
    std::vector<std::vector<double>> points; // to try, after the start
    bool valid = true, hasCov = true;
    std::vector<double> cov; // as many of these as needed
};
struct MinuitSeen
{
    std::string algo;
    unsigned strategy = 0, maxCalls = 0;
    double tol = 0, up = 0;
    std::vector<double> init, errs, lo, hi, final_;
    std::vector<bool> hasLo, hasHi, fixed;
    std::vector<std::pair<std::vector<double>, double>> evals;
    int runs = 0;
};
inline MinuitScript &minuitScript()
{
    static MinuitScript s;
    return s;
}
inline MinuitSeen &minuitSeen()
{
    static MinuitSeen s;
    return s;
}
namespace ROOT
{
namespace Minuit2
{
class FCNBase
{
public:
    virtual ~FCNBase() {}
    virtual double operator()(const std::vector<double> &) const = 0;
    virtual double Up() const = 0;
    virtual double ErrorDef() const { return Up(); }
    virtual void SetErrorDef(double) {}
};
class MnStrategy
{
public:
    MnStrategy() : f(1) {}
    MnStrategy(unsigned s) : f(s) {}
    unsigned Strategy() const { return f; }

private:
    unsigned f;
};
class MnUserCovariance
{
public:
    MnUserCovariance() : n(0) {}
    MnUserCovariance(const std::vector<double> &d, unsigned n_) : f(d), n(n_) {}
    const std::vector<double> &Data() const { return f; }
    unsigned Nrow() const { return n; }
    unsigned size() const { return f.size(); }
    double operator()(unsigned r, unsigned c) const
    {
        if (r > c) std::swap(r, c);
        return f.at(r + c * (c + 1) / 2);
    }

private:
    std::vector<double> f;
    unsigned n;
};
class MnUserParameters
{
public:
    MnUserParameters() {}
    MnUserParameters(const std::vector<double> &v, const std::vector<double> &e)
    {
        if (v.size() != e.size()) throw std::logic_error("Minuit: values and errors");
        for (size_t k = 0; k < v.size(); k++) Add("p" + std::to_string(k), v[k], e[k]);
    }
    bool Add(const std::string &n, double v, double e)
    {
        names.push_back(n);
        val.push_back(v);
        err.push_back(e);
        lo.push_back(0);
        hi.push_back(0);
        hasLo.push_back(false);
        hasHi.push_back(false);
        fixed.push_back(false);
        return true;
    }
    bool Add(const std::string &n, double v, double e, double l, double h)
    {
        Add(n, v, e);
        SetLimits(val.size() - 1, l, h);
        return true;
    }
    bool Add(const std::string &n, double v)
    {
        Add(n, v, 0);
        fixed.back() = true;
        return true;
    }
    void SetLimits(unsigned i, double l, double h)
    {
        SetLowerLimit(i, l);
        SetUpperLimit(i, h);
    }
    void SetLowerLimit(unsigned i, double l)
    {
        lo.at(i) = l;
        hasLo.at(i) = true;
    }
    void SetUpperLimit(unsigned i, double h)
    {
        hi.at(i) = h;
        hasHi.at(i) = true;
    }
    void RemoveLimits(unsigned i) { hasLo.at(i) = hasHi.at(i) = false; }
    void Fix(unsigned i) { fixed.at(i) = true; }
    void Release(unsigned i) { fixed.at(i) = false; }
    void SetValue(unsigned i, double v) { val.at(i) = v; }
    void SetError(unsigned i, double v) { err.at(i) = v; }
    double Value(unsigned i) const { return val.at(i); }
    double Error(unsigned i) const { return err.at(i); }
    unsigned Index(const std::string &n) const { return std::find(names.begin(), names.end(), n) - names.begin(); }
    void SetLimits(const std::string &n, double l, double h) { SetLimits(Index(n), l, h); }
    void Fix(const std::string &n) { Fix(Index(n)); }
    void Release(const std::string &n) { Release(Index(n)); }
    double Value(const std::string &n) const { return Value(Index(n)); }
    double Error(const std::string &n) const { return Error(Index(n)); }
    std::string Name(unsigned i) const { return names.at(i); }
    const char *GetName(unsigned i) const { return names.at(i).c_str(); }
    std::vector<double> Params() const { return val; }
    std::vector<double> Errors() const { return err; }
    unsigned VariableParameters() const { return std::count(fixed.begin(), fixed.end(), false); }
    std::vector<std::string> names;
    std::vector<double> val, err, lo, hi;
    std::vector<bool> hasLo, hasHi, fixed;
};
class MnUserParameterState : public MnUserParameters
{
public:
    MnUserParameterState() {}
    MnUserParameterState(const MnUserParameters &p) : MnUserParameters(p) {}
    const MnUserParameters &Parameters() const { return *this; }
    const MnUserCovariance &Covariance() const { return cov; }
    bool HasCovariance() const { return cov.size() > 0; }
    bool IsValid() const { return true; }
    MnUserCovariance cov;
};
class FunctionMinimum
{
public:
    FunctionMinimum(const MnUserParameterState &s, double f, bool v, double up, unsigned n) : fState(s), fFval(f), fUp(up), fValid(v), fN(n) {}
    double Fval() const { return fFval; }
    bool IsValid() const { return fValid; }
    double Up() const { return fUp; }
    double Edm() const { return 0; }
    unsigned NFcn() const { return fN; }
    const MnUserParameterState &UserState() const { return fState; }
    const MnUserParameters &UserParameters() const { return fState; }
    const MnUserCovariance &UserCovariance() const { return fState.cov; }
    bool HasCovariance() const { return fState.HasCovariance(); }
    bool HasValidCovariance() const { return fState.HasCovariance(); }
    bool HasValidParameters() const { return true; }

private:
    MnUserParameterState fState;
    double fFval, fUp;
    bool fValid;
    unsigned fN;
};
class MnApplication
{
public:
    MnApplication(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s, const std::string &a) : fFcn(f), fState(p), fStrategy(s), fAlgo(a) {}
    virtual ~MnApplication() {}
    virtual FunctionMinimum operator()(unsigned maxfcn = 0, double tolerance = 0.1)
    {
        MinuitSeen &m = minuitSeen();
        m.runs++;
        m.algo = fAlgo;
        m.strategy = fStrategy.Strategy();
        m.maxCalls = maxfcn;
        m.tol = tolerance;
        m.up = fFcn.Up();
        m.init = fState.val;
        m.errs = fState.err;
        m.lo = fState.lo;
        m.hi = fState.hi;
        m.hasLo = fState.hasLo;
        m.hasHi = fState.hasHi;
        m.fixed = fState.fixed;
        m.evals.clear();
        size_t n = fState.val.size();
        std::vector<std::vector<double>> pts(1, fState.val);
        for (auto p : minuitScript().points)
        {
            p.resize(n, 0);
            pts.push_back(p);
        }
        size_t best = 0;
        for (auto &p : pts)
        {
            for (size_t k = 0; k < n; k++)
            {
                if (fState.fixed[k])
                {
                    p[k] = fState.val[k];
                    continue;
                }
                if (fState.hasLo[k] && p[k] < fState.lo[k]) p[k] = fState.lo[k];
                if (fState.hasHi[k] && p[k] > fState.hi[k]) p[k] = fState.hi[k];
            }
            m.evals.push_back(std::make_pair(p, fFcn(p)));
            if (m.evals.back().second < m.evals[best].second) best = m.evals.size() - 1;
        }
        m.final_ = m.evals[best].first;
        fState.val = m.final_;
        unsigned v = fState.VariableParameters();
        std::vector<double> c;
        if (minuitScript().hasCov) c.assign(minuitScript().cov.begin(), minuitScript().cov.begin() + v * (v + 1) / 2);
        fState.cov = MnUserCovariance(c, minuitScript().hasCov ? v : 0);
        return FunctionMinimum(fState, m.evals[best].second, minuitScript().valid, m.up, m.evals.size());
    }
    std::vector<double> Params() const { return fState.Params(); }
    std::vector<double> Errors() const { return fState.Errors(); }
    const MnUserParameterState &State() const { return fState; }
    const MnUserParameters &Parameters() const { return fState; }
    const MnUserCovariance &Covariance() const { return fState.cov; }
    const FCNBase &Fcnbase() const { return fFcn; }
    const MnStrategy &Strategy() const { return fStrategy; }
    unsigned VariableParameters() const { return fState.VariableParameters(); }
    void Fix(unsigned i) { fState.Fix(i); }
    void Release(unsigned i) { fState.Release(i); }
    void SetValue(unsigned i, double v) { fState.SetValue(i, v); }
    void SetError(unsigned i, double v) { fState.SetError(i, v); }
    void SetLimits(unsigned i, double l, double h) { fState.SetLimits(i, l, h); }
    void RemoveLimits(unsigned i) { fState.RemoveLimits(i); }
    double Value(unsigned i) const { return fState.Value(i); }
    double Error(unsigned i) const { return fState.Error(i); }

protected:
    const FCNBase &fFcn;
    MnUserParameterState fState;
    MnStrategy fStrategy;
    std::string fAlgo;
};
#define SHIM_MN(N, A)                                                                                                                        \
    class N : public MnApplication                                                                                                           \
    {                                                                                                                                        \
    public:                                                                                                                                  \
        N(const FCNBase &f, const MnUserParameters &p, const MnStrategy &s = MnStrategy(1)) : MnApplication(f, p, s, A) {}                   \
        N(const FCNBase &f, const std::vector<double> &v, const std::vector<double> &e, unsigned s = 1) : MnApplication(f, MnUserParameters(v, e), MnStrategy(s), A) {} \
    };
SHIM_MN(MnMigrad, "Migrad")
SHIM_MN(MnMinimize, "Minimize")
SHIM_MN(MnSimplex, "Simplex")
#undef SHIM_MN
} // namespace Minuit2
} // namespace ROOT
#endif
