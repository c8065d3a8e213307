// Systematics by kind, with functions and kernels that the specification knows: shared by drivers.
#ifndef SYSDRV_H
#define SYSDRV_H
#include "drv.h"
#include <AxisCollection.h>
#include <BinnedED.h>
#include <Convolution.h>
#include <Gaussian.h>
#include <JumpPDF.h>
#include <Renorm.h>
#include <Scale.h>
#include <ScaleFunction.h>
#include <Shape.h>
#include <Shift.h>
#include <SquareRootScale.h>
#include <SystematicManager.h>
#include <VaryingCDF.h>

struct Sys
{
    std::string kind;
    Systematic *s; // lives until the end: managers point to it
    size_t np;
};
template <typename M>
static auto &in(M &m, const J &n)
{
    auto it = m.find(n.str());
    if (it == m.end()) throw ScriptError("no object " + n.str());
    return it->second;
}
template <typename T>
static T *as(Sys &s)
{
    T *t = dynamic_cast<T *>(s.s);
    if (!t) throw ScriptError("systematic of another kind");
    return t;
}
static AxisCollection axesOf(const J &j)
{
    AxisCollection c;
    for (auto &a : j.a) c.AddAxis(BinAxis(a["name"].str(), a["lo"].reals(), a["hi"].reals()));
    return c;
}
static ObsSet obsOf(const J &j) { return ObsSet(j.strs()); }
// the name of the k-th (from 0) parameter of a systematic
static std::string parName(const Sys &s, size_t k)
{
    if (s.kind == "shift") return "shift";
    if (s.kind == "scale") return "scaleFactor";
    if (s.kind == "conv")
    {
        if (s.np == 1) return "grad";
        size_t n = s.np / 2;
        return k < n ? "means_" + std::to_string(k) : "stddevs_" + std::to_string(k - n);
    }
    return "k" + std::to_string(k);
}
static void setPar(Sys &s, size_t k, double x, bool direct)
{
    if (s.kind == "renorm") as<Renorm>(s)->SetScaleFactor(x);
    else if (direct && s.kind == "shift") as<Shift>(s)->SetShift(x);
    else if (direct && s.kind == "scale") as<Scale>(s)->SetScaleFactor(x);
    else s.s->SetParameter(parName(s, k), x);
}
// names: what the parameters of a function are called ("k0", "k1", ... if not given)
static void setFn(Sys &s, const J &p, std::vector<std::string> names = std::vector<std::string>())
{
    s.np = p.size();
    std::vector<double> v = p.reals();
    if (names.empty())
        for (size_t k = 0; k < v.size(); k++) names.push_back("k" + std::to_string(k));
    if (s.kind == "scalefn")
        as<ScaleFunction>(s)->SetScaleFunction([names](const ParameterDict &d, const double &x)
                                               { return d.at(names[0]) + d.at(names[1]) * x + d.at(names[2]) * x * x * x; }, names);
    else if (s.kind == "shape")
        as<Shape>(s)->SetShapeFunction([names](const ParameterDict &d, const std::vector<double> &x) {
            double r = d.at(names[0]);
            for (size_t k = 0; k < x.size() && k + 1 < names.size(); k++) r += d.at(names[k + 1]) * x[k];
            return r;
        }, names);
    else if (s.kind == "conv")
    {
        if (v.size() == 1)
        {
            Gaussian g(0., 1., "g");
            JumpPDF j("j", &g);
            SquareRootScale f("f");
            f.SetGradient(1);
            VaryingCDF c("c");
            c.SetKernel(&j);
            c.SetDependance("stddevs_0", &f);
            as<Convolution>(s)->SetConditionalPDF(&c);
        }
        else
        {
            size_t n = v.size() / 2;
            Gaussian g(std::vector<double>(n, 0), std::vector<double>(n, 1), "g");
            as<Convolution>(s)->SetFunction(&g);
        }
    }
    else throw ScriptError("no function for " + s.kind);
    for (size_t k = 0; k < v.size(); k++)
        if (s.kind == "conv") setPar(s, k, v[k], false);
        else s.s->SetParameter(names[k], v[k]);
}
static Systematic *make(const std::string &kind, const std::string &name)
{
    if (kind == "shift") return new Shift(name);
    if (kind == "scale") return new Scale(name);
    if (kind == "scalefn") return new ScaleFunction(name);
    if (kind == "shape") return new Shape(name);
    if (kind == "renorm") return new Renorm(name);
    if (kind == "conv") return new Convolution(name);
    throw ScriptError("kind " + kind);
}
#endif
