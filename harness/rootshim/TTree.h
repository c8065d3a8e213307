// Stand-in for ROOT's TTree (and TLeaf, TNtuple, TFile): trees in memory, kept by the name of their file.
#ifndef SHIM_TTREE
#define SHIM_TTREE
#include <cstddef>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef long long Long64_t;
typedef int Int_t;
typedef bool Bool_t;
typedef double Double_t;
typedef float Float_t;
typedef const char Option_t;

struct ShimData // what a tree holds
{
    std::vector<std::string> names;
    std::string types; // one of D F I i L l S s B b O each
    std::vector<std::vector<double>> rows;
    bool ntuple = false;
};
struct ShimFile
{
    std::map<std::string, std::shared_ptr<ShimData>> trees;
    std::map<std::string, std::shared_ptr<void>> hists;
};
inline std::map<std::string, ShimFile> &shimDisk()
{
    static std::map<std::string, ShimFile> d;
    return d;
}
class TObject
{
public:
    virtual ~TObject() {}
    virtual const char *GetName() const { return ""; }
};
class TFile;
inline TFile *&shimCwd()
{
    static TFile *f = 0;
    return f;
}
class TFile : public TObject
{
public:
    TFile(const char *name, Option_t *opt = "", const char * = "", int = 1) : fName(name), fOpen(true)
    {
        std::string o(opt);
        for (auto &c : o) c = toupper(c);
        if (o == "RECREATE") shimDisk()[fName] = ShimFile();
        else if (o == "NEW" || o == "CREATE" || o == "UPDATE") shimDisk()[fName];
        fZombie = !shimDisk().count(fName);
        if (!fZombie) fContent = shimDisk()[fName];
        fWrite = o != "" && o != "READ";
        shimCwd() = this;
    }
    ~TFile()
    {
        Close();
        for (auto *o : fOwned) delete o;
        if (shimCwd() == this) shimCwd() = 0;
    }
    static TFile *Open(const char *name, Option_t *opt = "") { return new TFile(name, opt); }
    Bool_t IsZombie() const { return fZombie; }
    Bool_t IsOpen() const { return fOpen && !fZombie; }
    Bool_t cd(const char * = 0)
    {
        shimCwd() = this;
        return true;
    }
    void Close(Option_t * = "")
    {
        if (fOpen && fWrite) shimDisk()[fName] = fContent;
        fOpen = false;
    }
    Int_t Write(const char * = 0, Int_t = 0, Int_t = 0) { return 1; }
    TObject *Get(const char *name);
    const char *GetName() const { return fName.c_str(); }
    ShimFile fContent;

private:
    std::string fName;
    bool fOpen, fZombie, fWrite;
    std::vector<TObject *> fOwned;
};
class TLeaf : public TObject
{
public:
    TLeaf(const std::string &n, size_t k, const std::vector<double> *row) : fName(n), fK(k), fRow(row) {}
    Double_t GetValue(Int_t = 0) const { return fRow->empty() ? 0 : fRow->at(fK); }
    const char *GetName() const { return fName.c_str(); }

private:
    std::string fName;
    size_t fK;
    const std::vector<double> *fRow;
};
class TBranch : public TObject
{
public:
    TBranch(const std::string &n) : fName(n) {}
    const char *GetName() const { return fName.c_str(); }

private:
    std::string fName;
};
class TObjArray
{
public:
    TObject *At(Int_t i) const { return f.at(i).get(); }
    TObject *operator[](Int_t i) const { return At(i); }
    TObject *UncheckedAt(Int_t i) const { return At(i); }
    Int_t GetEntries() const { return f.size(); }
    Int_t GetEntriesFast() const { return f.size(); }
    Int_t GetSize() const { return f.size(); }
    std::vector<std::shared_ptr<TObject>> f;
};
class TTree : public TObject
{
public:
    TTree() : fData(new ShimData) {}
    TTree(const char *name, const char *) : fName(name), fData(new ShimData) {}
    TTree(const std::string &name, std::shared_ptr<ShimData> d) : fName(name), fData(d)
    {
        for (size_t k = 0; k < d->names.size(); k++) addLeaf(d->names[k], k);
    }
    TBranch *Branch(const char *name, void *p, const char *leaf, Int_t = 32000)
    {
        std::string l(leaf);
        size_t k = l.find('/');
        fData->names.push_back(name);
        fData->types += k == std::string::npos ? 'F' : l[k + 1];
        fFrom.push_back(p);
        return addLeaf(name, fFrom.size() - 1);
    }
    TBranch *Branch(const char *name, double *p) { return Branch(name, (void *)p, "x/D"); }
    TBranch *Branch(const char *name, int *p) { return Branch(name, (void *)p, "x/I"); }
    TBranch *Branch(const char *name, bool *p) { return Branch(name, (void *)p, "x/O"); }
    Int_t Fill()
    {
        std::vector<double> r;
        for (size_t k = 0; k < fFrom.size(); k++) r.push_back(get(fData->types[k], fFrom[k]));
        fData->rows.push_back(r);
        return 1;
    }
    Int_t GetEntry(Long64_t i = 0, Int_t = 0)
    {
        if (i < 0 || i >= (Long64_t)fData->rows.size()) return 0;
        fRow = fData->rows[i];
        return 1;
    }
    Long64_t GetEntries() const { return fData->rows.size(); }
    Long64_t GetEntriesFast() const { return fData->rows.size(); }
    Int_t GetNbranches() const { return fData->names.size(); }
    TObjArray *GetListOfBranches() { return &fBranches; }
    TObjArray *GetListOfLeaves() { return &fLeaves; }
    TLeaf *GetLeaf(const char *name)
    {
        for (size_t k = 0; k < fData->names.size(); k++)
            if (fData->names[k] == name) return static_cast<TLeaf *>(fLeaves.At(k));
        return 0;
    }
    TBranch *GetBranch(const char *name)
    {
        for (size_t k = 0; k < fData->names.size(); k++)
            if (fData->names[k] == name) return static_cast<TBranch *>(fBranches.At(k));
        return 0;
    }
    Int_t LoadBaskets(Long64_t = 2000000000) { return 0; }
    void DropBaskets() {}
    void SetDirectory(void *) {}
    Int_t Write(const char * = 0, Int_t = 0, Int_t = 0)
    {
        if (shimCwd()) shimCwd()->fContent.trees[fName] = std::make_shared<ShimData>(*fData);
        return 1;
    }
    const char *GetName() const { return fName.c_str(); }
    ShimData &shim() { return *fData; }
    const ShimData &shim() const { return *fData; }

protected:
    TBranch *addLeaf(const std::string &n, size_t k)
    {
        auto b = std::make_shared<TBranch>(n);
        fBranches.f.push_back(b);
        fLeaves.f.push_back(std::make_shared<TLeaf>(n, k, &fRow));
        return b.get();
    }
    static double get(char t, void *p)
    {
        switch (t)
        {
        case 'D': return *(double *)p;
        case 'F': return *(float *)p;
        case 'I': return *(int *)p;
        case 'i': return *(unsigned *)p;
        case 'L': return *(long long *)p;
        case 'l': return *(unsigned long long *)p;
        case 'S': return *(short *)p;
        case 's': return *(unsigned short *)p;
        case 'B': return *(signed char *)p;
        case 'b': return *(unsigned char *)p;
        default: return *(bool *)p;
        }
    }
    std::string fName;
    std::shared_ptr<ShimData> fData;
    std::vector<void *> fFrom;
    std::vector<double> fRow;
    TObjArray fBranches, fLeaves;
};
class TNtuple : public TTree
{
public:
    TNtuple(const char *name, const char *, const char *vars, Int_t = 32000) : TTree(name, "")
    {
        fData->ntuple = true;
        std::stringstream ss(vars);
        std::string v;
        while (std::getline(ss, v, ':'))
        {
            fData->names.push_back(v);
            fData->types += 'F';
            addLeaf(v, fData->names.size() - 1);
        }
        fArgs.resize(fData->names.size());
    }
    TNtuple(const std::string &name, std::shared_ptr<ShimData> d) : TTree(name, d), fArgs(d->names.size()) {}
    Int_t Fill(const Float_t *x)
    {
        fData->rows.push_back(std::vector<double>(x, x + fData->names.size()));
        return 1;
    }
    using TTree::Fill;
    Int_t GetEntry(Long64_t i = 0, Int_t = 0)
    {
        Int_t r = TTree::GetEntry(i);
        for (size_t k = 0; r && k < fArgs.size(); k++) fArgs[k] = fRow[k];
        return r;
    }
    Int_t GetNvar() const { return fData->names.size(); }
    Float_t *GetArgs() const { return const_cast<Float_t *>(fArgs.data()); }

private:
    std::vector<Float_t> fArgs;
};
inline TObject *TFile::Get(const char *name)
{
    auto it = fContent.trees.find(name);
    if (it == fContent.trees.end()) return 0;
    TObject *t;
    if (it->second->ntuple) t = new TNtuple(name, it->second);
    else t = new TTree(std::string(name), it->second);
    fOwned.push_back(t);
    return t;
}
#endif
