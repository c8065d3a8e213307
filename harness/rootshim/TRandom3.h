// Stand-in for ROOT's TRandom3, for the drivers only: a scripted stream of numbers, so that the
// library's random choices are inputs of the conformance check.
#ifndef VERIF_TRANDOM3
#define VERIF_TRANDOM3
#include <cmath>
#include <deque>
#include <vector>

struct VerifRng
{
    std::deque<double> next;   // numbers to hand out, in [0,1) for Rndm; deviates for Gaus; counts for Poisson
    std::vector<double> used;  // what was handed out
    std::vector<int> pois;     // the numbers of events among it
    unsigned long lcg;         // once the script's numbers are used up
    unsigned long drawn;
    VerifRng() : lcg(12345), drawn(0) {}
    static VerifRng &get()
    {
        static VerifRng r;
        return r;
    }
    bool scripted() const { return !next.empty(); }
    double uniform()
    {
        double x;
        if (!next.empty())
        {
            x = next.front();
            next.pop_front();
        }
        else
        {
            lcg = lcg * 6364136223846793005ul + 1442695040888963407ul;
            x = double(lcg >> 11) / 9007199254740992.0;
        }
        drawn++;
        used.push_back(x);
        return x;
    }
};

class TRandom3
{
public:
    TRandom3(unsigned s = 4357) : seed(s) {}
    double Rndm() { return VerifRng::get().uniform(); }
    double Uniform(double x = 1) { return x * Rndm(); }
    // a deterministic deviate in (-3, 3) per uniform number: mean + sigma * (6u - 3)
    double Gaus(double mean = 0, double sigma = 1) { return mean + sigma * (6 * Rndm() - 3); }
    // floor(2 * mean * u): mean on average
    int Poisson(double mean)
    {
        int n = int(std::floor(2 * mean * Rndm()));
        VerifRng::get().pois.push_back(n);
        return n;
    }
    void SetSeed(unsigned s)
    {
        seed = s;
        VerifRng::get().lcg = s;
    }
    unsigned GetSeed() const { return seed; }

private:
    unsigned seed;
};
#endif
