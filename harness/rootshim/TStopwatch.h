// Stand-in for ROOT's TStopwatch: time does not matter here.
#ifndef SHIM_TSTOPWATCH
#define SHIM_TSTOPWATCH
typedef bool Bool_t;
typedef double Double_t;
class TStopwatch
{
public:
    void Start(Bool_t = true) {}
    void Stop() {}
    void Continue() {}
    void Reset() {}
    Double_t RealTime() { return .25; }
    Double_t CpuTime() { return .25; }
};
#endif
