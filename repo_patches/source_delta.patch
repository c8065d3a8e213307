From 79b6577c7e618bb1aaa375100b19c7053c0b6755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:57 +0000
Subject: [PATCH 01/66] fix: refuse bin numbers outside the binning in one
 dimension and at exactly nBins

---
 src/histogram/AxisCollection.cpp | 18 +++++++++---------
 src/histogram/Histogram.cpp      |  6 +++---
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/histogram/AxisCollection.cpp b/src/histogram/AxisCollection.cpp
index c390d1d..577f4cf 100644
--- a/src/histogram/AxisCollection.cpp
+++ b/src/histogram/AxisCollection.cpp
@@ -125,15 +125,15 @@ AxisCollection::FindBin(const std::vector<double> &vals_) const
 size_t
 AxisCollection::UnflattenIndex(size_t index_, size_t dim_) const
 {
-    if (fNDimensions == 1)
-        return index_;
-
-    if (index_ >= fNBins)
+    if (index_ >= fNBins || dim_ >= fNDimensions)
         throw NotFoundError(Formatter()
-                            << "Can't unflatten index in non-existent"
-                            << "dimension  "
+                            << "Can't unflatten index "
+                            << index_ << " in dimension "
                             << dim_);
 
+    if (fNDimensions == 1)
+        return index_;
+
     size_t x = 1;
     for (size_t i = dim_ + 1; i < fNDimensions; i++)
         x *= fAxisNbins[i];
@@ -160,7 +160,7 @@ bool AxisCollection::HasAxis(const std::string &name_)
 void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinLowEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -177,7 +177,7 @@ void AxisCollection::GetBinLowEdges(size_t bin_, std::vector<double> &output_) c
 void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_) const
 {
 
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
@@ -193,7 +193,7 @@ void AxisCollection::GetBinHighEdges(size_t bin_, std::vector<double> &output_)
 
 void AxisCollection::GetBinCentres(size_t bin_, std::vector<double> &output_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "GetBinHighEdges on bin "
                                         << bin_
                                         << " nBins = " << fNBins);
diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index db9cbb8..9a1265b 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -109,7 +109,7 @@ Histogram::FindBin(double value) const
 double
 Histogram::GetBinContent(size_t bin_) const
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -118,7 +118,7 @@ Histogram::GetBinContent(size_t bin_) const
 
 void Histogram::AddBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter()
                             << "Out of bounds bin access attempted on bin "
                             << bin_ << " !");
@@ -127,7 +127,7 @@ void Histogram::AddBinContent(size_t bin_, double content_)
 
 void Histogram::SetBinContent(size_t bin_, double content_)
 {
-    if (bin_ > fNBins)
+    if (bin_ >= fNBins)
         throw NotFoundError(Formatter() << "Out of bounds bin access attempted on bin " << bin_ << " !");
     fBinContents[bin_] = content_;
 }
-- 
2.43.0


From d8f64754ca2e925ebdcb3b4b95500a8ead0df38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 02/66] fix: Histogram::GetSlice keeps every cell at its own
 indices, refuses bins outside an axis

---
 src/histogram/Histogram.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 9a1265b..6f8e95e 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -321,6 +321,11 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
                                 << "Histogram::GetSlice::Tried "
                                 << "to get slice of non existent axis "
                                 << it->first << "!");
+        if (it->second >= fAxes.GetAxis(it->first).GetNBins())
+            throw NotFoundError(Formatter()
+                                << "Histogram::GetSlice::Tried "
+                                << "to get slice at non existent bin " << it->second
+                                << " of axis " << it->first << "!");
     }
 
     // want to support multidimensional slices
@@ -384,13 +389,14 @@ Histogram::GetSlice(const std::map<std::string, size_t> &fixedBins_) const
     Recurse(newAxisNames.size(), binsEachAxis, coords, localIdx, newAxisIndexes);
     std::cout << "Number of combinations found: " << localIdx.size() << std::endl;
 
-    // for every combination, obtain the global flat idx in original histogram
-    size_t bin = 0;
+    // for every combination, obtain the global flat idx in original histogram and in the slice
+    std::vector<size_t> freeCoords(newAxisIndexes.size());
     for (size_t idx = 0; idx < localIdx.size(); idx++)
     {
+        for (size_t i = 0; i < newAxisIndexes.size(); i++)
+            freeCoords[i] = localIdx.at(idx).at(newAxisIndexes[i]);
         size_t oldGlobalBin = fAxes.FlattenIndices(localIdx.at(idx));
-        slice.AddBinContent(bin, fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
-        bin += 1;
+        slice.AddBinContent(newAxes.FlattenIndices(freeCoords), fBinContents.at(oldGlobalBin)); // fill the relevant slice bin with contents
     }
 
     return slice;
-- 
2.43.0


From 9e1a23679e3aedf7b5a7ed6bf351ab24b83efd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 03/66] fix: BinnedEDShrinker::SetBinMap forgets the previous
 map

---
 src/fitutil/BinnedEDShrinker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fitutil/BinnedEDShrinker.cpp b/src/fitutil/BinnedEDShrinker.cpp
index eb585d5..0324ef2 100644
--- a/src/fitutil/BinnedEDShrinker.cpp
+++ b/src/fitutil/BinnedEDShrinker.cpp
@@ -63,6 +63,10 @@ BinnedEDShrinker::ShrinkAxis(const BinAxis &axis_, const unsigned lowerBuff_,
 
 void BinnedEDShrinker::SetBinMap(const BinnedED &dist_)
 {
+  // start afresh: the map may already have been set for another binning or other buffers
+  fNewAxes = AxisCollection();
+  fBinVec.clear();
+  fUseContent.clear();
 
   // No buffer no problem. FIXME: what about if all the values are zero?
   if (!fBuffers.size())
-- 
2.43.0


From c77b9b22853dd79b292928a6cb1b95ec1d94e745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 04/66] fix: events of a copied OXSXDataSet refer to the copy's
 names, operator+ leaves its operands alone

---
 src/data/OXSXDataSet.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/data/OXSXDataSet.cpp b/src/data/OXSXDataSet.cpp
index 7b93c19..5d4601a 100644
--- a/src/data/OXSXDataSet.cpp
+++ b/src/data/OXSXDataSet.cpp
@@ -24,7 +24,10 @@ Event OXSXDataSet::GetEntry(size_t eventIndex_) const
 {
     try
     {
-        return fData.at(eventIndex_);
+        // the names belong to this data set, also if the event was copied here from another one
+        Event ev = fData.at(eventIndex_);
+        ev.SetObservableNames(&fObservableNames);
+        return ev;
     }
     catch (std::out_of_range &)
     {
@@ -52,10 +55,11 @@ OXSXDataSet::GetObservableNames() const
 OXSXDataSet
 OXSXDataSet::operator+(const OXSXDataSet &other_)
 {
+    OXSXDataSet sum(*this);
     for (size_t i = 0; i < other_.GetNEntries(); i++)
-        AddEntry(other_.GetEntry(i));
+        sum.AddEntry(other_.GetEntry(i));
 
-    return *this;
+    return sum;
 }
 
 void OXSXDataSet::Reserve(int i)
-- 
2.43.0


From faf70531baaceb5cc5b62e72659e1badab9ab6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 05/66] fix: Event::SetDatum refuses an index outside the
 event, look-ups by name refuse an event without names

---
 src/data/Event.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/data/Event.cpp b/src/data/Event.cpp
index 7890b18..0b092cf 100644
--- a/src/data/Event.cpp
+++ b/src/data/Event.cpp
@@ -43,7 +43,7 @@ void Event::SetDatum(size_t index_, double val_)
 {
     try
     {
-        fObservations[index_] = val_;
+        fObservations.at(index_) = val_;
     }
 
     catch (const std::out_of_range &e_)
@@ -56,11 +56,12 @@ void Event::SetDatum(const std::string &name_, double val_)
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    SetDatum(it - fObsNames->begin(), val_);
+    SetDatum(it - names.begin(), val_);
 }
 
 double
@@ -68,11 +69,12 @@ Event::GetDatum(const std::string &name_) const
 {
 
     // work out which index that is
-    std::vector<std::string>::const_iterator it = std::find(fObsNames->begin(), fObsNames->end(), name_);
-    if (it == fObsNames->end())
+    const std::vector<std::string> &names = GetObservableNames();
+    std::vector<std::string>::const_iterator it = std::find(names.begin(), names.end(), name_);
+    if (it == names.end())
         throw NotFoundError("Event::GetDatum  event doesn't contain data for observable " + name_ + "!");
 
-    return GetDatum(it - fObsNames->begin());
+    return GetDatum(it - names.begin());
 }
 
 std::vector<double>
-- 
2.43.0


From 72a7b0e3d3f444f541864987ffe4900317a0fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 06/66] fix: counting backgrounds again replaces the previous
 counts instead of adding to them

---
 src/count/CountingExperiment.cpp | 3 +++
 src/count/CountingResult.cpp     | 8 ++++++++
 src/count/CountingResult.h       | 1 +
 3 files changed, 12 insertions(+)

diff --git a/src/count/CountingExperiment.cpp b/src/count/CountingExperiment.cpp
index c4a39f2..66cbef7 100644
--- a/src/count/CountingExperiment.cpp
+++ b/src/count/CountingExperiment.cpp
@@ -21,6 +21,9 @@ void CountingExperiment::CountData(DataSet *testData_)
 
 void CountingExperiment::CountBackgrounds()
 {
+    // every background is counted again, so forget any previous counts
+    fResult.ClearBackgrounds();
+
     // loop over all the background types
     for (size_t i = 0; i < fBackgroundDataSets.size(); i++)
     {
diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index 768d6f2..c9b1a75 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -20,6 +20,14 @@ void CountingResult::AddBackground(double expectedRate_, const std::string &name
     fBackgroundLogs.push_back(log_);
 }
 
+void CountingResult::ClearBackgrounds()
+{
+    fExpectedRates.clear();
+    fExpectedRateErrors.clear();
+    fBackgroundNames.clear();
+    fBackgroundLogs.clear();
+}
+
 void CountingResult::SetDataLog(const CutLog &log_)
 {
     fDataLog = log_;
diff --git a/src/count/CountingResult.h b/src/count/CountingResult.h
index ef0c40c..6c3da32 100644
--- a/src/count/CountingResult.h
+++ b/src/count/CountingResult.h
@@ -10,6 +10,7 @@ public:
    CountingResult() : fObservedCounts(-1), fSignalEfficiency(-1) {}
    void AddBackground(double expectedRate_, const std::string &name_,
                       double error_, const CutLog &);
+   void ClearBackgrounds();
    void SetSignal(double sigEff_, const std::string &name_, const CutLog &);
 
    void SetDataLog(const CutLog &);
-- 
2.43.0


From a7b53e7394b1b47515ce6b50814124833d4a3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 07/66] fix: copies of a CompositeED keep its name and own
 their constituents

---
 src/dist/CompositeED.cpp | 20 ++++++++++++++++++--
 src/dist/CompositeED.h   |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dist/CompositeED.cpp b/src/dist/CompositeED.cpp
index f9bfb8d..81ad9ef 100644
--- a/src/dist/CompositeED.cpp
+++ b/src/dist/CompositeED.cpp
@@ -23,6 +23,23 @@ CompositeED::CompositeED(const std::vector<EventDistribution *> &pdfs_)
     }
     fName = name;
 }
+
+CompositeED::CompositeED(const CompositeED &other_) : EventDistribution(other_)
+{
+    fName = other_.fName;
+    for (size_t i = 0; i < other_.fDistPtrs.size(); i++)
+        fDistPtrs.push_back(other_.fDistPtrs[i]->Clone());
+}
+
+CompositeED &
+CompositeED::operator=(const CompositeED &other_)
+{
+    CompositeED cp(other_);
+    fName.swap(cp.fName);
+    fDistPtrs.swap(cp.fDistPtrs);
+    return *this;
+}
+
 CompositeED::~CompositeED()
 {
     for (size_t i = 0; i < fDistPtrs.size(); i++)
@@ -56,8 +73,7 @@ CompositeED::Integral() const
 EventDistribution *
 CompositeED::Clone() const
 {
-    EventDistribution *cp = new CompositeED(fDistPtrs);
-    return static_cast<EventDistribution *>(cp);
+    return static_cast<EventDistribution *>(new CompositeED(*this));
 }
 
 CompositeED
diff --git a/src/dist/CompositeED.h b/src/dist/CompositeED.h
index ce9da0e..48f5b2a 100644
--- a/src/dist/CompositeED.h
+++ b/src/dist/CompositeED.h
@@ -18,6 +18,8 @@ class CompositeED : public EventDistribution
 public:
    CompositeED(const EventDistribution *p1_, const EventDistribution *p2_);
    CompositeED(const std::vector<EventDistribution *> &pdfs_);
+   CompositeED(const CompositeED &);            // deep copy
+   CompositeED &operator=(const CompositeED &); // deep copy
    virtual ~CompositeED();
 
    virtual double Probability(const Event &) const;
-- 
2.43.0


From d2fc2ba71441b3a1eda319f9f7be27e78e7571b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 08/66] fix: assigning an AnalyticED copies its function
 instead of sharing it

---
 src/dist/AnalyticED.cpp | 15 +++++++++++++++
 src/dist/AnalyticED.h   |  1 +
 2 files changed, 16 insertions(+)

diff --git a/src/dist/AnalyticED.cpp b/src/dist/AnalyticED.cpp
index 7498c8e..eb055bb 100644
--- a/src/dist/AnalyticED.cpp
+++ b/src/dist/AnalyticED.cpp
@@ -23,6 +23,21 @@ AnalyticED::AnalyticED(const AnalyticED &other_)
     fFunction = dynamic_cast<PDF *>(other_.fFunction->Clone());
 }
 
+AnalyticED &
+AnalyticED::operator=(const AnalyticED &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    PDF *function = dynamic_cast<PDF *>(other_.fFunction->Clone());
+    delete fFunction;
+    fFunction = function;
+    fName = other_.fName;
+    fNorm = other_.fNorm;
+    fObservables = other_.fObservables;
+    return *this;
+}
+
 EventDistribution *
 AnalyticED::Clone() const
 {
diff --git a/src/dist/AnalyticED.h b/src/dist/AnalyticED.h
index 5c64865..0c3d6b4 100644
--- a/src/dist/AnalyticED.h
+++ b/src/dist/AnalyticED.h
@@ -11,6 +11,7 @@ class AnalyticED : public EventDistribution, public FitComponent
 public:
    AnalyticED(const std::string &, PDF *); // make a copy
    AnalyticED(const AnalyticED &other_);   // deep copy
+   AnalyticED &operator=(const AnalyticED &other_); // deep copy
    ~AnalyticED();                          // frees fFunction
    EventDistribution *Clone() const;
 
-- 
2.43.0


From 06f53488a7315dd41b6fbc71b169b7b62911087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 09/66] fix: ParameterManager::SetParameters sets nothing when
 a parameter is missing

---
 src/core/ParameterManager.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/ParameterManager.cpp b/src/core/ParameterManager.cpp
index c26c45d..4d9f375 100644
--- a/src/core/ParameterManager.cpp
+++ b/src/core/ParameterManager.cpp
@@ -18,6 +18,11 @@ ParameterManager::~ParameterManager()
 void ParameterManager::SetParameters(const ParameterDict &params_)
 {
     std::set<std::string> names = GetParameterNames();
+    // all or nothing: don't set some of them if others are missing
+    for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
+        if (!HasKey(params_, *it))
+            throw ParameterError("Parameters missing from set dict! \n " + CompareKeys(fParamPtrs, params_, "Parameter Names", "SetDict"));
+
     try
     {
         for (std::set<std::string>::const_iterator it = names.begin(); it != names.end(); ++it)
@@ -54,12 +59,14 @@ ParameterManager::GetParameterCount() const
 
 void ParameterManager::Add(FitParameter *p_, const std::string &n_)
 {
+    if (HasKey(fParamPtrs, n_) && fParamPtrs[n_] != p_)
+        delete fParamPtrs[n_];
     fParamPtrs[n_] = p_;
 }
 
 void ParameterManager::AddDouble(double &d_, const std::string &n_)
 {
-    fParamPtrs[n_] = new DoubleParameter(d_);
+    Add(new DoubleParameter(d_), n_);
 }
 
 void ParameterManager::Clear()
-- 
2.43.0


From 3962971e6a30aaf5cf5505d19c9d0f133e11e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 10/66] fix: Shape, ScaleFunction and Renorm set their own
 parameters only, and refuse incomplete sets and clashing names

---
 src/systematic/Renorm.cpp        | 17 ++++++++---------
 src/systematic/Renorm.h          |  2 +-
 src/systematic/ScaleFunction.cpp | 17 ++++++++---------
 src/systematic/Shape.cpp         | 17 ++++++++---------
 4 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/src/systematic/Renorm.cpp b/src/systematic/Renorm.cpp
index b48d08e..8500228 100644
--- a/src/systematic/Renorm.cpp
+++ b/src/systematic/Renorm.cpp
@@ -47,17 +47,14 @@ double Renorm::GetParameter(const std::string &name_) const
 
 void Renorm::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // only the parameters of this systematic, and only if they are all there
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("Renorm: cannot set parameter " + pair.first);
-        }
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("Renorm: set dictionary is missing " + pair.first);
     }
+    for (auto &&pair : fParamDict)
+        pair.second = pd_.at(pair.first);
 }
 
 std::set<std::string> Renorm::GetParameterNames() const
@@ -74,6 +71,8 @@ void Renorm::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Renorm: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Renorm: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Renorm.h b/src/systematic/Renorm.h
index d44c918..d8c41bf 100644
--- a/src/systematic/Renorm.h
+++ b/src/systematic/Renorm.h
@@ -9,7 +9,7 @@
 class Renorm : public Systematic
 {
 public:
-Renorm(const std::string &name_) : fParamDict(), fName(name_){}
+Renorm(const std::string &name_) : fScaleFactor(1), fParamDict(), fName(name_){}
     void Construct();
 
     void SetScaleFactor(double);
diff --git a/src/systematic/ScaleFunction.cpp b/src/systematic/ScaleFunction.cpp
index bb5b815..1f0e75c 100644
--- a/src/systematic/ScaleFunction.cpp
+++ b/src/systematic/ScaleFunction.cpp
@@ -98,17 +98,14 @@ ScaleFunction::GetParameter(const std::string &name_) const
 
 void ScaleFunction::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // only the parameters of this systematic, and only if they are all there
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("ScaleFunction: cannot set parameter " + pair.first);
-        }
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("ScaleFunction: set dictionary is missing " + pair.first);
     }
+    for (auto &&pair : fParamDict)
+        pair.second = pd_.at(pair.first);
 }
 
 std::set<std::string>
@@ -126,6 +123,8 @@ void ScaleFunction::RenameParameter(const std::string &old_, const std::string &
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("ScaleFunction: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("ScaleFunction: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index b210796..1a4e9d5 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -83,17 +83,14 @@ double Shape::GetParameter(const std::string &name_) const
 
 void Shape::SetParameters(const ParameterDict &pd_)
 {
-    for (auto &&pair : pd_)
+    // only the parameters of this systematic, and only if they are all there
+    for (auto &&pair : fParamDict)
     {
-        try
-        {
-            fParamDict[pair.first] = pair.second;
-        }
-        catch (const std::out_of_range &e_)
-        {
-            throw ParameterError("Shift: cannot set parameter " + pair.first);
-        }
+        if (pd_.count(pair.first) == 0)
+            throw ParameterError("Shape: set dictionary is missing " + pair.first);
     }
+    for (auto &&pair : fParamDict)
+        pair.second = pd_.at(pair.first);
 }
 
 std::set<std::string> Shape::GetParameterNames() const
@@ -110,6 +107,8 @@ void Shape::RenameParameter(const std::string &old_, const std::string &new_)
 {
     if (fParamDict.count(old_) == 0)
         throw ParameterError("Shift: can't rename " + old_);
+    if (fParamDict.count(new_) != 0)
+        throw ParameterError("Shape: can't rename " + old_ + " to " + new_ + ", it already exists");
     fParamDict[new_] = fParamDict.at(old_);
     fParamDict.erase(old_);
 }
-- 
2.43.0


From 03c02bc0121c953231fc195bd228acff954fc9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 11/66] fix: GaussianFitter finds parameters of every dimension
 by name, renaming to the same name ends

---
 src/function/GaussianFitter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index 2b96f13..f81f3ba 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -47,14 +47,14 @@ void GaussianFitter::RenameParameter(const std::string &old_, const std::string
     while (it != fMeansNames.end())
     {
         *it = new_;
-        it = find(it++, fMeansNames.end(), old_);
+        it = find(++it, fMeansNames.end(), old_);
     }
 
     it = find(fStdDevsNames.begin(), fStdDevsNames.end(), old_);
     while (it != fStdDevsNames.end())
     {
         *it = new_;
-        it = find(it++, fStdDevsNames.end(), old_);
+        it = find(++it, fStdDevsNames.end(), old_);
     }
 }
 
@@ -101,9 +101,9 @@ GaussianFitter::GetParameter(const std::string &name_) const
         it = find(fStdDevsNames.begin(), fStdDevsNames.end(), name_);
         if (it == fStdDevsNames.end())
             throw NotFoundError(Formatter() << "GaussianFitter:: Parameter : " << name_ << " was not known to the GaussianFitter. Available names: " << ToString(GetParameterNames()));
-        return fOrignalFunc->GetStDev(std::distance(it, fStdDevsNames.begin()));
+        return fOrignalFunc->GetStDev(std::distance(fStdDevsNames.begin(), it));
     }
-    return fOrignalFunc->GetMean(std::distance(it, fMeansNames.begin()));
+    return fOrignalFunc->GetMean(std::distance(fMeansNames.begin(), it));
 }
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
-- 
2.43.0


From f9ed30431ae1875d440ba4cdb746235e9c9ab4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 12/66] fix: VaryingCDF owns its functions and kernel,
 parameters belong to the functions that have them, unknown names are refused

---
 src/function/GaussianFitter.cpp |  8 +++++-
 src/function/VaryingCDF.cpp     | 48 ++++++++++++++++++++++-----------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/function/GaussianFitter.cpp b/src/function/GaussianFitter.cpp
index f81f3ba..45f05c5 100644
--- a/src/function/GaussianFitter.cpp
+++ b/src/function/GaussianFitter.cpp
@@ -72,6 +72,9 @@ GaussianFitter::GetStdDevNames() const
 
 void GaussianFitter::SetParameter(const std::string &name_, double value_)
 {
+    if (!GetParameterNames().count(name_))
+        throw NotFoundError(Formatter() << "GaussianFitter:: Can't set " << name_ << ". Available names: " << ToString(GetParameterNames()));
+
     std::vector<std::string>::iterator it;
     it = find(fMeansNames.begin(), fMeansNames.end(), name_);
     while (it != fMeansNames.end())
@@ -108,9 +111,12 @@ GaussianFitter::GetParameter(const std::string &name_) const
 
 void GaussianFitter::SetParameters(const ParameterDict &ps_)
 {
+    // take what is mine from the dictionary
+    const std::set<std::string> names = GetParameterNames();
     for (ParameterDict::const_iterator i = ps_.begin(); i != ps_.end(); ++i)
     {
-        SetParameter(i->first, i->second);
+        if (names.count(i->first))
+            SetParameter(i->first, i->second);
     }
 }
 
diff --git a/src/function/VaryingCDF.cpp b/src/function/VaryingCDF.cpp
index 8e3fa45..ff2e173 100644
--- a/src/function/VaryingCDF.cpp
+++ b/src/function/VaryingCDF.cpp
@@ -16,7 +16,7 @@ using ContainerTools::ToString;
 // Constructory Things //
 /////////////////////////
 
-VaryingCDF::VaryingCDF(const std::string &name_ = "")
+VaryingCDF::VaryingCDF(const std::string &name_ = "") : fCdf(NULL)
 {
     if (name_ == "")
         fName = std::string("VaryingCDF");
@@ -32,18 +32,24 @@ VaryingCDF::~VaryingCDF()
     }
 }
 
-VaryingCDF::VaryingCDF(const VaryingCDF &copy_)
+VaryingCDF::VaryingCDF(const VaryingCDF &copy_) : ConditionalPDF(copy_), fCdf(NULL)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
-    fName = copy_.fName;
+    *this = copy_;
 }
 
 VaryingCDF &
 VaryingCDF::operator=(const VaryingCDF &copy_)
 {
-    fFunctions = copy_.fFunctions;
-    fCdf = copy_.fCdf->Clone();
+    if (this == &copy_)
+        return *this;
+
+    delete fCdf;
+    fCdf = copy_.fCdf ? copy_.fCdf->Clone() : NULL;
+    for (const auto &function : fFunctions)
+        delete function.second;
+    fFunctions.clear();
+    for (const auto &function : copy_.fFunctions)
+        fFunctions[function.first] = function.second->Clone();
     fName = copy_.fName;
     return *this;
 }
@@ -77,7 +83,9 @@ VaryingCDF::ConditionalProbability(const std::vector<double> &x_,
 
 void VaryingCDF::SetDependance(const std::string &paraName_, const Function *func_)
 {
-    fFunctions[paraName_] = func_->Clone();
+    Function *copy = func_->Clone();
+    delete fFunctions[paraName_];
+    fFunctions[paraName_] = copy;
 }
 
 double
@@ -93,7 +101,9 @@ VaryingCDF::Integral(const std::vector<double> &mins_,
 
 void VaryingCDF::SetKernel(ConditionalPDF *PDF_)
 {
-    fCdf = PDF_->Clone();
+    ConditionalPDF *copy = PDF_->Clone();
+    delete fCdf;
+    fCdf = copy;
 }
 
 void VaryingCDF::SetKernel(PDF *PDF_)
@@ -101,6 +111,7 @@ void VaryingCDF::SetKernel(PDF *PDF_)
     // BL : If we are passed a PDF we transform to a JumpPDF in order to preserve
     // the structure of shifting a function to a bin center and integrating over
     // over bins relative to that shift.
+    delete fCdf;
     fCdf = static_cast<ConditionalPDF *>(new JumpPDF("kernel", PDF_));
 }
 
@@ -115,10 +126,16 @@ VaryingCDF::Sample(const std::vector<double> &x2_) const
 
 void VaryingCDF::SetParameter(const std::string &name_, double value_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(name_))
+            continue;
         function->second->SetParameter(name_, value_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << name_ << " not found, can't set it. Parameters available : " << ToString(GetParameterNames()));
 }
 
 double
@@ -127,13 +144,8 @@ VaryingCDF::GetParameter(const std::string &name_) const
     // This returns parameters of the parameter functions that have been defined.
     for (const auto &function : fFunctions)
     {
-        try
-        {
+        if (function.second->GetParameterNames().count(name_))
             return function.second->GetParameter(name_);
-        }
-        catch (const NotFoundError &e_)
-        {
-        }
     }
     // Parameter couldn't be found, so throw exception.
     std::vector<std::string> functionNames;
@@ -190,10 +202,16 @@ VaryingCDF::GetParameterNames() const
 
 void VaryingCDF::RenameParameter(const std::string &old_, const std::string &new_)
 {
+    bool found = false;
     for (std::map<std::string, Function *>::const_iterator function = fFunctions.begin(); function != fFunctions.end(); ++function)
     {
+        if (!function->second->GetParameterNames().count(old_))
+            continue;
         function->second->RenameParameter(old_, new_);
+        found = true;
     }
+    if (!found)
+        throw NotFoundError(Formatter() << "VaryingCDF:: Parameter : " << old_ << " not found, can't rename it. Parameters available : " << ToString(GetParameterNames()));
 }
 
 std::string
-- 
2.43.0


From cd80e4a3dfc198af69cb50edcef6eda759fd5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 13/66] fix: JumpPDF and EventConvolution copies keep the name,
 assignment frees what it replaces

---
 src/eventSystematic/EventConvolution.cpp | 8 +++++++-
 src/eventSystematic/EventConvolution.h   | 2 +-
 src/function/JumpPDF.cpp                 | 6 +++++-
 src/function/JumpPDF.h                   | 2 +-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/eventSystematic/EventConvolution.cpp b/src/eventSystematic/EventConvolution.cpp
index c2d7aa1..66b61e4 100644
--- a/src/eventSystematic/EventConvolution.cpp
+++ b/src/eventSystematic/EventConvolution.cpp
@@ -23,11 +23,16 @@ EventConvolution::EventConvolution(const EventConvolution &other_)
     fDist = NULL;
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
 }
 
-EventConvolution
+EventConvolution &
 EventConvolution::operator=(const EventConvolution &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fDist;
   if (other_.fDist)
     fDist = other_.fDist->Clone();
   else
@@ -35,6 +40,7 @@ EventConvolution::operator=(const EventConvolution &other_)
 
   fInObservables = other_.fInObservables;
   fOutObservables = other_.fOutObservables;
+  fName = other_.fName;
   return *this;
 }
 
diff --git a/src/eventSystematic/EventConvolution.h b/src/eventSystematic/EventConvolution.h
index 5e601b1..3a418aa 100644
--- a/src/eventSystematic/EventConvolution.h
+++ b/src/eventSystematic/EventConvolution.h
@@ -15,7 +15,7 @@ public:
   EventConvolution(const std::string &name_) : fDist(NULL), fName(name_) {}
   ~EventConvolution();
   EventConvolution(const EventConvolution &);
-  EventConvolution operator=(const EventConvolution &);
+  EventConvolution &operator=(const EventConvolution &);
 
   // Get/Set
   void SetPDF(PDF *f);
diff --git a/src/function/JumpPDF.cpp b/src/function/JumpPDF.cpp
index 308d0f2..48f6a0c 100644
--- a/src/function/JumpPDF.cpp
+++ b/src/function/JumpPDF.cpp
@@ -33,9 +33,13 @@ JumpPDF::JumpPDF(const JumpPDF &other_)
   fName = other_.fName;
 }
 
-JumpPDF
+JumpPDF &
 JumpPDF::operator=(const JumpPDF &other_)
 {
+  if (this == &other_)
+    return *this;
+
+  delete fPDF;
   if (other_.fPDF)
     fPDF = static_cast<PDF *>(other_.fPDF->Clone());
   else
diff --git a/src/function/JumpPDF.h b/src/function/JumpPDF.h
index f62d966..bae9037 100644
--- a/src/function/JumpPDF.h
+++ b/src/function/JumpPDF.h
@@ -13,7 +13,7 @@ public:
   JumpPDF(const std::string &name_, PDF *);
   ~JumpPDF();
   JumpPDF(const JumpPDF &);
-  JumpPDF operator=(const JumpPDF &);
+  JumpPDF &operator=(const JumpPDF &);
   ConditionalPDF *Clone() const;
 
   // ConditDist Interface, just execute the function on x - x2
-- 
2.43.0


From 4479cd76e68683dd9ce3d1b823f667af67a2bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 14/66] fix: BivariateQuadraticConstraint refuses every
 correlation for which it is not a constraint

---
 src/constraint/BivariateQuadraticConstraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constraint/BivariateQuadraticConstraint.h b/src/constraint/BivariateQuadraticConstraint.h
index 61a336b..8d13a53 100644
--- a/src/constraint/BivariateQuadraticConstraint.h
+++ b/src/constraint/BivariateQuadraticConstraint.h
@@ -16,9 +16,9 @@ public:
     // Main constructor
     BivariateQuadraticConstraint(double mean_1, double sigma_1, double mean_2, double sigma_2, double correlation) : fMean1(mean_1), fSigma1(sigma_1), fMean2(mean_2), fSigma2(sigma_2), fCorr(correlation)
     {
-        if (fCorr == 1.)
+        if (fCorr >= 1. || fCorr <= -1.)
         {
-            throw ValueError("BivariateQuadraticConstraint: correlation cannot be equal to 1!");
+            throw ValueError("BivariateQuadraticConstraint: correlation must be strictly between -1 and 1!");
         }
     }
     // Evaluate constraint at a particular pair of values
-- 
2.43.0


From 40020d485b8f18595d79fe7ca2bf065a32b979fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 15/66] fix: SpectralFitDist::SetParameter sets the bin
 content, incomplete sets and clashing names are refused

---
 src/dist/SpectralFitDist.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/dist/SpectralFitDist.cpp b/src/dist/SpectralFitDist.cpp
index 91c5454..80d923f 100644
--- a/src/dist/SpectralFitDist.cpp
+++ b/src/dist/SpectralFitDist.cpp
@@ -28,7 +28,7 @@ void SpectralFitDist::SetParameter(const std::string &name_, double value)
     if (it == fBinNames.end())
         throw ParameterError("Can't set " + name_ + ", parameters are called " + ToString(fBinNames));
 
-    *it = value;
+    fHistogram.SetBinContent(it - fBinNames.begin(), value);
 }
 
 double
@@ -43,14 +43,11 @@ SpectralFitDist::GetParameter(const std::string &name_) const
 void SpectralFitDist::SetParameters(const ParameterDict &pd_)
 {
     for (size_t i = 0; i < fBinNames.size(); i++)
-        try
-        {
-            fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
-        }
-        catch (const std::out_of_range &e_)
-        {
+        if (!pd_.count(fBinNames.at(i)))
             throw ParameterError("Set Parameters: Couldn't set bin content " + fBinNames.at(i));
-        }
+
+    for (size_t i = 0; i < fBinNames.size(); i++)
+        fHistogram.SetBinContent(i, pd_.at(fBinNames.at(i)));
 }
 
 ParameterDict
@@ -76,6 +73,8 @@ void SpectralFitDist::RenameParameter(const std::string &old_, const std::string
     std::vector<std::string>::iterator it = std::find(fBinNames.begin(), fBinNames.end(), old_);
     if (it == fBinNames.end())
         throw ParameterError("Can't rename " + old_ + " it doesn't exist, parameters are called: \n " + ToString(fBinNames));
+    if (std::find(fBinNames.begin(), fBinNames.end(), new_) != fBinNames.end())
+        throw ParameterError("Can't rename " + old_ + " to " + new_ + ", it already exists");
     *it = new_;
 }
 
-- 
2.43.0


From 3f78e59d85b5fb2c0531bc6aea943a3286167652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 16/66] fix: Rand::VonNeumannSample draws before it accepts

---
 src/rand/Rand.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rand/Rand.cpp b/src/rand/Rand.cpp
index 0656e90..071e88c 100644
--- a/src/rand/Rand.cpp
+++ b/src/rand/Rand.cpp
@@ -60,14 +60,14 @@ Rand::VonNeumannSample(Function *f_, double xMin_, double xMax_, double yMax_)
 
   // Von-neuman sampling
   double draw = 0;
-  double fOfX = 1;
+  double fOfX = 0;
   double val = 0;
 
-  while (val > fOfX)
+  do
   {
     draw = Uniform() * (xMax_ - xMin_) + xMin_;
     fOfX = f_->operator()(std::vector<double>(1, draw));
     val = Uniform() * yMax_;
-  }
+  } while (val > fOfX);
   return draw;
 }
-- 
2.43.0


From dec67ef4e1400f8edb94ae549ce57b96c7b1c798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 17/66] fix: a point outside the lattice of bin centres is
 refused in every dimension, not read from another row

---
 src/histogram/Histogram.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/histogram/Histogram.cpp b/src/histogram/Histogram.cpp
index 6f8e95e..a9a19f8 100644
--- a/src/histogram/Histogram.cpp
+++ b/src/histogram/Histogram.cpp
@@ -526,6 +526,10 @@ Histogram::GetLatticePointValues(const std::vector<double>& vals, std::vector<st
             // Determine bin indices for lattice point along each axis
             // Turns out this magic formula works!
             const size_t latt_ax_bin = vals_bin_idxs.at(dim) + latt_idx_bits.test(dim) + vals_is_larger.at(dim) - 1;
+            // (below the first centre this wraps around to a very large number)
+            if (latt_ax_bin >= fAxes.GetAxis(dim).GetNBins())
+                throw NotFoundError(Formatter() << "Histogram::GetLatticePointValues(): no bin centres surround " << vals.at(dim)
+                                                << " on axis " << dim);
             latt_ax_bins.push_back(latt_ax_bin);
         }
         // add lattice point position & value to vectors
-- 
2.43.0


From de34d38aaf4bddbbafdbd451bf897ec2b1be777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 18/66] fix: a systematic given new axes or observables does
 not use the bin mapping of the old ones

---
 src/systematic/Convolution.h   | 1 +
 src/systematic/Scale.h         | 1 +
 src/systematic/ScaleFunction.h | 1 +
 src/systematic/Shape.h         | 1 +
 src/systematic/Shift.h         | 1 +
 src/systematic/Systematic.cpp  | 3 +++
 src/systematic/Systematic.h    | 2 ++
 7 files changed, 10 insertions(+)

diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 5cc7a2d..96f11a1 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -51,6 +51,7 @@ private:
    AxisCollection DetermineAxisSubCollection(const std::vector<size_t> &rel_indices) const;
    size_t BlockedBinningIndex(size_t bin_index, const std::vector<size_t> &relativeIndices) const;
    void CacheIndexPermutations();
+   void ForgetBinMapping() { fCachedIndexPermutations = false; }
    void ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                            std::vector<double> &vals) const;
    void MakeFullMatrix(const std::vector<long long unsigned int> &column_indices, const std::vector<long long unsigned int> &row_indices,
diff --git a/src/systematic/Scale.h b/src/systematic/Scale.h
index eefca3e..d86aa00 100644
--- a/src/systematic/Scale.h
+++ b/src/systematic/Scale.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ForgetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/ScaleFunction.h b/src/systematic/ScaleFunction.h
index 52e9d70..91a201c 100644
--- a/src/systematic/ScaleFunction.h
+++ b/src/systematic/ScaleFunction.h
@@ -51,6 +51,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ForgetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &scaleAxis, double scaledLow,
                              double scaledHigh, size_t bin_test);
 };
diff --git a/src/systematic/Shape.h b/src/systematic/Shape.h
index 4f25d4c..d620637 100644
--- a/src/systematic/Shape.h
+++ b/src/systematic/Shape.h
@@ -53,6 +53,7 @@ private:
     bool fCachedBinMapping;
 
     void CacheBinMapping();
+    void ForgetBinMapping() { fCachedBinMapping = false; }
 };
 
 #endif
diff --git a/src/systematic/Shift.h b/src/systematic/Shift.h
index 7e4a0e3..83b81d7 100644
--- a/src/systematic/Shift.h
+++ b/src/systematic/Shift.h
@@ -40,6 +40,7 @@ private:
    bool fCachedBinMapping;
 
    void CacheBinMapping();
+   void ForgetBinMapping() { fCachedBinMapping = false; }
    double GetBinContribution(const BinAxis &shiftAxis, double shiftedLow,
                              double shiftedHigh, size_t bin_test);
 };
diff --git a/src/systematic/Systematic.cpp b/src/systematic/Systematic.cpp
index c83a9df..b6aa249 100644
--- a/src/systematic/Systematic.cpp
+++ b/src/systematic/Systematic.cpp
@@ -40,6 +40,7 @@ Systematic::GetResponse() const
 void Systematic::SetTransformationObs(const ObsSet &rep_)
 {
     fTransObs = rep_;
+    ForgetBinMapping();
 }
 
 ObsSet
@@ -51,6 +52,7 @@ Systematic::GetTransformationObs() const
 void Systematic::SetDistributionObs(const ObsSet &rep_)
 {
     fDistObs = rep_;
+    ForgetBinMapping();
 }
 
 ObsSet
@@ -94,5 +96,6 @@ Systematic::GetAxes() const
 void Systematic::SetAxes(const AxisCollection &axes_)
 {
     fAxes = axes_;
+    ForgetBinMapping();
     SetResponse(SparseMatrix(axes_.GetNBins(), axes_.GetNBins()));
 }
diff --git a/src/systematic/Systematic.h b/src/systematic/Systematic.h
index 6a5d323..392a523 100644
--- a/src/systematic/Systematic.h
+++ b/src/systematic/Systematic.h
@@ -47,6 +47,8 @@ protected:
    // systematics representation
 
    // methods below used for index manipilation between pdf and response
+   // forget whatever was cached about the bins: called when the axes or observables change
+   virtual void ForgetBinMapping() {}
    bool BinsCompatible(size_t bin1, size_t bin2) const;
    bool VectorContains(const std::vector<size_t> &, size_t) const;
 };
-- 
2.43.0


From 6f173a5fbd470395de050193d4c7ae020251fafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 19/66] fix: a Convolution's kernel dimensions follow the order
 of its transformation observables

---
 src/systematic/Convolution.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index b22318f..d14d5bd 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -129,6 +129,8 @@ void Convolution::Construct()
     const size_t N = fAxes.GetNBins();
     if (!fDist || !N)
         throw LogicError("Convolution::Construct() : Tried to construct convolution without axes or function/distribution, or both!!");
+    if (!fTransObs.GetNObservables())
+        throw RepresentationError("Convolution::Construct() : no observables to transform!");
     // Only work out what the mapping from blocked index to true bin index if not cached already
     if (!fCachedIndexPermutations)
         CacheIndexPermutations();
@@ -163,22 +165,19 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
      * convert to the bin number that would be used if we asserted that
      * we counted in the transformed axes first.
      */
-    if (relativeIndices.size() == fAxes.GetNDimensions())
-    {
-        return bin_index; // case where all axes are being transformed is trivial!
-    }
     // First - unpack indices for each axis
     const std::vector<size_t> bin_idxs = fAxes.UnpackIndices(bin_index);
     // Now split these indices into those within the transforing sub-collection, and those which aren't
+    // The sub-collection's axes come in the order of the transformed observables
     std::vector<size_t> bin_idxs_sub;
     std::vector<size_t> bin_idxs_notsub;
+    for (size_t i = 0; i < relativeIndices.size(); i++)
+    {
+        bin_idxs_sub.push_back(bin_idxs.at(relativeIndices.at(i)));
+    }
     for (size_t ax_idx = 0; ax_idx < fAxes.GetNDimensions(); ax_idx++)
     {
-        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) != std::end(relativeIndices))
-        {
-            bin_idxs_sub.push_back(bin_idxs.at(ax_idx));
-        }
-        else
+        if (std::find(relativeIndices.begin(), relativeIndices.end(), ax_idx) == std::end(relativeIndices))
         {
             bin_idxs_notsub.push_back(bin_idxs.at(ax_idx));
         }
@@ -186,6 +185,8 @@ size_t Convolution::BlockedBinningIndex(size_t bin_index, const std::vector<size
     // Re-pack each individually, the combine to get bin index if going through transformed
     // sub-collection first
     const size_t idx_sub = fSubMapAxes.FlattenIndices(bin_idxs_sub);
+    if (bin_idxs_notsub.empty())
+        return idx_sub; // every axis is transformed
     const size_t idx_notsub = fNotSubMapAxes.FlattenIndices(bin_idxs_notsub);
     const size_t idx_blocked = idx_sub + idx_notsub * fSubMapAxes.GetNBins();
 
-- 
2.43.0


From 114ab6e8a687bde44a3b18748d6bdc014923b5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 20/66] fix: copies of a Convolution own their kernel,
 parameters of one without a kernel are refused

---
 src/systematic/Convolution.cpp | 45 ++++++++++++++++++++++++++++------
 src/systematic/Convolution.h   |  3 +++
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/systematic/Convolution.cpp b/src/systematic/Convolution.cpp
index d14d5bd..9c38a38 100644
--- a/src/systematic/Convolution.cpp
+++ b/src/systematic/Convolution.cpp
@@ -18,11 +18,42 @@ void Convolution::SetConditionalPDF(ConditionalPDF *c_)
     fDist = c_->Clone();
 }
 
+Convolution::Convolution(const Convolution &other_) : Systematic(other_), fDist(other_.fDist ? other_.fDist->Clone() : NULL), fName(other_.fName),
+                                                       fCachedIndexPermutations(other_.fCachedIndexPermutations), fSubMapAxes(other_.fSubMapAxes),
+                                                       fNotSubMapAxes(other_.fNotSubMapAxes), fColumnPerms(other_.fColumnPerms)
+{
+}
+
+Convolution &
+Convolution::operator=(const Convolution &other_)
+{
+    if (this == &other_)
+        return *this;
+
+    Systematic::operator=(other_);
+    delete fDist;
+    fDist = other_.fDist ? other_.fDist->Clone() : NULL;
+    fName = other_.fName;
+    fCachedIndexPermutations = other_.fCachedIndexPermutations;
+    fSubMapAxes = other_.fSubMapAxes;
+    fNotSubMapAxes = other_.fNotSubMapAxes;
+    fColumnPerms = other_.fColumnPerms;
+    return *this;
+}
+
 Convolution::~Convolution()
 {
     delete fDist;
 }
 
+ConditionalPDF *
+Convolution::Kernel() const
+{
+    if (!fDist)
+        throw NULLPointerAccessError("Convolution::Kernel", "Have you set the function?");
+    return fDist;
+}
+
 void Convolution::ConstructSubmatrix(std::vector<long long unsigned int> &column_indices, std::vector<long long unsigned int> &row_indices,
                                      std::vector<double> &vals) const
 {
@@ -236,25 +267,25 @@ void Convolution::CacheIndexPermutations()
 
 void Convolution::RenameParameter(const std::string &old_, const std::string &new_)
 {
-    fDist->RenameParameter(old_, new_);
+    Kernel()->RenameParameter(old_, new_);
 }
 
 void Convolution::SetParameter(const std::string &name_, double value_)
 {
-    fDist->SetParameter(name_, value_);
+    Kernel()->SetParameter(name_, value_);
 }
 
 double
 Convolution::GetParameter(const std::string &name_) const
 {
-    return fDist->GetParameter(name_);
+    return Kernel()->GetParameter(name_);
 }
 
 void Convolution::SetParameters(const ParameterDict &ps_)
 {
     try
     {
-        fDist->SetParameters(ps_);
+        Kernel()->SetParameters(ps_);
     }
     catch (const ParameterError &e_)
     {
@@ -265,19 +296,19 @@ void Convolution::SetParameters(const ParameterDict &ps_)
 ParameterDict
 Convolution::GetParameters() const
 {
-    return fDist->GetParameters();
+    return Kernel()->GetParameters();
 }
 
 size_t
 Convolution::GetParameterCount() const
 {
-    return fDist->GetParameterCount();
+    return Kernel()->GetParameterCount();
 }
 
 std::set<std::string>
 Convolution::GetParameterNames() const
 {
-    return fDist->GetParameterNames();
+    return Kernel()->GetParameterNames();
 }
 
 std::string
diff --git a/src/systematic/Convolution.h b/src/systematic/Convolution.h
index 96f11a1..e424955 100644
--- a/src/systematic/Convolution.h
+++ b/src/systematic/Convolution.h
@@ -18,6 +18,8 @@ class Convolution : public Systematic
 public:
    // Constructor/Destructor
    Convolution(const std::string &name_) : fDist(NULL), fName(name_), fCachedIndexPermutations(false) {}
+   Convolution(const Convolution &other_);
+   Convolution &operator=(const Convolution &other_);
    ~Convolution();
    // Two ways of setting the kernel for convolution:
    void SetFunction(PDF *function_);                  // Just give me a PDF object directly...
@@ -41,6 +43,7 @@ public:
 
 private:
    ConditionalPDF *fDist; // kernel used in convolution
+   ConditionalPDF *Kernel() const; // the same, refusing if none is set
    std::string fName;     // name of this object
    // Members needed for efficient calculations:
    bool fCachedIndexPermutations;                    // have we run the CacheIndexPermutations() method yet?
-- 
2.43.0


From 878fa2f9793d0f3ddc2fae2195ee2f35ffd2c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 21/66] fix: the product of two matrices leaves its operands
 alone and has the right size, entries outside a matrix are refused

---
 src/core/DenseMatrix.cpp  |  5 ++++-
 src/core/SparseMatrix.cpp | 20 +++++++++++++++++---
 src/core/SparseMatrix.h   |  2 +-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/core/DenseMatrix.cpp b/src/core/DenseMatrix.cpp
index 83c7080..c6c0bd2 100644
--- a/src/core/DenseMatrix.cpp
+++ b/src/core/DenseMatrix.cpp
@@ -61,7 +61,10 @@ DenseMatrix::operator()(const std::vector<double> &input_) const
 DenseMatrix
 DenseMatrix::operator*=(const DenseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError("DenseMatrix::operator*=", fNCols, other_.fNRows);
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
@@ -74,7 +77,7 @@ void DenseMatrix::SetZeros()
 
 void DenseMatrix::SetToIdentity()
 {
-    if (!fNRows || !fNCols)
+    if (!fNRows || !fNCols || fNCols != fNRows)
         throw DimensionError(Formatter() << "DenseMatrix:: Can't set identity as matrix is not square. (rows,cols) : (" << fNRows << "," << fNCols << ")");
     fArmaMat.eye();
 }
diff --git a/src/core/SparseMatrix.cpp b/src/core/SparseMatrix.cpp
index d4a8284..58d3cc0 100644
--- a/src/core/SparseMatrix.cpp
+++ b/src/core/SparseMatrix.cpp
@@ -67,15 +67,19 @@ SparseMatrix::operator()(const std::vector<double> &input_) const
 SparseMatrix
 SparseMatrix::operator*=(const SparseMatrix &other_)
 {
+    if (fNCols != other_.fNRows)
+        throw DimensionError("SparseMatrix::operator*=", fNCols, other_.fNRows);
     fArmaMat = fArmaMat * other_.fArmaMat;
+    fNCols = other_.fNCols;
     return *this;
 }
 
 SparseMatrix
-SparseMatrix::operator*(const SparseMatrix &other_)
+SparseMatrix::operator*(const SparseMatrix &other_) const
 {
-    fArmaMat = fArmaMat * other_.fArmaMat;
-    return *this;
+    SparseMatrix product(*this);
+    product *= other_;
+    return product;
 }
 
 void SparseMatrix::SetZeros()
@@ -100,6 +104,16 @@ void SparseMatrix::SetComponents(const std::vector<long long unsigned int> &rowI
     if (rowIndices_.size() != values_.size() || colIndices_.size() != values_.size())
         throw DimensionError("SparseMatrix::SetComponent() #values != #locations");
 
+    for (size_t i = 0; i < values_.size(); i++)
+    {
+        if (rowIndices_.at(i) >= fNRows || colIndices_.at(i) >= fNCols)
+            throw NotFoundError(Formatter()
+                                << "Attempted out of bounds access on  matrix ("
+                                << rowIndices_.at(i) << "," << colIndices_.at(i) << ")."
+                                << "Matrix is (" << fNRows << "x" << fNCols
+                                << ")");
+    }
+
     arma::umat locs(2, rowIndices_.size());
     locs.row(0) = arma::urowvec(rowIndices_);
     locs.row(1) = arma::urowvec(colIndices_);
diff --git a/src/core/SparseMatrix.h b/src/core/SparseMatrix.h
index b95801e..8b684ca 100644
--- a/src/core/SparseMatrix.h
+++ b/src/core/SparseMatrix.h
@@ -26,7 +26,7 @@ public:
                       const std::vector<double> &values_);
 
    SparseMatrix operator*=(const SparseMatrix &other_);
-   SparseMatrix operator*(const SparseMatrix &other_);
+   SparseMatrix operator*(const SparseMatrix &other_) const;
    size_t GetNRows() const { return fNRows; }
    size_t GetNCols() const { return fNCols; }
    void SetZeros();
-- 
2.43.0


From 4bfd0dffab07a2f55cc5406f35189babcea06c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 22/66] fix: Shape sets every entry of its response and refuses
 to act on no observables

---
 src/systematic/Shape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/systematic/Shape.cpp b/src/systematic/Shape.cpp
index 1a4e9d5..49ad7b9 100644
--- a/src/systematic/Shape.cpp
+++ b/src/systematic/Shape.cpp
@@ -30,6 +30,8 @@ void Shape::Construct()
     {
         throw LogicError("Shape::Construct(): Tried to construct response matrix without either a shape function defined, or an axis collection!");
     }
+    if (!fTransObs.GetNObservables())
+        throw RepresentationError("Shape::Construct(): no observables to transform!");
     // If haven't already, generate mapping from full pdf bin IDs
     //--> transforming subspace bin IDs
     if (!fCachedBinMapping)
@@ -55,6 +57,7 @@ void Shape::Construct()
 
     // Finally, construct the full response matrix by setting the diagonal
     // elements to their appropriate value, using the bin ID mapping to help.
+    fResponse.SetZeros();
     for (size_t obs_bin_id = 0; obs_bin_id < fAxes.GetNBins(); obs_bin_id++)
     {
         fResponse.SetComponent(obs_bin_id, obs_bin_id,
-- 
2.43.0


From cd5217e7291732e4d3f5d74d573f2b15ca5a932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 23/66] fix: SystematicManager refuses exactly the systematics
 that would apply twice, and unknown groups

---
 src/fitutil/SystematicManager.cpp | 32 +++++++++++--------------------
 src/fitutil/SystematicManager.h   |  1 +
 2 files changed, 12 insertions(+), 21 deletions(-)

diff --git a/src/fitutil/SystematicManager.cpp b/src/fitutil/SystematicManager.cpp
index 4b5fb6c..f2ab9d9 100644
--- a/src/fitutil/SystematicManager.cpp
+++ b/src/fitutil/SystematicManager.cpp
@@ -2,6 +2,7 @@
 #include <Exceptions.h>
 #include <Formatter.hpp>
 #include <ContainerTools.hpp>
+#include <algorithm>
 
 using ContainerTools::GetKeys;
 using ContainerTools::GetValues;
@@ -74,27 +75,16 @@ void SystematicManager::Add(Systematic *sys_)
 
 void SystematicManager::checkAllOtherGroups(const Systematic *syss_)
 {
-    std::set<std::string> allname;
-    allname.insert(syss_->GetName());
-    for (size_t j = 0; j < fGroups.at("").size(); ++j)
-    {
-        if (allname.find(fGroups.at("").at(j)->GetName()) == allname.end())
-            allname.insert(fGroups.at("").at(j)->GetName());
-        else
-            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << fGroups.at("").at(j)->GetName() << " is in the global systematic group more than once.");
-    }
+    // A systematic in the global group is in no other. Two other groups may share one.
     for (std::map<std::string, std::vector<Systematic *>>::const_iterator i = fGroups.begin(); i != fGroups.end(); ++i)
     {
-        if (i->first == "")
-            continue;
         for (std::vector<Systematic *>::const_iterator sys = i->second.begin(); sys != i->second.end(); ++sys)
         {
-            if (allname.find((*sys)->GetName()) == allname.end())
-            {
-                allname.insert((*sys)->GetName());
-            }
-            else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the another group and therefore can't be added to the global systematics.");
+            if ((*sys)->GetName() != syss_->GetName())
+                continue;
+            if (i->first == "")
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the global systematic group more than once.");
+            throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << (*sys)->GetName() << " is in the another group and therefore can't be added to the global systematics.");
         }
     }
 }
@@ -113,12 +103,12 @@ void SystematicManager::UniqueSystematics(const std::vector<std::string> &syss_)
             if (allname.find(group.at(j)->GetName()) == allname.end())
                 allname.insert(group.at(j)->GetName());
             else
-                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(i)->GetName() << " is in more than one group.");
+                throw NotFoundError(Formatter() << "SystematicManager :: Systematic: " << group.at(j)->GetName() << " is in more than one group.");
         }
     }
     // Check the "" group only after everything else has been checked and
-    // allnames has been populated.
-    if (syss_ != std::vector<std::string>(1, ""))
+    // allnames has been populated; if it is listed it is applied there only.
+    if (std::find(syss_.begin(), syss_.end(), "") == syss_.end())
     {
         std::vector<Systematic *> group = fGroups[""];
         for (size_t j = 0; j < group.size(); ++j)
@@ -191,7 +181,7 @@ SystematicManager::GetNSystematicsInGroup(const std::string &name_) const
 {
     try
     {
-        return fGroups.find(name_)->second.size();
+        return fGroups.at(name_).size();
     }
     catch (const std::out_of_range &e_)
     {
diff --git a/src/fitutil/SystematicManager.h b/src/fitutil/SystematicManager.h
index 5cf43af..0c54ed9 100644
--- a/src/fitutil/SystematicManager.h
+++ b/src/fitutil/SystematicManager.h
@@ -23,6 +23,7 @@ public:
    {
       std::vector<Systematic *> holder;
       fGroups[""] = holder;
+      fNGroups = fGroups.size();
    }
    ~SystematicManager() {}
 
-- 
2.43.0


From 577f208c0d9b2a8f0bf772415c29cf45dd8661f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 24/66] fix: each pdf of a BinnedEDManager gets its own
 normalisation when direct and indirect ones are mixed

---
 src/fitutil/BinnedEDManager.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 6de255d..2829cf5 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -315,11 +315,12 @@ void BinnedEDManager::ReassertNorms(bool calcing_binprob)
         size_t j = 0;
         for (size_t i = 0; i < fNormalisations.size(); i++)
         {
+            if (fAllowNormsFittable.at(i) == FALSE)
+                continue;
             if (fAllowNormsFittable.at(i) == ((calcing_binprob) ? DIRECT : INDIRECT))
-            {
                 fNormalisations[i] = fFittableNorms.at(j);
-                j++;
-            }
+            // every fittable pdf has an entry in fFittableNorms, of whichever kind it is
+            j++;
         }
     }
 }
-- 
2.43.0


From 5ada10dfb6fa20de946fad9d3b13229ef4e32335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 25/66] fix: BinnedEDManager::SetNormalisations sets the fitted
 normalisations too, adding a pdf keeps them

---
 src/fitutil/BinnedEDManager.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 2829cf5..a35fbcd 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -3,6 +3,7 @@
 #include <BinnedEDShrinker.h>
 #include <BinnedED.h>
 #include <Exceptions.h>
+#include <algorithm>
 #include <sstream>
 
 unsigned
@@ -86,6 +87,15 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
     if (normalisations_.size() != fOriginalPdfs.size())
         throw LogicError("BinnedEDManager: number of norms doesn't match #pdfs");
     fNormalisations = normalisations_;
+    if (fAllNormsDirFittable)
+        return;
+    // the fittable normalisations are what counts from now on
+    size_t j = 0;
+    for (size_t i = 0; i < fNormalisations.size(); i++)
+    {
+        if (fAllowNormsFittable.at(i) != FALSE)
+            fFittableNorms[j++] = fNormalisations.at(i);
+    }
 }
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
@@ -136,6 +146,9 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     }
     if (norm_fitting_status != DIRECT)
     {
+        // so far the normalisations themselves were the parameters: keep their values
+        if (fAllNormsDirFittable)
+            std::copy_n(fNormalisations.begin(), fOriginalPdfs.size() - 1, fFittableNorms.begin());
         fAllNormsDirFittable = false;
     }
     RegisterParameters();
-- 
2.43.0


From acd49f4da9f46e8ebb98d715570b94d08f689dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 26/66] fix: copies of an EDManager own their distributions and
 parameters

---
 src/fitutil/EDManager.cpp | 34 +++++++++++++++++++++++++++++++---
 src/fitutil/EDManager.h   |  4 ++++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/fitutil/EDManager.cpp b/src/fitutil/EDManager.cpp
index 79054c4..69957d3 100644
--- a/src/fitutil/EDManager.cpp
+++ b/src/fitutil/EDManager.cpp
@@ -2,6 +2,33 @@
 #include <EventDistribution.h>
 #include <Event.h>
 #include <Exceptions.h>
+#include <algorithm>
+
+EDManager::EDManager(const EDManager &other_)
+{
+    operator=(other_);
+}
+
+EDManager &
+EDManager::operator=(const EDManager &other_)
+{
+    std::vector<EventDistribution *> dists;
+    for (size_t i = 0; i < other_.fDists.size(); i++)
+        dists.push_back(other_.fDists.at(i)->Clone());
+    for (size_t i = 0; i < fDists.size(); i++)
+        delete fDists[i];
+
+    fDists = dists;
+    fNDists = other_.fNDists;
+    fNDims = other_.fNDims;
+    fNormalisations = other_.fNormalisations;
+    fName = other_.fName;
+    fParameterNames = other_.fParameterNames;
+
+    fParameterManager.Clear();
+    fParameterManager.AddContainer(fNormalisations, fParameterNames);
+    return *this;
+}
 
 EDManager::~EDManager()
 {
@@ -72,11 +99,11 @@ EDManager::GetNDists() const
 void EDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
+    fParameterNames.clear();
     for (size_t i = 0; i < fDists.size(); i++)
-        parameterNames.push_back(fDists.at(i)->GetName());
+        fParameterNames.push_back(fDists.at(i)->GetName());
 
-    fParameterManager.AddContainer(fNormalisations, parameterNames);
+    fParameterManager.AddContainer(fNormalisations, fParameterNames);
 }
 
 std::string
@@ -93,6 +120,7 @@ void EDManager::SetName(const std::string &n_)
 void EDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fParameterNames.begin(), fParameterNames.end(), old_, new_);
 }
 
 void EDManager::SetParameter(const std::string &name_, double value_)
diff --git a/src/fitutil/EDManager.h b/src/fitutil/EDManager.h
index 53d468e..b9148ab 100644
--- a/src/fitutil/EDManager.h
+++ b/src/fitutil/EDManager.h
@@ -11,6 +11,9 @@ class EDManager : public FitComponent
 {
 public:
    EDManager() : fNDists(0), fNDims(0), fName("norms") {}
+   // copies have pdf copies and normalisations of their own
+   EDManager(const EDManager &);
+   EDManager &operator=(const EDManager &);
    ~EDManager(); // free pdf copies
 
    void AddDist(EventDistribution *); // take a copy
@@ -47,5 +50,6 @@ private:
 
    std::string fName; // component name
    void RegisterParameters();
+   std::vector<std::string> fParameterNames; // in the order of the pdfs
 };
 #endif
-- 
2.43.0


From c5de22b5d563334c5c3378edae9e8f93d97a3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 27/66] fix: copies of a BinnedEDManager have parameters of
 their own

---
 src/fitutil/BinnedEDManager.cpp | 36 ++++++++++++++++++++++++++++-----
 src/fitutil/BinnedEDManager.h   |  6 +++++-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index a35fbcd..0e6bc6f 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -6,6 +6,30 @@
 #include <algorithm>
 #include <sstream>
 
+BinnedEDManager::BinnedEDManager(const BinnedEDManager &other_)
+{
+    operator=(other_);
+}
+
+BinnedEDManager &
+BinnedEDManager::operator=(const BinnedEDManager &other_)
+{
+    fOriginalPdfs = other_.fOriginalPdfs;
+    fWorkingPdfs = other_.fWorkingPdfs;
+    fNormalisations = other_.fNormalisations;
+    fAllowNormsFittable = other_.fAllowNormsFittable;
+    fFittableNorms = other_.fFittableNorms;
+    fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fNPdfs = other_.fNPdfs;
+    fNDims = other_.fNDims;
+    fName = other_.fName;
+    fParameterNames = other_.fParameterNames;
+
+    fParameterManager.Clear();
+    fParameterManager.AddContainer(fAllNormsDirFittable ? fNormalisations : fFittableNorms, fParameterNames);
+    return *this;
+}
+
 unsigned
 BinnedEDManager::GetNPdfs() const
 {
@@ -138,6 +162,7 @@ void BinnedEDManager::AddPdf(const BinnedED &pdf_, const NormFittingStatus norm_
     fOriginalPdfs.push_back(pdf_);
     fWorkingPdfs.push_back(pdf_);
     fNPdfs++;
+    fNDims = fOriginalPdfs.front().GetNDims();
     fNormalisations.resize(fOriginalPdfs.size(), 0);
     fAllowNormsFittable.push_back(norm_fitting_status);
     if (norm_fitting_status)
@@ -254,6 +279,7 @@ void BinnedEDManager::SetName(const std::string &n_)
 void BinnedEDManager::RenameParameter(const std::string &old_, const std::string &new_)
 {
     fParameterManager.RenameParameter(old_, new_);
+    std::replace(fParameterNames.begin(), fParameterNames.end(), old_, new_);
 }
 
 void BinnedEDManager::SetParameter(const std::string &name_, double value_)
@@ -293,14 +319,14 @@ BinnedEDManager::GetParameterNames() const
 void BinnedEDManager::RegisterParameters()
 {
     fParameterManager.Clear();
-    std::vector<std::string> parameterNames;
+    fParameterNames.clear();
     if (fAllNormsDirFittable)
     {
         for (size_t i = 0; i < fOriginalPdfs.size(); i++)
         {
-            parameterNames.push_back(fOriginalPdfs.at(i).GetName());
+            fParameterNames.push_back(fOriginalPdfs.at(i).GetName());
         }
-        fParameterManager.AddContainer(fNormalisations, parameterNames);
+        fParameterManager.AddContainer(fNormalisations, fParameterNames);
     }
     else
     {
@@ -308,10 +334,10 @@ void BinnedEDManager::RegisterParameters()
         {
             if (fAllowNormsFittable.at(i))
             {
-                parameterNames.push_back(fOriginalPdfs.at(i).GetName());
+                fParameterNames.push_back(fOriginalPdfs.at(i).GetName());
             }
         }
-        fParameterManager.AddContainer(fFittableNorms, parameterNames);
+        fParameterManager.AddContainer(fFittableNorms, fParameterNames);
     }
 }
 
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index 18ccce7..fa20814 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,10 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
+   // the parameters of a copy are its own normalisations
+   BinnedEDManager(const BinnedEDManager &);
+   BinnedEDManager &operator=(const BinnedEDManager &);
 
    void AddPdf(const BinnedED &, const NormFittingStatus norm_fitting_status = INDIRECT);
    void AddPdfs(const std::vector<BinnedED> &,
@@ -72,5 +75,6 @@ private:
    std::string fName; // component name
 
    void RegisterParameters();
+   std::vector<std::string> fParameterNames; // in the order of the fittable pdfs
 };
 #endif
-- 
2.43.0


From 690eeb74ddffc02cbe90be5e26349a0f14853e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 28/66] fix: evaluating a likelihood again gives the same value
 with buffers, marginalised pdfs and without systematics

---
 src/fitutil/BinnedEDManager.cpp | 64 ++++++++++++++++-----------------
 src/fitutil/BinnedEDManager.h   |  4 ++-
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/fitutil/BinnedEDManager.cpp b/src/fitutil/BinnedEDManager.cpp
index 0e6bc6f..eef5260 100644
--- a/src/fitutil/BinnedEDManager.cpp
+++ b/src/fitutil/BinnedEDManager.cpp
@@ -20,6 +20,8 @@ BinnedEDManager::operator=(const BinnedEDManager &other_)
     fAllowNormsFittable = other_.fAllowNormsFittable;
     fFittableNorms = other_.fFittableNorms;
     fAllNormsDirFittable = other_.fAllNormsDirFittable;
+    fWorkingPdfsChanged = other_.fWorkingPdfsChanged;
+    fShrunk = other_.fShrunk;
     fNPdfs = other_.fNPdfs;
     fNDims = other_.fNDims;
     fName = other_.fName;
@@ -124,29 +126,35 @@ void BinnedEDManager::SetNormalisations(const std::vector<double> &normalisation
 
 void BinnedEDManager::ApplySystematics(const SystematicManager &sysMan_)
 {
-    // If there are no systematics dont do anything
-    //  ( working pdfs = original pdfs from initialisation)
-
-    if (!sysMan_.GetNSystematics())
+    // Start from the original pdfs, whatever was applied to the working ones before
+    if (fWorkingPdfsChanged)
+        fWorkingPdfs = fOriginalPdfs;
+    fWorkingPdfsChanged = false;
+    fShrunk = false;
+
+    const bool distort = sysMan_.GetNSystematics();
+    if (!distort && fAllNormsDirFittable)
         return;
-    if (fAllNormsDirFittable)
+
+    // pdfs without systematics keep the integral they have
+    std::vector<double> norms(fNormalisations.size(), 0);
+    for (size_t i = 0; i < norms.size(); i++)
+        norms[i] = fOriginalPdfs.at(i).Integral();
+
+    if (distort)
     {
-        sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs);
+        fWorkingPdfsChanged = true;
+        sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs, &norms);
     }
-    else
+    for (size_t i = 0; i < norms.size(); i++)
     {
-        std::vector<double> norms(fNormalisations.size(), 0);
-        sysMan_.DistortEDs(fOriginalPdfs, fWorkingPdfs, &norms);
-        for (size_t i = 0; i < norms.size(); i++)
+        if (fAllowNormsFittable.at(i) == FALSE)
         {
-            if (fAllowNormsFittable.at(i) == FALSE)
-            {
-                fNormalisations[i] = norms.at(i);
-            }
-            else if (fAllowNormsFittable.at(i) == INDIRECT)
-            {
-                fNormalisations[i] *= norms.at(i);
-            }
+            fNormalisations[i] = norms.at(i);
+        }
+        else if (distort && fAllowNormsFittable.at(i) == INDIRECT)
+        {
+            fNormalisations[i] *= norms.at(i);
         }
     }
 }
@@ -214,22 +222,11 @@ void BinnedEDManager::ApplyShrink(const BinnedEDShrinker &shrinker_)
     if (!shrinker_.GetBuffers().size())
         return;
 
-    // If the number of bins in the working PDFs =/= the number of bins in the corresponding original PDF, it's likely the
-    // shrinking has already been applied. This probably only happens if a buffer is being used without systematics. So
-    // we check if the bins equals the original number minus the shrinking, and if it has we assume the shrinking has already
-    // been applied successfully. If it doesn't equal that or the original number of bins, something bad has happened! For these
-    // tests we assume the buffer and number of bins are the same for all PDFs so just look at the 0th element
-    int bufferBins = 0;
-    std::map<std::string, std::pair<unsigned, unsigned>> bufferMap = shrinker_.GetBuffers();
-    for (std::map<std::string, std::pair<unsigned, unsigned>>::iterator it = bufferMap.begin(); it != bufferMap.end(); ++it)
-    {
-        bufferBins += it->second.first;
-        bufferBins += it->second.second;
-    }
-    if (fWorkingPdfs.at(0).GetNBins() == fOriginalPdfs.at(0).GetNBins() - bufferBins)
+    // Not again before the working pdfs have been reset by ApplySystematics
+    if (fShrunk)
         return;
-    else if (fWorkingPdfs.at(0).GetNBins() != fOriginalPdfs.at(0).GetNBins() )
-        throw DimensionError(Formatter() << "BinnedEDManager:: #bins in Original PDF != #bins in Working PDF");
+    fShrunk = true;
+    fWorkingPdfsChanged = true;
 
     for (size_t i = 0; i < fWorkingPdfs.size(); i++)
     {
@@ -377,6 +374,7 @@ void BinnedEDManager::AssertDimensions(const std::vector<std::string> &observabl
         if (working_pdf.GetObservables() != observables)
         {
             working_pdf = working_pdf.Marginalise(observables);
+            fWorkingPdfsChanged = true;
         }
     }
 }
diff --git a/src/fitutil/BinnedEDManager.h b/src/fitutil/BinnedEDManager.h
index fa20814..627d149 100644
--- a/src/fitutil/BinnedEDManager.h
+++ b/src/fitutil/BinnedEDManager.h
@@ -22,7 +22,7 @@ enum NormFittingStatus
 class BinnedEDManager : public FitComponent
 {
 public:
-   BinnedEDManager() : fAllNormsDirFittable(true), fNPdfs(0), fNDims(0), fName("norms") {}
+   BinnedEDManager() : fAllNormsDirFittable(true), fWorkingPdfsChanged(false), fShrunk(false), fNPdfs(0), fNDims(0), fName("norms") {}
    // the parameters of a copy are its own normalisations
    BinnedEDManager(const BinnedEDManager &);
    BinnedEDManager &operator=(const BinnedEDManager &);
@@ -69,6 +69,8 @@ private:
    std::vector<NormFittingStatus> fAllowNormsFittable;
    std::vector<double> fFittableNorms;
    bool fAllNormsDirFittable;
+   bool fWorkingPdfsChanged; // since they were the original ones
+   bool fShrunk;             // the working pdfs have been through the shrinker
    int fNPdfs;
    size_t fNDims;
 
-- 
2.43.0


From cb4edf949528fbda38ce1f6779928acb08809369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 29/66] fix: a BinnedNLLH given new data after an evaluation
 applies its buffers to them

---
 src/teststat/BinnedNLLH.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 8e18591..198053c 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -130,6 +130,7 @@ void BinnedNLLH::BinData()
     CutLog log(GetCuts().GetCutNames());
     DistFiller::FillDist(fDataDist, *GetDataSet(), GetCuts(), log);
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
     SetSignalCutLog(log);
 }
 
@@ -277,6 +278,7 @@ void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
     SetCalculatedDataDist(true);
+    fAlreadyShrunk = false;
 }
 
 BinnedED
-- 
2.43.0


From 5e551cec6077c4a43b81895e51ac6bcf9f628b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 30/66] fix: BinnedNLLH refuses lists of different lengths and
 keeps nothing of a refused distribution

---
 src/teststat/BinnedNLLH.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 198053c..be6e7a4 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -181,6 +181,8 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
     {
         throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
     }
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
@@ -223,6 +225,10 @@ void BinnedNLLH::AddPdfs(const std::vector<BinnedED> &pdfs,
 {
     if (pdfs.size() != sys_.size())
         throw DimensionError(Formatter() << "BinnedNLLH:: #sys_ != #group_");
+    if (pdfs.size() != genrates_.size())
+        throw DimensionError("BinnedNLLH: number of generated rates doesn't match the number of pdfs");
+    if (norm_fitting_statuses != nullptr && pdfs.size() != norm_fitting_statuses->size())
+        throw DimensionError("BinnedNLLH: number of norm_fittable bools doesn't the number of pdfs");
     for (size_t i = 0; i < pdfs.size(); i++)
     {
         if (norm_fitting_statuses != nullptr)
@@ -242,16 +248,16 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, syss_);
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     fGenRates.push_back(genrate_);
 }
 
@@ -260,8 +266,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 {
     if (fUseBarlowBeeston)
         throw OXSXException(Formatter() << "BinnedNLLH:: Must set generated rates if using Barlow-Beeston");
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, "");
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
 }
 
 void BinnedNLLH::AddPdf(const BinnedED &pdf_,
@@ -269,8 +275,8 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
                         const int &genrate_,
                         const NormFittingStatus norm_fitting_status)
 {
-    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     GetSystematicManager().AddDist(pdf_, syss_);
+    fPdfManager.AddPdf(pdf_, norm_fitting_status);
     fGenRates.push_back(genrate_);
 }
 
-- 
2.43.0


From 414860e41a3104ee0f06656f29379b5c87c5a88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 31/66] fix: the Barlow-Beeston likelihood of a bin without
 data is a number, however uncertain its expectation

---
 src/teststat/BinnedNLLH.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index be6e7a4..7b212d7 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -88,7 +88,8 @@ BinnedNLLH::Evaluate()
             double q = -0.5 * (b + sign * sqrt(det));
 
             double x1 = q;
-            double x2 = fDataDist.GetBinContent(i) * sigma2 / q;
+            // (with no data in the bin one of the roots is 0, and q may be as well)
+            double x2 = fDataDist.GetBinContent(i) ? fDataDist.GetBinContent(i) * sigma2 / q : 0;
 
             double beta = (x1 > x2) ? x1 : x2;
 
@@ -105,7 +106,9 @@ BinnedNLLH::Evaluate()
         }
 
         // LogL = mu_i - data * log(update MC) + Beta Penalty + Norm Correction
-        nLogLH = nLogLH - fDataDist.GetBinContent(i) * log(newProb) + penalty + newProb;
+        if (fDataDist.GetBinContent(i))
+            nLogLH -= fDataDist.GetBinContent(i) * log(newProb);
+        nLogLH += penalty + newProb;
     }
 
     if (GetDebugMode())
-- 
2.43.0


From ed6b9b65d4cb60064e13d89f0591bef48989be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 32/66] fix: the Barlow-Beeston scale of a very uncertain bin
 is the positive root

---
 src/teststat/BinnedNLLH.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 7b212d7..77f0000 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -89,7 +89,7 @@ BinnedNLLH::Evaluate()
 
             double x1 = q;
             // (with no data in the bin one of the roots is 0, and q may be as well)
-            double x2 = fDataDist.GetBinContent(i) ? fDataDist.GetBinContent(i) * sigma2 / q : 0;
+            double x2 = fDataDist.GetBinContent(i) ? -fDataDist.GetBinContent(i) * sigma2 / q : 0;
 
             double beta = (x1 > x2) ? x1 : x2;
 
-- 
2.43.0


From 121e02ce2c5d6d6ebc788b73c95ac260dbcc4513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 33/66] fix: GridSearch evaluates every point of its grid, the
 first included, for any number of parameters

---
 src/optimise/GridSearch.cpp | 34 ++++++++++++----------------------
 1 file changed, 12 insertions(+), 22 deletions(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index fe95327..5cddbe9 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -97,7 +97,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
     if (oneTenth < 10)
         oneTenth = 1;
 
-    while (Increment(fStepSizes.begin(), fStepSizes.end()))
+    do
     {
         // calculate the new value
         // if bigger, grab this as new best fit
@@ -116,12 +116,12 @@ GridSearch::Optimise(TestStatistic *testStat_)
         if (fMaximising)
             currentVal *= -1;
 
-        if (currentVal < fMinVal || !fMinVal)
+        if (bestFit.empty() || currentVal < fMinVal)
         {
             fMinVal = currentVal;
             bestFit = fParamVals;
         }
-    }
+    } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
     fFitResult.SetExtremeVal(fMinVal);
     return fFitResult;
@@ -130,28 +130,18 @@ GridSearch::Optimise(TestStatistic *testStat_)
 bool GridSearch::Increment(ParameterDict::iterator it_,
                            ParameterDict::iterator end_)
 {
-    const std::string paramToChange = it_->first;
-    // nothing doing
-    if (fMinima == fMaxima)
-        return false;
-    fParamVals[paramToChange] += fStepSizes.at(paramToChange);
-
-    // wrap around past the maximum
-    if (fParamVals[paramToChange] > fMaxima.at(paramToChange))
+    for (; it_ != end_; ++it_)
     {
-        fParamVals[paramToChange] = fMinima.at(paramToChange);
-
-        // if its the last index no rippling to do
-        if (it_ == end_--)
-            return false;
-
-        // ripple up to next index
-        if (Increment(++it_, end_)) // propagate the false down
+        const std::string paramToChange = it_->first;
+        fParamVals[paramToChange] += fStepSizes.at(paramToChange);
+        if (fParamVals[paramToChange] <= fMaxima.at(paramToChange))
             return true;
-        else
-            return false;
+
+        // wrap around past the maximum and ripple up to next index
+        fParamVals[paramToChange] = fMinima.at(paramToChange);
     }
-    return true;
+    // nothing left to ripple up to
+    return false;
 }
 
 FitResult
-- 
2.43.0


From 4d52228bbd6ad828845a7adb26ad0308abf2d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 34/66] fix: the extreme value of a maximising GridSearch is
 the statistic's own

---
 src/optimise/GridSearch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 5cddbe9..13c51f2 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -123,7 +123,7 @@ GridSearch::Optimise(TestStatistic *testStat_)
         }
     } while (Increment(fStepSizes.begin(), fStepSizes.end()));
     fFitResult.SetBestFit(bestFit);
-    fFitResult.SetExtremeVal(fMinVal);
+    fFitResult.SetExtremeVal(fMaximising ? -fMinVal : fMinVal);
     return fFitResult;
 }
 
-- 
2.43.0


From 340c603a30049d90ad597b3e64e06d366f09864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 35/66] fix: GridSearch refuses a step that is not positive and
 a minimum above the maximum

---
 src/optimise/GridSearch.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimise/GridSearch.cpp b/src/optimise/GridSearch.cpp
index 13c51f2..3c0b970 100644
--- a/src/optimise/GridSearch.cpp
+++ b/src/optimise/GridSearch.cpp
@@ -66,6 +66,16 @@ GridSearch::Optimise(TestStatistic *testStat_)
                          << "StepSizes for :\n"
                          << ToString(GetKeys(fStepSizes)) << "\n");
 
+    for (ParameterDict::iterator it = fStepSizes.begin(); it != fStepSizes.end(); ++it)
+    {
+        if (!(it->second > 0) || !(fMinima[it->first] <= fMaxima[it->first]))
+            throw LogicError(Formatter()
+                             << "Grid Search initialisation error "
+                             << " no grid for " << it->first << " : "
+                             << fMinima[it->first] << " - " << fMaxima[it->first]
+                             << " in steps of " << it->second << "\n");
+    }
+
     // Prepare best fit
     ParameterDict bestFit;
     fMinVal = 0;
-- 
2.43.0


From c597b92dcbf84b6220f61a6c8f67c89df5799d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 36/66] fix: FitResult copies and assignments take the stat
 space and the print precision of the original

---
 src/optimise/FitResult.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/optimise/FitResult.cpp b/src/optimise/FitResult.cpp
index c89f4e1..50a286b 100644
--- a/src/optimise/FitResult.cpp
+++ b/src/optimise/FitResult.cpp
@@ -26,22 +26,26 @@ FitResult::GetBestFit() const
 
 void FitResult::SetStatSpace(const Histogram &statSpace_)
 {
-    fStatSpace = new Histogram(statSpace_);
+    Histogram *statSpace = new Histogram(statSpace_);
+    delete fStatSpace;
+    fStatSpace = statSpace;
 }
 
 const Histogram &
 FitResult::GetStatSpace() const
 {
+    if (!fStatSpace)
+        throw LogicError("FitResult::GetStatSpace: no stat space has been set");
     return *fStatSpace;
 }
 
 FitResult
 FitResult::operator=(const FitResult &other_)
 {
-    if (!fStatSpace)
-        fStatSpace = NULL;
-    else
-        fStatSpace = new Histogram(*other_.fStatSpace);
+    Histogram *statSpace = other_.fStatSpace ? new Histogram(*other_.fStatSpace) : NULL;
+    delete fStatSpace;
+    fStatSpace = statSpace;
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fBestFit = other_.fBestFit;
     fExtremeVal = other_.fExtremeVal;
@@ -61,6 +65,7 @@ FitResult::FitResult(const FitResult &other_)
         fStatSpace = new Histogram(*other_.fStatSpace);
     fStatSample = other_.fStatSample;
     fBestFit = other_.fBestFit;
+    printPrecision = other_.printPrecision;
     fIsValid = other_.fIsValid;
     fExtremeVal = other_.fExtremeVal;
     f1DProjections = other_.f1DProjections;
-- 
2.43.0


From 8228d5bebe3af1c12f6e5232646eb201900149bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 37/66] fix: the upper bound of a posterior is in the bin where
 the credibility is reached; impossible credibilities are refused

---
 src/interval/BayesIntervalCalc.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/interval/BayesIntervalCalc.cpp b/src/interval/BayesIntervalCalc.cpp
index a2b167d..f763ea4 100644
--- a/src/interval/BayesIntervalCalc.cpp
+++ b/src/interval/BayesIntervalCalc.cpp
@@ -12,9 +12,9 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     if (!posterior_.Integral())
         throw ValueError("BayesIntervalCalc::Empty histogram passed!");
 
-    if (cl_ <= 0)
+    if (!(cl_ > 0 && cl_ <= 1))
         throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_
-                                     << " , must be >0!");
+                                     << " , must be >0 and <=1!");
 
     // only works for 1D histograms currently
     if (posterior_.GetNDims() != 1)
@@ -24,18 +24,16 @@ BayesIntervalCalc::UpperBound(Histogram posterior_, double cl_)
     posterior_.Normalise();
 
     // Integrate from the minimum to x until the total probability exceeds cl_
-    // find the first bin <b> for which the integral  <0>-><b> > cl
+    // find the first bin <b> for which the integral  <0>-><b> >= cl
+    // (bins without content are never the one that gets there)
     size_t critBin = 0;
     double sum = 0;
-    while (sum < cl_)
+    for (size_t i = 0; i < posterior_.GetNBins() && sum < cl_; i++)
     {
-        sum = 0;
-        for (size_t i = 0; i < critBin; i++)
-        {
-            sum += posterior_.GetBinContent(i);
-        }
-
-        critBin++;
+        if (!posterior_.GetBinContent(i))
+            continue;
+        sum += posterior_.GetBinContent(i);
+        critBin = i;
     }
 
     // now interpolate between the bins
@@ -55,6 +53,10 @@ BayesIntervalCalc::OneSidedUpperInterval(double expectedCounts_, int observedCou
 double
 BayesIntervalCalc::UpperBound(double expectedCounts_, int observedCounts_, double cl_, double tolerance_)
 {
+    if (!(cl_ > 0 && cl_ <= 1) || !(tolerance_ > 0))
+        throw ValueError(Formatter() << "BayesIntervalCalc:: cl = " << cl_ << " within " << tolerance_
+                                     << " , must be >0 and <=1 and the tolerance >0!");
+
     double currentCL = 0;
     double limit = 0;
     while (std::abs(currentCL - cl_) > tolerance_)
-- 
2.43.0


From 701983feccc0db98a18096d14c56cfdaff30098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 38/66] fix: AutoCorrelationCalc::Var is the variance of the
 values held

---
 src/optimise/AutoCorrelationCalc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/AutoCorrelationCalc.cpp b/src/optimise/AutoCorrelationCalc.cpp
index 68be4f1..5a55601 100644
--- a/src/optimise/AutoCorrelationCalc.cpp
+++ b/src/optimise/AutoCorrelationCalc.cpp
@@ -44,8 +44,8 @@ double
 AutoCorrelationCalc::Var() const
 {
     double mean = Mean();
-    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0);
-    return sumSq - mean * mean;
+    double sumSq = std::inner_product(fValues.begin(), fValues.end(), fValues.begin(), 0.0);
+    return sumSq / fValues.size() - mean * mean;
 }
 
 void AutoCorrelationCalc::Clear()
-- 
2.43.0


From 507c2c043d838cb27dd259b5930c69eb73373716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 39/66] fix: MCMC's best fit includes the last step of the
 chain and its extreme value is the statistic's own

---
 src/optimise/MCMC.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 1552b09..76c2850 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -204,7 +204,7 @@ MCMC::Optimise(TestStatistic *testStat_)
 
     fFitResult.SetBestFit(fBestFit);
     fFitResult.SetValid(true);
-    fFitResult.SetExtremeVal(fMaxVal);
+    fFitResult.SetExtremeVal(fFlipSign ? -fMaxVal : fMaxVal);
 
     return fFitResult;
 }
@@ -227,12 +227,6 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
         proposedVal = -proposedVal;
     }
 
-    if (fCurrentVal > fMaxVal)
-    {
-        fMaxVal = fCurrentVal;
-        fBestFit = fCurrentStep;
-    }
-
     long double acceptanceParam = 0;
     if (fTestStatLogged)
         acceptanceParam = exp(proposedVal - fCurrentVal + fSampler.CorrectAccParam());
@@ -249,6 +243,12 @@ bool MCMC::StepAccepted(const ParameterDict &proposedStep_)
     {
         fCurrentVal = proposedVal;
         fCurrentStep = proposedStep_;
+
+        if (fCurrentVal > fMaxVal)
+        {
+            fMaxVal = fCurrentVal;
+            fBestFit = fCurrentStep;
+        }
     }
 
     return accept;
-- 
2.43.0


From 640b2e8c3e8a121b887f9d06f701fa7c41378bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 40/66] fix: MCMC chains: memory for the parameter branches,
 initial values of the flags and pointers

---
 src/optimise/MCMC.h          | 3 ++-
 src/optimise/MCMCSamples.cpp | 2 +-
 src/optimise/MCMCSamples.h   | 1 +
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimise/MCMC.h b/src/optimise/MCMC.h
index 66139c9..6b0c2b7 100644
--- a/src/optimise/MCMC.h
+++ b/src/optimise/MCMC.h
@@ -17,7 +17,8 @@ public:
                          fCurrentVal(0.),
                          fSamples(this),
                          pTestStatistic(NULL),
-                         fSampler(s_)
+                         fSampler(s_),
+                         fSaveChain(false)
    {
    }
 
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 424b907..2db9b00 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -110,7 +110,7 @@ void MCMCSamples::InitialiseHistograms()
         fChain->Branch("Step", &fStepNumber, "Step/I");
         fChain->Branch("StepTime", &fStepTime, "StepTime/D");
 
-        parvals.reserve(paramNames.size());
+        parvals.resize(paramNames.size());
         for (std::set<std::string>::iterator it = paramNames.begin();
              it != paramNames.end(); ++it)
         {
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index eab5a53..df9d5f6 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -14,6 +14,7 @@ public:
    MCMCSamples(MCMC *p_) : fSaveFullHistogram(false), fAcceptedSteps(0), fTotalSteps(0),
                            fBurnIn(1000), fThinFactor(1), fInitialised(false), fMCMC(p_),
                            fAutoCorrelator(1000),
+                           fChain(NULL),
                            fSaveChain(false)
    {
    }
-- 
2.43.0


From 1c8476bf2eddc1f0dbe25f1d0cd36d0e7f70ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 41/66] fix: Minuit keeps the upper contour edge it was given

---
 src/optimise/Minuit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index ec22c18..424a9f1 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -107,7 +107,9 @@ void Minuit::Initialise(TestStatistic *testStat_)
     fParameterNames = GetKeys(fInitialErrors);
 
     // pass this ordering on to the called function so it knows the right order too
+    const double up = fMinuitFCN.GetUp();
     fMinuitFCN = MinuitFCN(testStat_, fParameterNames);
+    fMinuitFCN.SetUp(up);
 
     // max or min?
     if (fMaximising)
-- 
2.43.0


From 56d195a5e201dccb2d317e53fc880b736a924d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 42/66] fix: Minuit limits only the parameters that were given
 a range

---
 src/optimise/Minuit.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 424a9f1..0f80102 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -118,14 +118,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     // Create parameters and set limits
     MnUserParameters params(GetValues(fInitialValues, fParameterNames), GetValues(fInitialErrors, fParameterNames));
 
-    if (fMinima.size() && fMaxima.size())
+    int i = 0;
+    for (std::set<std::string>::iterator it = fParameterNames.begin();
+         it != fParameterNames.end(); ++it, ++i)
     {
-        int i = 0;
-        for (std::set<std::string>::iterator it = fParameterNames.begin();
-             it != fParameterNames.end(); ++it)
-        {
-            params.SetLimits(i++, fMinima[*it], fMaxima[*it]);
-        }
+        // only those with a range are limited
+        if (fMinima.count(*it))
+            params.SetLimits(i, fMinima[*it], fMaxima[*it]);
     }
 
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
-- 
2.43.0


From fefe36b1e79abbc5c496dd4c1597bb5d6a1965b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 43/66] fix: ConfigLoader converts the items of a container to
 the type it holds

---
 src/config/ConfigLoader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config/ConfigLoader.hpp b/src/config/ConfigLoader.hpp
index 1eec7f0..2256aa0 100644
--- a/src/config/ConfigLoader.hpp
+++ b/src/config/ConfigLoader.hpp
@@ -14,7 +14,7 @@ template <typename TargetType>
 void ConfigLoader::Load(const std::string &section_, const std::string &fieldName_, TargetType &loadVal_, typename enable_if<is_container<TargetType>::value, int>::type)
 {
   CheckExists(section_, fieldName_);
-  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<TargetType>());
+  ConvertContainer(ContainerTools::Split(fParser->top()(section_)[fieldName_], ','), loadVal_, Converter<typename TargetType::value_type>());
 }
 
 template <typename TargetType>
@@ -36,6 +36,6 @@ void ConvertContainer(const InContainer &incntr_, OutContainer &outcntr_, const
 {
   for (typename InContainer::const_iterator it = incntr_.begin(); it != incntr_.end(); ++it)
   {
-    outcntr_.insert(outcntr_.end(), *it);
+    outcntr_.insert(outcntr_.end(), cnvtr_(*it));
   }
 }
-- 
2.43.0


From 381044f7cdc47348f50bff9c05d8f04f986654b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:48 +0000
Subject: [PATCH 44/66] fix: ConfigLoader refuses to load before a file is open
 and keeps nothing dangling after a malformed one

---
 src/config/ConfigLoader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/ConfigLoader.cpp b/src/config/ConfigLoader.cpp
index bf956f8..4022003 100644
--- a/src/config/ConfigLoader.cpp
+++ b/src/config/ConfigLoader.cpp
@@ -20,8 +20,9 @@ void ConfigLoader::Open(const std::string &fileName_)
     {
         throw IOError("Can't find config file " + fileName_);
     }
+    INI::Parser *parser = new INI::Parser(ss); // throws if the file is malformed
     delete fParser;
-    fParser = new INI::Parser(ss);
+    fParser = parser;
 }
 
 void ConfigLoader::Close()
@@ -41,6 +42,8 @@ ConfigLoader::ListSections()
 
 void ConfigLoader::CheckExists(const std::string &section_, const std::string &field_)
 {
+    if (!fParser)
+        throw IOError("Can't find section " + section_ + ", no config file is open");
 
     if (fParser->top().sections.find(section_) == fParser->top().sections.end())
         throw ConfigSectionMissing("Can't find section " + section_);
-- 
2.43.0


From f51bad5016f5cd6c81c3f20d5cd1a15670542ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 45/66] fix: DataSetGenerator's random draws reach the last
 event and stop when all events are drawn

---
 src/data/DataSetGenerator.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 97a621f..59591a3 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -194,9 +194,9 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  if (nEvents_ > origData->GetNEntries())
+  if (nEvents_ > max + 1) // max is the last of the events that have not been drawn yet
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsNoReplacement() asked for "
-                                    << nEvents_ << " but only have " << origData->GetNEntries()
+                                    << nEvents_ << " but only have " << max + 1
                                     << "events!)");
 
   size_t cache = -1; // for swapping
@@ -211,7 +211,7 @@ void DataSetGenerator::RandomDrawsNoReplacement(size_t handleIndex_, size_t nEve
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1);
 
     cache = eventIndices[draw];
     eventIndices[draw] = eventIndices[max];
@@ -259,7 +259,7 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
       max = eventIndices.size() - 1;
 
     // draw
-    draw = Rand::Shoot(max);
+    draw = Rand::Shoot(max + 1);
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From 4c7251f1a32af5828d4581972b115e87044b8dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 46/66] fix: DataSetGenerator's sequential draws take the
 events in order, each once

---
 src/data/DataSetGenerator.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 59591a3..7dea158 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -304,11 +304,6 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
 
-  if (nEvents_ > origData->GetNEntries())
-    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
-                                    << "\n\t (asked for " << nEvents_
-                                    << " but only have " << max << " (left)");
-
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
@@ -317,13 +312,18 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
   {
     eventIndices.reserve(origData->GetNEntries());
 
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
+    // last event first: events are taken from the effective end of the array
+    for (size_t i = origData->GetNEntries(); i > 0; i--)
+      eventIndices.push_back(i - 1);
     max = eventIndices.size() - 1; // the effective end of the array
   }
 
-  size_t draw = -1; // the random draw
-  size_t cache = -1;
+  if (nEvents_ > max + 1)
+    throw NotFoundError(Formatter() << "DataSetGenerator::Not enough events!"
+                                    << "\n\t (asked for " << nEvents_
+                                    << " but only have " << max + 1 << " left)");
+
+  size_t draw = -1; // the next event
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
   size_t oneTenth = nEvents_ / 10;
@@ -335,13 +335,8 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
     if (max == static_cast<size_t>(-999))
       max = eventIndices.size() - 1;
 
-    // draw --> always take the first one
-    draw = 0;
-
-    // swap
-    cache = eventIndices[draw];
-    eventIndices[draw] = eventIndices[max];
-    eventIndices[max] = cache;
+    // draw --> always take the first one that is left
+    draw = max;
 
     // return
     if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-- 
2.43.0


From 6fcc51dc49c668482f63c7cc27aa66543aa76830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:28 +0000
Subject: [PATCH 47/66] fix: DataSetGenerator::AllRemainingEvents works before
 the first draw and counts every event it returns

---
 src/data/DataSetGenerator.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 7dea158..bf7f152 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -367,25 +367,21 @@ DataSetGenerator::AllRemainingEvents(size_t iDS_, int *eventsTaken_)
   ds->SetObservableNames(fDataSets.at(iDS_)->GetObservableNames());
   *eventsTaken_ = 0;
 
-  size_t nEvents = fMaxs.at(iDS_);
-  if (nEvents == static_cast<size_t>(-999))
-    nEvents = (fDataSets.at(iDS_)->GetNEntries()) - 1;
-
-  if (nEvents == static_cast<size_t>(-1))
-    return ds; // in case all events drawn and not replaced
-
-  const std::vector<size_t> &eventIndices = fEventIndicies[iDS_];
+  // before the first draw there are no indices and every event remains
+  const std::vector<size_t> &eventIndices = fEventIndicies.at(iDS_);
+  const bool drawn = !eventIndices.empty();
+  const size_t nEvents = drawn ? fMaxs.at(iDS_) + 1 : fDataSets.at(iDS_)->GetNEntries();
 
   size_t oneTenth = nEvents / 10;
 
-  for (size_t jEV = 0; jEV <= nEvents; jEV++)
+  for (size_t jEV = 0; jEV < nEvents; jEV++)
   {
     if (oneTenth && !(jEV % oneTenth))
       std::cout << jEV << "/" << nEvents << "\t"
                 << "(" << 10 * jEV / oneTenth
                 << "%)"
                 << std::endl;
-    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(eventIndices.at(jEV)));
+    ds->AddEntry(fDataSets.at(iDS_)->GetEntry(drawn ? eventIndices.at(jEV) : jEV));
   }
 
   *eventsTaken_ = nEvents;
-- 
2.43.0


From 7cb62c6ca4dcc33bc25aed8736576ad5c403031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 48/66] fix: MCMC refuses limits and starts whose names are not
 the statistic's parameters

---
 src/optimise/MCMC.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index 76c2850..a1ddb64 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -141,7 +141,8 @@ MCMC::Optimise(TestStatistic *testStat_)
 
     // Check initialisation
     size_t nParams = testStat_->GetParameterCount();
-    if ((fInitialTrial.size() != nParams && fInitialTrial.size()) || fMaxima.size() != nParams || fMinima.size() != nParams)
+    const std::set<std::string> parameterNames = testStat_->GetParameterNames();
+    if ((fInitialTrial.size() && ContainerTools::GetKeys(fInitialTrial) != parameterNames) || ContainerTools::GetKeys(fMaxima) != parameterNames || ContainerTools::GetKeys(fMinima) != parameterNames)
         throw LogicError(Formatter()
                          << "MCMC initialisation error - Got "
                          << fMinima.size() << " Minima, "
@@ -153,7 +154,6 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << "\n If initial trial is specified it should be one per fit parameter");
 
     // 1. Choose a random starting point or the user defined one
-    std::set<std::string> parameterNames = testStat_->GetParameterNames();
     if (fInitialTrial.size())
         fCurrentStep = fInitialTrial;
     else
-- 
2.43.0


From f8ec6ae4a6d1f8be70e8dac81efb4782fe2871f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 49/66] fix: a CutCollection assigned to itself keeps its cuts

---
 src/cut/CutCollection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cut/CutCollection.cpp b/src/cut/CutCollection.cpp
index 2853c10..f631ebf 100644
--- a/src/cut/CutCollection.cpp
+++ b/src/cut/CutCollection.cpp
@@ -48,6 +48,9 @@ CutCollection::CutCollection(const CutCollection &other_)
 CutCollection &
 CutCollection::operator=(const CutCollection &other_)
 {
+  if (this == &other_)
+    return *this;
+
   for (size_t i = 0; i < fCuts.size(); i++)
     delete fCuts.at(i);
 
-- 
2.43.0


From 570c3cbe2ff52d4910b975cb2cacae822beaf7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 50/66] fix: IO: names of observables and axes of more than 64
 characters in total were cut off in .h5 files

---
 src/data/IO.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index a850d95..92170f8 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -4,6 +4,7 @@
 #include <H5Cpp.h>
 #include <iostream>
 #include <cassert>
+#include <algorithm>
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <Formatter.hpp>
@@ -15,6 +16,13 @@
 
 const char IO::fDelimiter = ':';
 
+// string attributes have a fixed size: 64 chars, or more if the string and its end don't fit
+static size_t
+AttributeSize(const std::string &str_)
+{
+    return std::max(size_t(64), str_.size() + 1);
+}
+
 std::string
 IO::GetExt(const std::string &path_)
 {
@@ -100,11 +108,11 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    //  64 chars max in str to save space
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    const std::string flatNames = FlattenStringVector(observableNames);
+    H5::StrType strType(H5::PredType::C_S1, AttributeSize(flatNames));
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
-    obsListAtt.write(strType, FlattenStringVector(observableNames));
+    obsListAtt.write(strType, flatNames);
 
     H5::Attribute countAtt = theData.createAttribute("n_observables",
                                                      H5::PredType::NATIVE_INT,
@@ -355,14 +363,17 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     }
 
     // save axes names and latex names
-    H5::StrType strType(H5::PredType::C_S1, 64);
+    const std::string flatNames = FlattenStringVector(axisNames);
+    const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+    H5::StrType strType(H5::PredType::C_S1, AttributeSize(flatNames));
+    H5::StrType latexStrType(H5::PredType::C_S1, AttributeSize(flatLatexNames));
     H5::DataSpace attSpace(H5S_SCALAR);
 
     H5::Attribute nameListAtt = theData.createAttribute("axis_names", strType, attSpace);
-    nameListAtt.write(strType, FlattenStringVector(axisNames));
+    nameListAtt.write(strType, flatNames);
 
-    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", strType, attSpace);
-    latexNameListAtt.write(strType, FlattenStringVector(axisLatexNames));
+    H5::Attribute latexNameListAtt = theData.createAttribute("axis_latex_names", latexStrType, attSpace);
+    latexNameListAtt.write(latexStrType, flatLatexNames);
 
     // save nbins, ndims
     H5::Attribute dimAtt = theData.createAttribute("n_dims",
-- 
2.43.0


From ed25a5eb2635deb7b62c4fef2bc11d7744390f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 51/66] fix: IO: refuse to save names that contain the
 delimiter, they were split on loading

---
 src/data/IO.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 92170f8..b816da3 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -55,12 +55,7 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
         return;
     }
 
-    std::string branchString = dataSet_.GetObservableNames().at(0);
-    for (size_t i = 1; i < dataSet_.GetObservableNames().size(); i++)
-    {
-        branchString += ":";
-        branchString += dataSet_.GetObservableNames().at(i);
-    }
+    std::string branchString = FlattenStringVector(dataSet_.GetObservableNames());
 
     TFile f(filename_.c_str(), "RECREATE");
     TNtuple nt(treename_.c_str(), "", branchString.c_str());
@@ -98,6 +93,8 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
+    const std::string flatNames = FlattenStringVector(observableNames);
+
     // Set up files
     H5::H5File file(filename_, H5F_ACC_TRUNC);
     // Set up the data set
@@ -108,7 +105,6 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     H5::DataSet theData(file.createDataSet("observations", H5::PredType::NATIVE_DOUBLE, dataSpace));
 
     //  Set up the attributes - the number of obs per event and the names of the observables
-    const std::string flatNames = FlattenStringVector(observableNames);
     H5::StrType strType(H5::PredType::C_S1, AttributeSize(flatNames));
     H5::DataSpace attSpace(H5S_SCALAR);
     H5::Attribute obsListAtt = theData.createAttribute("observed_quantities", strType, attSpace);
@@ -278,6 +274,10 @@ IO::FlattenStringVector(const std::vector<std::string> &vec_)
     if (!vec_.size())
         return flatString;
 
+    for (size_t i = 0; i < vec_.size(); i++)
+        if (vec_.at(i).find(fDelimiter) != std::string::npos)
+            throw IOError("IO::Can't save the name \"" + vec_.at(i) + "\", it contains the delimiter " + fDelimiter);
+
     flatString += vec_.at(0);
     for (size_t i = 1; i < vec_.size(); i++)
         flatString += fDelimiter + vec_.at(i);
@@ -346,13 +346,6 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
     hsize_t nBins[] = {histo_.GetNBins()};
     std::vector<double> contents = histo_.GetBinContents();
 
-    // create the file
-    H5::H5File file(fileName_, H5F_ACC_TRUNC);
-
-    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
-    H5::DataSpace dataSpace(1, nBins);
-    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
-
     // grab axis names
     std::vector<std::string> axisNames;
     std::vector<std::string> axisLatexNames;
@@ -361,10 +354,17 @@ void IO::SaveHistogramH5(const Histogram &histo_, const std::string &fileName_)
         axisNames.push_back(histo_.GetAxes().GetAxis(i).GetName());
         axisLatexNames.push_back(histo_.GetAxes().GetAxis(i).GetLatexName());
     }
-
-    // save axes names and latex names
     const std::string flatNames = FlattenStringVector(axisNames);
     const std::string flatLatexNames = FlattenStringVector(axisLatexNames);
+
+    // create the file
+    H5::H5File file(fileName_, H5F_ACC_TRUNC);
+
+    // Save nDims, nBins, names and latex names as attributes. Main data is the list of bin contents
+    H5::DataSpace dataSpace(1, nBins);
+    H5::DataSet theData(file.createDataSet("histogram", H5::PredType::NATIVE_DOUBLE, dataSpace));
+
+    // save axes names and latex names
     H5::StrType strType(H5::PredType::C_S1, AttributeSize(flatNames));
     H5::StrType latexStrType(H5::PredType::C_S1, AttributeSize(flatLatexNames));
     H5::DataSpace attSpace(H5S_SCALAR);
-- 
2.43.0


From dc92d04e7e460499caf637da40bd08a4d481058a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 52/66] fix: IO: saving a data set with more names than
 observables to ROOT read beyond its events

---
 src/data/IO.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index b816da3..685eaf6 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -55,6 +55,9 @@ void IO::SaveDataSetROOT(const DataSet &dataSet_, const std::string &filename_,
         return;
     }
 
+    if (dataSet_.GetNEntries() && dataSet_.GetObservableNames().size() != dataSet_.GetNObservables())
+        throw IOError("SaveDataSet::Require one name and one name only for each observable");
+
     std::string branchString = FlattenStringVector(dataSet_.GetObservableNames());
 
     TFile f(filename_.c_str(), "RECREATE");
-- 
2.43.0


From 0247e236883606bda6481edb26cab7ce6af3fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 53/66] fix: IO: saving an empty data set wiped the file and
 then failed with an index out of range

---
 src/data/IO.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 685eaf6..4ceb632 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -96,6 +96,9 @@ void IO::SaveDataSetH5(const DataSet &dataSet_, const std::string &filename_)
     if (observableNames.size() != nObs)
         throw IOError("SaveDataSet::Require one name and one name only for each observable");
 
+    if (!nEntries)
+        throw IOError("SaveDataSet::Tried to save a data set with nothing in it");
+
     const std::string flatNames = FlattenStringVector(observableNames);
 
     // Set up files
-- 
2.43.0


From 0555a8386d8364be4034a2db29ec70b1789ecb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 54/66] fix: IO: loading a file that holds something else threw
 an exception of the HDF5 library

---
 src/data/IO.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/data/IO.cpp b/src/data/IO.cpp
index 4ceb632..832ac89 100644
--- a/src/data/IO.cpp
+++ b/src/data/IO.cpp
@@ -182,7 +182,15 @@ IO::LoadDataSet(const std::string &filename_)
         throw IOError("Failed to open data set file : " + filename_ + "\n check the path");
     }
 
-    H5::DataSet dataSet = file.openDataSet("observations");
+    H5::DataSet dataSet;
+    try
+    {
+        dataSet = file.openDataSet("observations");
+    }
+    catch (const H5::Exception &)
+    {
+        throw IOError("No data set in file : " + filename_);
+    }
 
     // read meta information
     unsigned nObs = 0;
@@ -433,7 +441,15 @@ IO::LoadHistogram(const std::string &fileName_)
         throw IOError("Failed to open histogram file : " + fileName_ + "\n check the path");
     }
 
-    H5::DataSet dataSet = file.openDataSet("histogram");
+    H5::DataSet dataSet;
+    try
+    {
+        dataSet = file.openDataSet("histogram");
+    }
+    catch (const H5::Exception &)
+    {
+        throw IOError("No histogram in file : " + fileName_);
+    }
 
     // read the attributes
     int nDims;
-- 
2.43.0


From 11418e5de55a37c69420a5e382da97964645e5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:16 +0000
Subject: [PATCH 55/66] fix: LazyOXSXDataSet: copies were not closed when
 another one is loaded, assigning lost the loaded data

---
 src/data/LazyOXSXDataSet.cpp | 5 +++--
 src/data/LazyOXSXDataSet.h   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/data/LazyOXSXDataSet.cpp b/src/data/LazyOXSXDataSet.cpp
index 7e976fb..1688f89 100644
--- a/src/data/LazyOXSXDataSet.cpp
+++ b/src/data/LazyOXSXDataSet.cpp
@@ -12,13 +12,14 @@ LazyOXSXDataSet::LazyOXSXDataSet(const LazyOXSXDataSet &other_)
 {
   fFileName = other_.fFileName;
   fDataSet = NULL;
+  Register();
 }
 
-LazyOXSXDataSet
+LazyOXSXDataSet &
 LazyOXSXDataSet::operator=(const LazyOXSXDataSet &other_)
 {
+  Close();
   fFileName = other_.fFileName;
-  fDataSet = NULL;
   return *this;
 }
 
diff --git a/src/data/LazyOXSXDataSet.h b/src/data/LazyOXSXDataSet.h
index 7918928..1aa54b3 100644
--- a/src/data/LazyOXSXDataSet.h
+++ b/src/data/LazyOXSXDataSet.h
@@ -16,7 +16,7 @@ public:
     LazyOXSXDataSet(const std::string &filename_) : fFileName(filename_), fDataSet(NULL) { Register(); }
     ~LazyOXSXDataSet(); // frees fData
     LazyOXSXDataSet(const LazyOXSXDataSet &);
-    LazyOXSXDataSet operator=(const LazyOXSXDataSet &);
+    LazyOXSXDataSet &operator=(const LazyOXSXDataSet &);
 
     // Memory management
     void Load() const;
-- 
2.43.0


From b0ebfd0693dd210d581a446f16989935ebe63638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:47 +0000
Subject: [PATCH 56/66] fix: DistTools::ToHist: bins of different widths became
 bins of the same width

---
 src/dist/DistTools.cpp | 57 ++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 36 deletions(-)

diff --git a/src/dist/DistTools.cpp b/src/dist/DistTools.cpp
index 58dd50e..9d23bc7 100644
--- a/src/dist/DistTools.cpp
+++ b/src/dist/DistTools.cpp
@@ -4,6 +4,7 @@
 #include <Exceptions.h>
 #include <Histogram.h>
 #include <BinnedED.h>
+#include <TAxis.h>
 #include <TH1D.h>
 #include <TH2D.h>
 #include <TH3D.h>
@@ -171,16 +172,25 @@ TH3D DistTools::ToTH3D(const BinnedED &pdf_)
     return rtHist;
 }
 
+// all the edges of a ROOT axis: its bins may be of different widths
+static BinAxis
+ToBinAxis(const TAxis &axis_)
+{
+    std::vector<double> lows;
+    std::vector<double> highs;
+    for (int i = 1; i < axis_.GetNbins() + 1; i++)
+    {
+        lows.push_back(axis_.GetBinLowEdge(i));
+        highs.push_back(axis_.GetBinUpEdge(i));
+    }
+    return BinAxis(axis_.GetTitle(), lows, highs);
+}
+
 Histogram
 DistTools::ToHist(const TH1D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -195,19 +205,9 @@ Histogram
 DistTools::ToHist(const TH2D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
@@ -229,26 +229,11 @@ Histogram
 DistTools::ToHist(const TH3D &h_)
 {
     AxisCollection axes;
-    axes.AddAxis(BinAxis(h_.GetXaxis()->GetTitle(),
-                         h_.GetXaxis()->GetBinLowEdge(1),
-                         h_.GetXaxis()->GetBinUpEdge(h_.GetNbinsX()),
-                         h_.GetNbinsX())
-
-    );
-
-    axes.AddAxis(BinAxis(h_.GetYaxis()->GetTitle(),
-                         h_.GetYaxis()->GetBinLowEdge(1),
-                         h_.GetYaxis()->GetBinUpEdge(h_.GetNbinsY()),
-                         h_.GetNbinsY())
-
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetXaxis()));
 
-    axes.AddAxis(BinAxis(h_.GetZaxis()->GetTitle(),
-                         h_.GetZaxis()->GetBinLowEdge(1),
-                         h_.GetZaxis()->GetBinUpEdge(h_.GetNbinsZ()),
-                         h_.GetNbinsZ())
+    axes.AddAxis(ToBinAxis(*h_.GetYaxis()));
 
-    );
+    axes.AddAxis(ToBinAxis(*h_.GetZaxis()));
 
     Histogram hist(axes);
     for (int i = 1; i < h_.GetNbinsX() + 1; i++)
-- 
2.43.0


From cdf35971233039f8f93068fc830880e4a6759fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:22 +0000
Subject: [PATCH 57/66] fix: copying a Minuit no longer deletes its minimiser
 twice

---
 src/optimise/Minuit.cpp | 14 ++++----------
 src/optimise/Minuit.h   |  5 ++---
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/optimise/Minuit.cpp b/src/optimise/Minuit.cpp
index 0f80102..b712aa4 100644
--- a/src/optimise/Minuit.cpp
+++ b/src/optimise/Minuit.cpp
@@ -21,11 +21,6 @@ using ROOT::Minuit2::MnUserParameters;
 
 // FIXME:: CHeck the length of the vectors as you set them match fNparams
 
-Minuit::~Minuit()
-{
-    delete fMinimiser;
-}
-
 void Minuit::SetMethod(const std::string &method_)
 {
     fMethod = method_;
@@ -70,8 +65,7 @@ Minuit::GetMinima() const { return fMinima; }
 
 void Minuit::Initialise(TestStatistic *testStat_)
 {
-    delete fMinimiser;
-    fMinimiser = NULL;
+    fMinimiser.reset();
 
     // check everything makes sense
     if (!HasSameKeys(fMinima, fMaxima))
@@ -130,13 +124,13 @@ void Minuit::Initialise(TestStatistic *testStat_)
     ROOT::Minuit2::MnStrategy strategy(fStrategy);
 
     if ("Migrad" == fMethod)
-        fMinimiser = new MnMigrad(fMinuitFCN, params, strategy);
+        fMinimiser = std::make_shared<MnMigrad>(fMinuitFCN, params, strategy);
 
     else if ("Minimize" == fMethod)
-        fMinimiser = new MnMinimize(fMinuitFCN, params, strategy);
+        fMinimiser = std::make_shared<MnMinimize>(fMinuitFCN, params, strategy);
 
     else if ("Simplex" == fMethod)
-        fMinimiser = new MnSimplex(fMinuitFCN, params, strategy);
+        fMinimiser = std::make_shared<MnSimplex>(fMinuitFCN, params, strategy);
     else
         throw ValueError(Formatter() << "Minuit::Unrecognised method - "
                                      << fMethod);
diff --git a/src/optimise/Minuit.h b/src/optimise/Minuit.h
index d406361..88d72d9 100644
--- a/src/optimise/Minuit.h
+++ b/src/optimise/Minuit.h
@@ -13,6 +13,7 @@
 #include <FitResult.h>
 #include <DenseMatrix.h>
 #include <set>
+#include <memory>
 
 class TestStatistic;
 
@@ -23,9 +24,7 @@ public:
               fTolerance(0.1),
               fStrategy(2),
               fMethod("Migrad"),
-              fMinimiser(NULL),
               fMaximising(false) {}
-   ~Minuit();
 
    virtual const FitResult &Optimise(TestStatistic *);
 
@@ -76,7 +75,7 @@ private:
    int fStrategy;
 
    std::string fMethod;
-   ROOT::Minuit2::MnApplication *fMinimiser;
+   std::shared_ptr<ROOT::Minuit2::MnApplication> fMinimiser; // remade by every fit
 
    std::set<std::string> fParameterNames;
    // the order they are held in vectors for ROOT
-- 
2.43.0


From d619358d4ee997c12f8cc5d7d4ecd3ec1ab4e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 58/66] fix: a counting report gives each of two equally named
 backgrounds its own error

---
 src/count/CountingResult.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/count/CountingResult.cpp b/src/count/CountingResult.cpp
index c9b1a75..dee7062 100644
--- a/src/count/CountingResult.cpp
+++ b/src/count/CountingResult.cpp
@@ -147,26 +147,23 @@ CountingResult::AsString()
                  << std::setw(10)
                  << "Counts";
 
-    std::vector<std::pair<std::string, double>> sortedRatesByName;
-    std::map<std::string, double> sortedErrorsByName;
+    // by index: two backgrounds may have the same name
+    std::vector<std::pair<size_t, double>> sortedRates;
     for (size_t i = 0; i < fExpectedRates.size(); i++)
-    {
-        sortedRatesByName.push_back(std::pair<std::string, double>(fBackgroundNames.at(i), fExpectedRates.at(i)));
-        sortedErrorsByName[fBackgroundNames.at(i)] = fExpectedRateErrors.at(i);
-    }
-    std::sort(sortedRatesByName.begin(), sortedRatesByName.end(), PairSortBySecond<std::string, double, std::greater<double>>());
+        sortedRates.push_back(std::pair<size_t, double>(i, fExpectedRates.at(i)));
+    std::sort(sortedRates.begin(), sortedRates.end(), PairSortBySecond<size_t, double, std::greater<double>>());
 
-    for (size_t i = 0; i < sortedRatesByName.size(); i++)
+    for (size_t i = 0; i < sortedRates.size(); i++)
     {
         resultString << "\n"
                      << std::setw(25)
                      << std::left
-                     << sortedRatesByName.at(i).first
+                     << fBackgroundNames.at(sortedRates.at(i).first)
                      << std::setw(10)
                      << std::left
-                     << sortedRatesByName.at(i).second
+                     << sortedRates.at(i).second
                      << " +- "
-                     << sortedErrorsByName[sortedRatesByName.at(i).first];
+                     << fExpectedRateErrors.at(sortedRates.at(i).first);
     }
 
     resultString << "\n"
-- 
2.43.0


From 58de5b6e44d2a9d23a8cabb264c4424108faabe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:34 +0000
Subject: [PATCH 59/66] fix: a cut log that cannot be written is reported, as
 meant

---
 src/cut/CutLog.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cut/CutLog.cpp b/src/cut/CutLog.cpp
index 514ea05..e6dddf3 100644
--- a/src/cut/CutLog.cpp
+++ b/src/cut/CutLog.cpp
@@ -120,11 +120,11 @@ void CutLog::SaveAs(const std::string &title_,
                     const std::string &path_)
 {
     std::ofstream fs;
-    if (fs.is_open())
+    fs.open(path_.c_str());
+    if (!fs.is_open())
     {
         throw IOError("CutLog::SaveAs - couldn't open file" + path_);
     }
-    fs.open(path_.c_str());
     fs << "-----------------------------------"
        << "-----------------------------------"
        << std::endl
-- 
2.43.0


From c5e3b60fab11977d06a3f4964c55454e53923fe2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 60/66] fix: DataSetGenerator: bootstrap draws from all events,
 also after draws without replacement

---
 src/data/DataSetGenerator.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index bf7f152..4a68944 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -232,21 +232,11 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
                                                   OXSXDataSet &outData_)
 {
 
-  std::vector<size_t> &eventIndices = fEventIndicies[handleIndex_];
-  size_t &max = fMaxs[handleIndex_];
   DataSet *origData = fDataSets.at(handleIndex_);
   if (!(origData->GetNEntries()))
     throw NotFoundError(Formatter() << "DataSetGenerator::RandomDrawsWithReplacement() asked for "
                                     << nEvents_ << " but there are no events!");
 
-  if (!eventIndices.size())
-  {
-    eventIndices.reserve(origData->GetNEntries());
-    for (size_t i = 0; i < origData->GetNEntries(); i++)
-      eventIndices.push_back(i);
-    max = eventIndices.size() - 1; // the effective end of the array
-  }
-
   size_t draw = -1; // the random draw
 
   outData_.Reserve(outData_.GetNEntries() + nEvents_);
@@ -255,15 +245,12 @@ void DataSetGenerator::RandomDrawsWithReplacement(size_t handleIndex_, size_t nE
     if (!(i % 10000))
       std::cout << i << "/" << nEvents_ << std::endl;
 
-    if (max == static_cast<size_t>(-999))
-      max = eventIndices.size() - 1;
-
-    // draw
-    draw = Rand::Shoot(max + 1);
+    // draw from all events, whatever was drawn without replacement before
+    draw = Rand::Shoot(origData->GetNEntries());
 
     // return
-    if (fCuts.PassesCuts(origData->GetEntry(eventIndices[draw])))
-      outData_.AddEntry(origData->GetEntry(eventIndices[draw]));
+    if (fCuts.PassesCuts(origData->GetEntry(draw)))
+      outData_.AddEntry(origData->GetEntry(draw));
   }
 
   return;
-- 
2.43.0


From 119ce39eb08f653061178f63155ad548c3adecff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 61/66] fix: DataSetGenerator: sequential draws keep the order
 of the data set also after random draws

---
 src/data/DataSetGenerator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/DataSetGenerator.cpp b/src/data/DataSetGenerator.cpp
index 4a68944..02bb271 100644
--- a/src/data/DataSetGenerator.cpp
+++ b/src/data/DataSetGenerator.cpp
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <math.h>
 #include <algorithm>
+#include <functional>
 #include <iostream>
 #include <numeric>
 
@@ -310,6 +311,9 @@ void DataSetGenerator::SequentialDrawsNoReplacement(size_t handleIndex_, size_t
                                     << "\n\t (asked for " << nEvents_
                                     << " but only have " << max + 1 << " left)");
 
+  // events drawn at random before have left the others in any order
+  std::sort(eventIndices.begin(), eventIndices.begin() + (max + 1), std::greater<size_t>());
+
   size_t draw = -1; // the next event
   // data_.Reserve(data_.GetNEntries() + nEvents_);
 
-- 
2.43.0


From 3c1cf7936110f71c6ddb22096377d9feeec6244f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 62/66] fix: BinnedNLLH: buffers set after an evaluation apply
 to the data as well

---
 src/teststat/BinnedNLLH.cpp | 11 +++++++++++
 src/teststat/BinnedNLLH.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 77f0000..fc08e4f 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -22,6 +22,7 @@ BinnedNLLH::Evaluate()
     if (!fAlreadyShrunk)
     {
         fPdfShrinker.SetBinMap(fDataDist);
+        fFullDataDist = fDataDist;
         fDataDist = fPdfShrinker.ShrinkDist(fDataDist);
         fAlreadyShrunk = true;
     }
@@ -304,6 +305,7 @@ void BinnedNLLH::SetBarlowBeeston(const bool useBarlowBeeston_)
 void BinnedNLLH::SetBuffer(const std::string &dim_, unsigned lower_, unsigned upper_)
 {
     fPdfShrinker.SetBuffer(dim_, lower_, upper_);
+    UndoShrink();
 }
 
 std::pair<unsigned, unsigned>
@@ -315,6 +317,15 @@ BinnedNLLH::GetBuffer(const std::string &dim_) const
 void BinnedNLLH::SetBufferAsOverflow(bool b_)
 {
     fPdfShrinker.SetUsingOverflows(b_);
+    UndoShrink();
+}
+
+void BinnedNLLH::UndoShrink()
+{
+    // the data have to be shrunk with the new buffers, like the pdfs
+    if (fAlreadyShrunk)
+        fDataDist = fFullDataDist;
+    fAlreadyShrunk = false;
 }
 
 bool BinnedNLLH::GetBufferAsOverflow() const
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index c50f5b7..8ef7425 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -50,7 +50,10 @@ private:
    BinnedEDManager fPdfManager;
    BinnedEDShrinker fPdfShrinker;
 
+   void UndoShrink();
+
    BinnedED fDataDist;
+   BinnedED fFullDataDist; // before shrinking
    bool fCalculatedDataDist;
    bool fAlreadyShrunk;
 
-- 
2.43.0


From 5df0a0147c742d4b0ca6e37e5e224b3130def860 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:18 +0000
Subject: [PATCH 63/66] fix: BinnedNLLH: cuts and binnings set after an
 evaluation apply to the data set as well

---
 src/teststat/BinnedNLLH.cpp    | 2 ++
 src/teststat/TestStatistic.cpp | 8 ++++++++
 src/teststat/TestStatistic.h   | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index fc08e4f..479e85a 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -287,6 +287,7 @@ void BinnedNLLH::AddPdf(const BinnedED &pdf_,
 void BinnedNLLH::SetDataDist(const BinnedED &binnedPdf_)
 {
     fDataDist = binnedPdf_;
+    SetDataSet(NULL); // the data are this distribution now
     SetCalculatedDataDist(true);
     fAlreadyShrunk = false;
 }
@@ -390,4 +391,5 @@ BinnedNLLH::GetParameterNames() const
 void BinnedNLLH::SetPdfManager(const BinnedEDManager &man_)
 {
     fPdfManager = man_;
+    RebinDataSet();
 }
diff --git a/src/teststat/TestStatistic.cpp b/src/teststat/TestStatistic.cpp
index a34f90b..20b787c 100644
--- a/src/teststat/TestStatistic.cpp
+++ b/src/teststat/TestStatistic.cpp
@@ -130,11 +130,19 @@ bool TestStatistic::GetCalculatedDataDist()
 void TestStatistic::AddCut(const Cut &cut_)
 {
     fCuts.AddCut(cut_);
+    RebinDataSet();
 }
 
 void TestStatistic::SetCuts(const CutCollection &cuts_)
 {
     fCuts = cuts_;
+    RebinDataSet();
+}
+
+void TestStatistic::RebinDataSet()
+{
+    if (fDataSet)
+        fCalculatedDataDist = false;
 }
 
 CutCollection TestStatistic::GetCuts()
diff --git a/src/teststat/TestStatistic.h b/src/teststat/TestStatistic.h
index cd8cd9a..446fde8 100644
--- a/src/teststat/TestStatistic.h
+++ b/src/teststat/TestStatistic.h
@@ -77,6 +77,10 @@ public:
     // Set up all the components for a fit
     virtual void RegisterFitComponents() = 0;
 
+protected:
+    // if the data are a data set, bin it anew for the next evaluation
+    void RebinDataSet();
+
 private:
     SystematicManager fSystematicManager;
     ConstraintManager fConstraintManager;
-- 
2.43.0


From 0a242eac72b28dbd704d02a66e61392e2eff7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 64/66] fix: MCMC: a further Optimise starts a new chain
 instead of adding to the samples of the last

---
 src/optimise/MCMC.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index a1ddb64..b57dfec 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -153,6 +153,10 @@ MCMC::Optimise(TestStatistic *testStat_)
                          << ContainerTools::ToString(testStat_->GetParameterNames())
                          << "\n If initial trial is specified it should be one per fit parameter");
 
+    // start afresh: nothing of an earlier chain is left
+    fSamples.Clear();
+    fCurrentStep.clear();
+
     // 1. Choose a random starting point or the user defined one
     if (fInitialTrial.size())
         fCurrentStep = fInitialTrial;
-- 
2.43.0


From 20d4f4ea9b77aacb8882d88fdaef476387a3e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:18 +0000
Subject: [PATCH 65/66] fix: a copied MCMC makes its histograms from its own
 settings

---
 src/optimise/MCMC.cpp        | 1 +
 src/optimise/MCMCSamples.cpp | 5 +++++
 src/optimise/MCMCSamples.h   | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/optimise/MCMC.cpp b/src/optimise/MCMC.cpp
index b57dfec..d3c22ed 100644
--- a/src/optimise/MCMC.cpp
+++ b/src/optimise/MCMC.cpp
@@ -155,6 +155,7 @@ MCMC::Optimise(TestStatistic *testStat_)
 
     // start afresh: nothing of an earlier chain is left
     fSamples.Clear();
+    fSamples.SetMCMC(this);
     fCurrentStep.clear();
 
     // 1. Choose a random starting point or the user defined one
diff --git a/src/optimise/MCMCSamples.cpp b/src/optimise/MCMCSamples.cpp
index 2db9b00..253dadc 100644
--- a/src/optimise/MCMCSamples.cpp
+++ b/src/optimise/MCMCSamples.cpp
@@ -4,6 +4,11 @@
 #include <MCMC.h>
 #include <ContainerTools.hpp>
 
+void MCMCSamples::SetMCMC(MCMC *p_)
+{
+    fMCMC = p_;
+}
+
 void MCMCSamples::SetSaveFullHistogram(bool b_)
 {
     fSaveFullHistogram = b_;
diff --git a/src/optimise/MCMCSamples.h b/src/optimise/MCMCSamples.h
index df9d5f6..b07d9e3 100644
--- a/src/optimise/MCMCSamples.h
+++ b/src/optimise/MCMCSamples.h
@@ -19,6 +19,9 @@ public:
    {
    }
 
+   // the chain to ask for parameter names and ranges
+   void SetMCMC(MCMC *);
+
    int GetBurnIn() const;
    void SetBurnIn(int);
 
-- 
2.43.0


From 96dcb8bceb6d9b01ec470fab7183e37ad7bf7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:21 +0000
Subject: [PATCH 66/66] fix: BinnedNLLH: a copy fits its own normalisations,
 not those of the original

---
 src/core/ComponentManager.cpp |  7 +++++++
 src/core/ComponentManager.h   |  2 ++
 src/teststat/BinnedNLLH.cpp   | 22 ++++++++++++++++++++++
 src/teststat/BinnedNLLH.h     |  4 +++-
 4 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/core/ComponentManager.cpp b/src/core/ComponentManager.cpp
index e17f5bc..62e8bac 100644
--- a/src/core/ComponentManager.cpp
+++ b/src/core/ComponentManager.cpp
@@ -13,6 +13,13 @@ void ComponentManager::AddComponent(FitComponent *componentPtr_)
     fComponentCount++;
 }
 
+void ComponentManager::ReplaceComponent(const FitComponent *old_, FitComponent *new_)
+{
+    for (size_t i = 0; i < fComponents.size(); i++)
+        if (fComponents.at(i) == old_)
+            fComponents[i] = new_;
+}
+
 void ComponentManager::SetParameters(const ParameterDict &params_)
 {
     if (!params_.size())
diff --git a/src/core/ComponentManager.h b/src/core/ComponentManager.h
index 8f5f018..d724726 100644
--- a/src/core/ComponentManager.h
+++ b/src/core/ComponentManager.h
@@ -10,6 +10,8 @@ class ComponentManager
 public:
    ComponentManager() : fComponentCount(0) {}
    void AddComponent(FitComponent *);
+   // the second takes the place of the first, if that is there
+   void ReplaceComponent(const FitComponent *, FitComponent *);
 
    void SetParameters(const ParameterDict &);
    std::set<std::string> GetParameterNames() const;
diff --git a/src/teststat/BinnedNLLH.cpp b/src/teststat/BinnedNLLH.cpp
index 479e85a..3384924 100644
--- a/src/teststat/BinnedNLLH.cpp
+++ b/src/teststat/BinnedNLLH.cpp
@@ -9,6 +9,28 @@
 #include <iostream>
 #include <Formatter.hpp>
 
+BinnedNLLH::BinnedNLLH(const BinnedNLLH &other_) : BinnedNLLH()
+{
+    *this = other_;
+}
+
+BinnedNLLH &
+BinnedNLLH::operator=(const BinnedNLLH &other_)
+{
+    TestStatistic::operator=(other_);
+    fPdfManager = other_.fPdfManager;
+    fPdfShrinker = other_.fPdfShrinker;
+    fDataDist = other_.fDataDist;
+    fFullDataDist = other_.fFullDataDist;
+    fCalculatedDataDist = other_.fCalculatedDataDist;
+    fAlreadyShrunk = other_.fAlreadyShrunk;
+    fGenRates = other_.fGenRates;
+    fUseBarlowBeeston = other_.fUseBarlowBeeston;
+    // the normalisations that are fitted are those of this statistic
+    GetComponentManager().ReplaceComponent(&other_.fPdfManager, &fPdfManager);
+    return *this;
+}
+
 double
 BinnedNLLH::Evaluate()
 {
diff --git a/src/teststat/BinnedNLLH.h b/src/teststat/BinnedNLLH.h
index 8ef7425..75f5447 100644
--- a/src/teststat/BinnedNLLH.h
+++ b/src/teststat/BinnedNLLH.h
@@ -10,7 +10,9 @@ class DataSet;
 class BinnedNLLH : public TestStatistic
 {
 public:
-   BinnedNLLH() : fAlreadyShrunk(false) {}
+   BinnedNLLH() : fCalculatedDataDist(false), fAlreadyShrunk(false) {}
+   BinnedNLLH(const BinnedNLLH &);
+   BinnedNLLH &operator=(const BinnedNLLH &);
 
    void SetPdfManager(const BinnedEDManager &);
 
-- 
2.43.0

