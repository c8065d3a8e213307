I, H, C = "inputs", "histories", "configurations"

prop("C01", "Every value lands in exactly one bin and bin numbers are a bijection",
     "For any valid axis, every real value belongs to exactly one bin: the one whose half-open interval contains it, or the first/last bin when it lies below/above the range. "
     "For any product of axes, global bin numbers and tuples of per-axis indices correspond one to one, edges/centres/widths of a global bin are those of its per-axis bins, and axes are found by their unique name. "
     "Invalid edges, repeated axis names, wrong dimensions and bin numbers outside the binning are refused and change nothing.",
     [I, C], "every axis (equal or arbitrary edges), every product of axes, every value, every bin number or tuple, valid or not",
     "The unit tests use one 3x3 uniform collection and one 4x4 binning; the partition and the bijection quantify over all binnings, boundary values and out-of-range numbers.",
     ["src/histogram/BinAxis.cpp", "src/histogram/AxisCollection.cpp"],
     [("BinAxis::FindBin", "src/histogram/BinAxis.cpp"), ("AxisCollection::FlattenIndices / UnpackIndices / FindBin", "src/histogram/AxisCollection.cpp")],
     state=[("edges", "low/high edges per axis", "BinAxis"), ("axes", "ordered, uniquely named", "AxisCollection")])

prop("C02", "Histogram arithmetic is exactly cell by cell, and refused calls change nothing",
     "Filling adds the weight to exactly the bin containing the point; scaling, normalising, emptying, padding, adding, multiplying and dividing change each bin exactly by that arithmetic and nothing else, and the other operand is never touched. "
     "Integrals, range integrals, means and variances are the corresponding sums over the current contents; the bin of a point and the indices, edges and centre of a bin are those of its axes, whichever way they are asked for. "
     "Operations on a different binning, dimension or bin number outside the binning are refused and leave every object as it was, and copies are independent.",
     [I, H, C], "every binning of any dimension, every history of operations on any number of histograms and binned distributions",
     "Tests check single operations on small fixed histograms; the guarantee is about every bin after any interleaving of operations and refused operations on several objects.",
     ["src/histogram/Histogram.cpp", "src/dist/BinnedED.cpp"],
     [("Histogram arithmetic", "src/histogram/Histogram.cpp"), ("BinnedED forwarding", "src/dist/BinnedED.cpp")],
     state=[("bin contents", "one number per global bin", "Histogram")])

prop("C03", "Projections and slices conserve content and keep every cell in its place",
     "Marginalising onto any sequence of axes gives each target cell the sum of all source cells projecting to it, in the axis order asked for, conserving the total. "
     "Slicing at fixed bins gives each free cell the content of the source cell with those indices; all visualisable projections, all one-dimensional slices, and families of low-dimensional histograms filled from the same dictionaries agree with those definitions. "
     "Unknown or repeated axes and bins outside an axis are refused and the source is never modified.",
     [I, C], "every histogram of any dimension and shape, every subset and order of axes, every fixed cell",
     "Tests compare sums for symmetric 3-bin axes, which cannot see a permuted projection or transposed slice of uneven axes.",
     ["src/histogram/Histogram.cpp", "src/histogram/HistTools.cpp", "src/histogram/HistTools.hpp", "src/dist/BinnedED.cpp"],
     [("Histogram::Marginalise / GetSlice", "src/histogram/Histogram.cpp"), ("HistTools", "src/histogram/HistTools.cpp")])

prop("C05", "Shrinking removes exactly the buffer bins, or folds them into the edge bins",
     "Shrinking a binned distribution keeps every cell outside the buffers at the position of its own bin edges with its exact content. "
     "Content in buffer regions is dropped, or added to the nearest kept cell when overflows are used; axes without a buffer are untouched, every axis keeps its name and label, and the input is not modified. "
     "Buffers that would leave no bins are refused.",
     [I, H, C], "every dimension, buffer sizes per axis, overflow setting, contents, and any history of re-configuring the same shrinker",
     "Tests shrink one 1-D and one 2-D distribution once; the guarantee is over all shapes and over re-using one shrinker for several configurations.",
     ["src/fitutil/BinnedEDShrinker.cpp"], [("BinnedEDShrinker::SetBinMap / ShrinkDist", "src/fitutil/BinnedEDShrinker.cpp")],
     state=[("buffers", "per-axis lower/upper bins", "BinnedEDShrinker"), ("bin map", "old bin -> new bin", "BinnedEDShrinker")])

prop("C04", "Distributions read their own observables by name, whatever the event layout",
     "The probability a binned, analytic or composite distribution assigns to an event depends only on the values of the observables it names, taken in the order it names them, and not on where they are in the event or what else the event holds. "
     "A binned distribution gives its bin content over its integral, an analytic one its function, a composite the product over its constituents (with summed dimensions, product integral and joined name). "
     "Events lacking a named observable are refused, reading never changes event or distribution, and clones, copies and assignments are equal to and independent of the original.",
     [I, H, C], "every distribution and composition of distributions, every data set layout containing the observables, every event, any history of setting observables, parameters, names and copies",
     "Tests use one fixed layout in which position and name agree; the guarantee is over permutations and supersets of columns, and composite/clone tests are not run at all.",
     ["src/dist/BinnedED.cpp", "src/dist/AnalyticED.cpp", "src/dist/CompositeED.cpp", "src/data/Event.cpp", "src/data/ObsSet.cpp"],
     [("Event::ToObsSet", "src/data/Event.cpp"), ("Probability(Event)", "src/dist/BinnedED.cpp"), ("CompositeED", "src/dist/CompositeED.cpp")],
     state=[("observables", "ordered names", "ObsSet"), ("constituents", "owned copies", "CompositeED")])

prop("C06", "Cuts decide exactly by their condition and the cut log accounts for every event",
     "A line cut keeps events strictly above (lower) or below (upper) its value, a box cut strictly inside its limits, a bool cut exactly equal, each read from the named observable; a collection keeps an event iff every cut does, in the order added. "
     "With a log, each event is recorded exactly once: against the first cut it fails or as passed; the log's counts, percentages, remaining numbers and printed or saved table follow from the events seen, and rejected plus remaining always equals the total. "
     "Unknown observables, invalid sides, unknown cut numbers and files that cannot be written are refused, and copies of a collection are independent.",
     [I, H], "every sequence and kind of cuts, every event value including the cut values themselves, every sequence of logged events and log queries",
     "Tests check a few values per cut and one short log; the accounting identity is about every history, and first-failing-cut attribution needs several overlapping cuts.",
     ["src/cut/CutCollection.cpp", "src/cut/CutLog.cpp", "src/cut/LineCut.cpp", "src/cut/BoxCut.cpp", "src/cut/BoolCut.cpp"],
     [("CutCollection::PassesCuts", "src/cut/CutCollection.cpp"), ("CutLog", "src/cut/CutLog.cpp")],
     state=[("counts", "per cut, plus events seen", "CutLog")])

prop("C07", "Event systematics act in order on their named observable only",
     "A shift adds its value to, and a scale multiplies, its output observable; a reconvolution moves the output towards or away from the true (input) observable by its factor; a convolution adds what its kernel samples, one new number per event, and without a kernel is refused; every other observable and the event passed in stay as they are. "
     "A manager applies its systematics one after another in the order added, each seeing the result of the previous ones, with their current parameter values; an empty one is the identity. "
     "Parameters are set, read and renamed only under their current name, invalid scales and corrections are refused, and events without the observable are refused.",
     [I, H], "every event layout, every sequence of systematics (commuting or not), any history of parameter changes and renames",
     "Tests apply one systematic to one event; order dependence and independence of other observables need sequences and permuted layouts.",
     ["src/eventSystematic/EventShift.cpp", "src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventReconvolution.cpp", "src/eventSystematic/EventConvolution.cpp", "src/fitutil/EventSystematicManager.cpp"],
     [("EventSystematicManager::ApplySystematics", "src/fitutil/EventSystematicManager.cpp"), ("operator()", "src/eventSystematic/EventShift.cpp")],
     state=[("systematics", "ordered", "EventSystematicManager")])

prop("C08", "Data sets return the events put in, in order, read by their own names",
     "A data set holds exactly the events added, in order, all with the same number of observables (others are refused), and looks values up by its own current names, whether these were set before or after the events, and also after copying, assignment, concatenation, or when the original no longer exists. "
     "Concatenation appends the right operand's events to those of the left in a new set and changes neither operand; events handed out are copies. "
     "Observable sets keep their order, and names, indices or events that do not exist are refused.",
     [I, H], "every sequence of additions, renamings, copies, concatenations and reads over any number of data sets",
     "Tests add a few events to one set; name resolution after copies and the immutability of operands are about histories over several sets.",
     ["src/data/OXSXDataSet.cpp", "src/data/Event.cpp", "src/data/ObsSet.cpp"],
     [("OXSXDataSet::AddEntry / GetEntry / operator+", "src/data/OXSXDataSet.cpp"), ("Event::GetDatum / SetDatum", "src/data/Event.cpp")],
     state=[("events", "ordered rows", "OXSXDataSet"), ("names", "one per column", "OXSXDataSet")])

prop("C09", "Filling a distribution counts every selected event exactly once",
     "Filling a binned distribution from a data set takes the first n events (all, by default) in order, transforms each by the systematics, then applies the cuts to the transformed event, and adds exactly one to the bin of the transformed event if it passes; nothing else changes. "
     "With a cut log every one of those events is logged once, so the content added equals the events passing and the log's totals agree; the data set is untouched and repeated fills accumulate.",
     [I, H, C], "every data set, cut collection, sequence of systematics, number of events and sequence of fills",
     "The tests fill from one data set without systematics; the order transform-cut-fill and the accounting hold for all combinations.",
     ["src/dist/DistFiller.cpp", "src/dist/BinnedED.cpp"], [("DistFiller::FillDist", "src/dist/DistFiller.cpp")])

prop("C10", "A counting experiment's numbers follow from its samples, cuts and systematics",
     "The expected counts of each background are its rate times the fraction of its events passing all cuts after all systematics, with error rate*sqrt(passed)/total; the total is their sum and its error their sum in quadrature; the signal efficiency is the fraction of signal events passing and the observed count the number of data events passing. "
     "Every cut log and the printed or saved report agree with those numbers, and counting again replaces the previous counts.",
     [I, H, C], "every set of samples, rates, cuts and systematics, and every order and repetition of counting calls",
     "The test counts one fixed configuration once; the guarantee is about every configuration and repeated counting.",
     ["src/count/CountingExperiment.cpp", "src/count/CountingResult.cpp"], [("CountBackgrounds / CountSignal / CountData", "src/count/CountingExperiment.cpp"), ("CountingResult", "src/count/CountingResult.cpp")],
     state=[("result", "rates, errors, logs, efficiency, observed", "CountingResult")])

prop("C16", "Normalised distributions have unit probability and mixtures add up by name",
     "Normalising a distribution makes its integral one and its bin probabilities its contents over their sum, keeping all ratios. "
     "A manager of distributions gives every event the sum over its distributions of normalisation times probability; normalisations are set as a list in the order added or as fit parameters under each distribution's name, with the same effect. "
     "Distributions of another dimension, lists of the wrong length and unknown names are refused with nothing changed, and the manager keeps its own copies.",
     [I, H, C], "every collection of distributions, every history of additions, normalisation changes by list and by name, and every event",
     "Tests of EDManager are compiled but not run; the mapping of names to normalisations after several additions is a property of histories.",
     ["src/fitutil/EDManager.cpp", "src/dist/BinnedED.cpp", "src/core/ParameterManager.cpp"],
     [("EDManager::Probability / RegisterParameters", "src/fitutil/EDManager.cpp"), ("BinnedED::Normalise", "src/dist/BinnedED.cpp")],
     state=[("normalisations", "one per distribution", "EDManager")])

prop("C11", "Fit parameters are set and read by name, and a refused set changes none of them",
     "A parameter manager reads and writes, under each name, exactly the variable or container element registered under it: setting through it is seen in that variable and nowhere else, and reading shows the variable's present value. "
     "Setting from a dictionary gives every parameter the value under its own name, ignores names that are not its own, and sets nothing when one is missing. "
     "Names, counts and values always agree; a renamed parameter answers to the new name only; unknown names, taken new names and name lists of the wrong length are refused.",
     [I, H], "every set of registered variables and containers, every history of registrations, renames, clears, sets and reads, complete or incomplete dictionaries",
     "The test sets each parameter once by its first name; all-or-nothing updates and the binding of names to storage after renames are about histories.",
     ["src/core/ParameterManager.cpp", "src/core/ParameterManager.hpp", "src/core/DoubleParameter.h", "src/core/ContainerParameter.hpp"],
     [("ParameterManager::SetParameters / RenameParameter", "src/core/ParameterManager.cpp"), ("ContainerParameter", "src/core/ContainerParameter.hpp")],
     state=[("parameters", "name -> storage", "ParameterManager")])

prop("C12", "Every fit component's parameters go by name to the quantity they control",
     "For every fit component (shifts, scales, shapes, scale functions, convolutions, Gaussians, kernels depending on functions, spectra, event systematics, analytic distributions) a value set under a name is the value read under it, and is the quantity the component then uses: the right mean, width, bin or function argument and no other. "
     "Renames, sets with foreign names, the object's own setters and copies keep names and values together; copies are independent. "
     "A manager of components passes a set to each of its components and finds each parameter in the one that has it; unknown names, incomplete sets and clashing names are refused.",
     [I, H, C], "every kind of component, any dimension, any names, any history of sets, renames, copies and direct setters, and any group of components",
     "Tests look at one parameter of a few components; swapped or shifted parameters only show in components with several, after renames or copies.",
     ["src/core/ComponentManager.cpp", "src/function/Gaussian.cpp", "src/function/GaussianFitter.cpp", "src/function/VaryingCDF.cpp", "src/function/JumpPDF.cpp",
      "src/dist/SpectralFitDist.cpp", "src/systematic/Shape.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shift.cpp", "src/systematic/Scale.cpp", "src/systematic/Convolution.cpp",
      "src/eventSystematic/EventScale.cpp", "src/eventSystematic/EventShift.cpp", "src/eventSystematic/EventConvolution.cpp"],
     [("ComponentManager", "src/core/ComponentManager.cpp"), ("GaussianFitter", "src/function/GaussianFitter.cpp"), ("VaryingCDF", "src/function/VaryingCDF.cpp")],
     state=[("parameters", "name and value per component", "FitComponent"), ("components", "ordered", "ComponentManager")])

prop("C13", "The constraint term is the sum of every constraint at the current parameters",
     "The value of a set of constraints is the sum, over all of them, of each one's penalty: (x-mean)^2/(2 width^2) with the width of the side x is on; the correlated two-parameter form; the same for the ratio, for the fraction (a-b)/(a+b) and for a function of parameters; and the multilinear interpolation of a table between its bin centres. "
     "Each parameter is read by its own name in the role it was given; setting a constraint again replaces it. "
     "A parameter constrained twice in conflicting ways, a correlation of size one or more, missing parameters and points outside the table are refused.",
     [I, H], "every set of constraints of all six kinds, any history of adding and replacing them, every parameter set (both sides of a mean, on and off the lattice)",
     "Tests evaluate one constraint at one point; swapped roles, dropped terms and the wrong side's width need several asymmetric constraints together.",
     ["src/constraint/ConstraintManager.cpp", "src/constraint/QuadraticConstraint.h", "src/constraint/BivariateQuadraticConstraint.h", "src/constraint/RatioConstraint.h",
      "src/constraint/FractionalConstraint.h", "src/constraint/ShapeConstraint.cpp", "src/constraint/ShapeInterpConstraint.cpp"],
     [("ConstraintManager::Evaluate", "src/constraint/ConstraintManager.cpp"), ("ShapeInterpConstraint::Evaluate", "src/constraint/ShapeInterpConstraint.cpp")],
     state=[("constraints", "per parameter, pair, table or function", "ConstraintManager")])

prop("C14", "Systematics move bin content as they say, only along their own observables",
     "After construction, the response of a shift, scale or scale function sends each bin's content to the bins overlapping the moved bin in proportion to the overlap; a shape multiplies each bin by its function at the bin centre; a renormalisation multiplies all bins by its factor; a convolution spreads each bin by its kernel, in the order of its observables. "
     "Content never moves along observables that are not transformed, wherever these are among the distribution's; smearing multiplies the contents by the response and reports the integral or normalises, leaving its input alone. "
     "The response follows the present parameters, axes and observables, never earlier ones; matrix products, vectors and entries are those of linear algebra. "
     "Missing axes, functions or observables, negative shapes, non-positive scales and wrong sizes are refused.",
     [I, H, C], "every kind of systematic, binning, choice and order of transformed observables, parameter values, any history of re-configuring, copying and re-constructing",
     "Tests look at one response on one symmetric binning; overlap fractions on uneven bins, permuted observables and stale mappings after re-configuring are about all configurations and histories.",
     ["src/systematic/Systematic.cpp", "src/systematic/Shift.cpp", "src/systematic/Scale.cpp", "src/systematic/ScaleFunction.cpp", "src/systematic/Shape.cpp",
      "src/systematic/Renorm.cpp", "src/systematic/Convolution.cpp", "src/core/SparseMatrix.cpp", "src/core/DenseMatrix.cpp"],
     [("Construct of each systematic", "src/systematic"), ("Systematic::operator()", "src/systematic/Systematic.cpp"), ("SparseMatrix", "src/core/SparseMatrix.cpp")],
     state=[("response", "matrix over global bins", "Systematic"), ("axes, observables, parameters", "what the response is built from", "Systematic")])

prop("C15", "A distribution gets the systematics of its groups once each, global ones first",
     "A systematic manager gives each registered distribution the product of its groups' responses, the global group first unless it is listed, each group's systematics one after the other in the order added, recomputed from the present parameters on every construction. "
     "Unregistered distributions are left alone, originals are never changed, and reported norms are the integrals after the systematics. "
     "Groups are listed as they were filled; a registration under an unknown group or one that would apply a name twice, and a global systematic already in another group, are refused.",
     [I, H, C], "every arrangement of systematics in groups, registration of distributions with lists of groups, and every history of additions, parameter changes, constructions and distortions",
     "Tests use one manager with commuting systematics; order of non-commuting systematics, double application and stale totals need arrangements and histories.",
     ["src/fitutil/SystematicManager.cpp"],
     [("SystematicManager::Construct / DistortEDs / AddDist", "src/fitutil/SystematicManager.cpp")],
     state=[("groups", "name -> ordered systematics", "SystematicManager"), ("total responses", "per group", "SystematicManager"), ("registrations", "distribution name -> groups", "SystematicManager")])

prop("C17", "The binned likelihood is the extended Poisson term of every bin plus constraints",
     "The value of a BinnedNLLH is, over the bins of the data left by the buffers, the sum of (expectation - content x ln expectation), plus the constraint terms at the present parameters. "
     "The expectation is the sum of the distributions, each after its groups' systematics, projected on the data's observables and with buffers removed or folded like the data, times its norm: a direct norm counts events after everything, an indirect one before, a fixed one is one. "
     "With finite statistics each bin's expectation is moved by the best factor, with the quadratic penalty of its uncertainty, also in bins without data. "
     "Data are a distribution, or the events that pass every cut, binned. Reported norms and cut log are those of the evaluation. "
     "A bin without expectation, missing data, unequal lists, unknown groups and impossible buffers are refused.",
     [I, H, C], "every set of distributions with direct, indirect and fixed norms, systematics in groups, observables of the data, buffers with or without overflow, cuts, constraints and parameter values",
     "Tests evaluate two one-dimensional distributions once; how norms, systematics, projections, buffers and finite statistics combine is about all configurations.",
     ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/BinnedEDShrinker.cpp", "src/fitutil/SystematicManager.cpp", "src/constraint/ConstraintManager.cpp"],
     [("BinnedNLLH::Evaluate", "src/teststat/BinnedNLLH.cpp"), ("BinnedEDManager::ApplySystematics / ReassertNorms / BinProbability", "src/fitutil/BinnedEDManager.cpp")],
     state=[("normalisations", "fitted and working norm per distribution", "BinnedEDManager"), ("data", "data set or distribution, shrunk once", "BinnedNLLH")])

prop("C18", "A likelihood depends on its present configuration, never on what came before",
     "The value of a BinnedNLLH is a function of its distributions, data, systematics, buffers, constraints and present parameter values: evaluating twice, evaluating at other parameters and coming back, refused calls, or another order of the same calls give the same number. "
     "New data, cuts, constraints, buffers, distributions and switches set after an evaluation count in the next one, fully and once. A copy has the value of its original and then a life of its own. Reading a parameter shows the value last set.",
     [H], "every history of evaluations, parameter changes (complete, partial, refused), direct changes of a systematic, new data, cuts, buffers, constraints, managers handed over and distributions of one likelihood and its copies",
     "Tests evaluate freshly built likelihoods once. A minimiser evaluates the same object thousands of times; state left from earlier evaluations shows only in histories.",
     ["src/teststat/BinnedNLLH.cpp", "src/fitutil/BinnedEDManager.cpp", "src/fitutil/SystematicManager.cpp", "src/core/ComponentManager.cpp"],
     [("BinnedNLLH::Evaluate / SetDataDist / SetDataSet", "src/teststat/BinnedNLLH.cpp"), ("BinnedEDManager working distributions", "src/fitutil/BinnedEDManager.cpp")],
     state=[("original and working distributions", "working ones are rebuilt on every evaluation", "BinnedEDManager"), ("data", "raw and shrunk", "BinnedNLLH")])

prop("C19", "A sum of statistics is the sum of its parts, sharing parameters by name",
     "A StatisticSum has each parameter of its parts once, passes a set of parameters to every part, and its value is the sum of the values of its parts at their present parameters plus its own constraints. "
     "Parts keep their own data, systematics and constraints, may be evaluated and set on their own, and may share parameters and systematics; sums made by constructor, by adding parts, from a list or with + are the same. An incomplete set is refused.",
     [H, C], "every choice of parts (sharing parameters and systematics or not), every way to build the sum, every history of sets and evaluations of the sum and of its parts",
     "The test adds two fixed statistics. Parameters shared by name, constraints of the sum and of its parts, and evaluations in between need combinations and histories.",
     ["src/teststat/StatisticSum.cpp", "src/teststat/TestStatistic.h"],
     [("StatisticSum::Evaluate / SetParameters / GetParameters", "src/teststat/StatisticSum.cpp")],
     state=[("parts", "the statistics added up", "StatisticSum"), ("constraints", "of the sum itself", "TestStatistic")])

prop("C26", "A copy is as good as its original, and from then on its own",
     "Copies, clones and assignments of histograms, binned, analytic and composite distributions, data sets, cut collections, sets of distributions, functions, event and binned systematics, response matrices, constraint managers, fit results and data set generators hold what the original held: every later answer is the same as if the original had been used. "
     "What is done to one afterwards, or its destruction, changes nothing in the other, at whatever point of a history the copy is made, whether it is a new object or assigned over one that was in use, and assigning something to itself changes nothing.",
     [I, H], "every class that can be copied, at every point of every history, in every order of use and destruction",
     "A copy that forgets one field or shares one pointer looks right until a particular later call; only copies at every point of many histories, compared with a model in which objects are values, can tell.",
     ["src/dist", "src/histogram", "src/cut/CutCollection.cpp", "src/fitutil", "src/systematic", "src/eventSystematic", "src/function", "src/optimise/FitResult.cpp", "src/data"],
     [("CutCollection::operator=", "src/cut/CutCollection.cpp"), ("EDManager::operator=", "src/fitutil/EDManager.cpp"), ("Convolution::operator=", "src/systematic/Convolution.cpp"), ("AnalyticED::operator=", "src/dist/AnalyticED.cpp")],
     state=[("objects", "the value every object stands for", "all classes that are copied")])

prop("C27", "A sum of binned distributions weights each by its own norm, found by its name",
     "In a BinnedEDManager each distribution that is fitted has one parameter under its name, is weighted by it, and one that is not fitted is used as it is, in whatever order the kinds were added. "
     "The content of a bin and the probability of an event are the weighted sums over all distributions; norms set as a list or by name are read back under the same names and used; renamed parameters answer to the new name only; copies are independent. "
     "Adding a distribution keeps the norms set before. Systematics always act on the distributions as they were given and leave those they are not for alone; cutting buffers off happens once until systematics are applied again and leaves a distribution that its norm multiplies with integral 1; seen along fewer axes the contents add up. Unknown names, incomplete sets, lists of the wrong length, names taken and bins outside are refused.",
     [I, H, C], "every collection of binned distributions of all kinds of norms, every history of adding, setting, renaming, copying, distorting, cutting, projecting and reading",
     "Tests use distributions of one kind; which norm belongs to which distribution shows only when kinds are mixed, lists set and copies made.",
     ["src/fitutil/BinnedEDManager.cpp", "src/core/ParameterManager.cpp"],
     [("BinnedEDManager::RegisterParameters / SetNormalisations", "src/fitutil/BinnedEDManager.cpp")],
     state=[("normalisations", "fitted and working norm per distribution", "BinnedEDManager")])

prop("C20", "A grid search visits every point of its grid and returns a best one",
     "GridSearch evaluates the statistic at every point whose parameters are minimum + k x step, k = 0, 1, ..., up to and including the maximum, for any number of parameters, and at no other point. "
     "Its best fit is a point of the grid where the statistic is least (greatest if maximising) and its extreme value is the statistic's own value there, also if that is zero or negative, and whatever was searched before with the same object. "
     "Minima, maxima and steps of different parameters, a step that is not positive, a minimum above the maximum and a missing parameter of the statistic are refused, keeping the last result.",
     [I, H, C], "every number of parameters, range, step, statistic and history of searches with one object",
     "No test runs a grid search. Whether every corner of the grid is visited depends on the number of parameters, on the ranges and on the rounding of ranges to steps.",
     ["src/optimise/GridSearch.cpp"], [("GridSearch::Optimise / Increment", "src/optimise/GridSearch.cpp")],
     state=[("ranges and steps", "per parameter", "GridSearch"), ("position", "where the search is", "GridSearch")])

prop("C21", "A fit result gives back what was put into it, and copies are independent",
     "Every field of a FitResult - best fit, extreme value, validity, stat space, sample, covariance, one- and two-dimensional projections, print precision - reads back as last set. "
     "A copy or an assignment has all of them, to itself included, and afterwards neither changes with the other or with its end. A stat space that was never set is refused. "
     "Printed, each parameter is named with its value rounded to the print precision, on screen, in a file and as a string alike.",
     [I, H], "every value of the fields and every history of setting, copying, assigning and destroying",
     "No test copies a fit result with everything set; a field that is shared or dropped shows only in a history.",
     ["src/optimise/FitResult.cpp"], [("FitResult copy and assignment", "src/optimise/FitResult.cpp"), ("FitResult::AsString", "src/optimise/FitResult.cpp")],
     state=[("fields", "best fit, extreme, stat space, sample, projections, covariance, precision", "FitResult")])

prop("C28", "Credible intervals and autocorrelations are those of their definitions",
     "The upper bound of a one-dimensional posterior at credibility cl is where the content below reaches cl of the total, linear within a bin. "
     "The one-sided credibility for counts is the fraction of the flat-prior posterior above the expected background that lies below the limit, and the bound for counts is the first multiple of the tolerance whose credibility is within the tolerance of cl. Empty or multi-dimensional posteriors and impossible credibilities are refused. "
     "An autocorrelation holds the last N values; each new value adds its product with each held value, both relative to the mean of the held values, and the lag-k estimate is the ratio to the same sum of squares; its mean and variance are those of the held values.",
     [I, H, C], "every posterior, credibility, background, number of counts and tolerance; every history of values, reads and clears",
     "No test computes an interval or an autocorrelation; off-by-one bins, empty bins and edges need all posteriors, a moving window needs histories.",
     ["src/interval/BayesIntervalCalc.cpp", "src/optimise/AutoCorrelationCalc.cpp"],
     [("BayesIntervalCalc::UpperBound", "src/interval/BayesIntervalCalc.cpp"), ("AutoCorrelationCalc::Fill", "src/optimise/AutoCorrelationCalc.cpp")],
     state=[("window", "the last N values and running sums per lag", "AutoCorrelationCalc")])

prop("C29", "A Minuit fit minimises, or maximises, the named statistic it was set up for",
     "Each parameter is given to Minuit with its own initial value and error, limited to its own range if it has one and only then, and fixed if it was fixed; whatever point Minuit tries, the statistic is given each value under the right name, and Minuit its value, negated when maximising. "
     "The result has the point Minuit ended on under the right names, the statistic's own value there, Minuit's covariance as a symmetric matrix, and Minuit's word on validity. "
     "Method, strategy, most calls, tolerance and upper contour edge are those set, for this and every later fit; releasing undoes fixing. "
     "Ranges given for one side only, empty ranges, values and errors of different parameters, parameters other than the statistic's, fixed parameters it has not, and unknown methods are refused, and the last result stays. Copies fit on their own.",
     [I, H], "every statistic and its parameter names; every history of settings, fits and copies; every path of the minimiser",
     "Minuit is not in the build the tests run; with one parameter or names in order a mix-up of parameters cannot show.",
     ["src/optimise/Minuit.cpp", "src/optimise/MinuitFCN.cpp", "src/core/DenseMatrix.cpp"],
     [("Minuit::Initialise", "src/optimise/Minuit.cpp"), ("Minuit::Optimise", "src/optimise/Minuit.cpp"), ("MinuitFCN::operator()", "src/optimise/MinuitFCN.cpp"), ("DenseMatrix::SetSymmetricMatrix", "src/core/DenseMatrix.cpp")],
     state=[("settings", "initial values, errors, ranges, fixed parameters, method, knobs, direction", "Minuit"), ("result", "of the last fit", "Minuit::fFitResult")])

prop("C30", "Leapfrog steps are reversible and stay within their walls",
     "A gradient is, per parameter, the difference of the statistic at one step above and below over twice the step. "
     "A leapfrog step kicks every momentum by half a step of the gradient, moves every parameter by momentum over mass, and kicks again; several steps are one after the other, so that flipping the momenta and stepping as often leads back. "
     "Between walls a parameter that meets a wall bounces with its momentum reversed and uses up the rest of its time, any number of times and in any parameter, and never ends outside. "
     "The energy of a likelihood is its negative; soft walls add ln(1 + exp(mu x distance beyond)) per wall.",
     [I, H, C], "every differentiable statistic, place, momenta, masses, step, number of steps and walls (leaving out meeting two walls, or a wall and the end of the step, at the same instant)",
     "No test runs the dynamics. Reversibility and confinement are statements about all trajectories.",
     ["src/optimise/LeapFrog.cpp", "src/optimise/LeapFrog.hpp", "src/optimise/Gradient.hpp", "src/optimise/HMCEnergy.hpp", "src/optimise/SigmoidBoundary.hpp"],
     [("LeapFrog::Hamiltonian", "src/optimise/LeapFrog.hpp"), ("FirstIntersectionTime", "src/optimise/LeapFrog.cpp")],
     state=[("position and momenta", "moved by each step", "LeapFrog")])

prop("C22", "A Markov chain goes where its sampler proposes or stays, and records it all",
     "A chain starts at the trial given, or uniformly between the limits, and takes exactly the number of steps asked for. "
     "A proposal outside the limits is never taken and never evaluated; one inside is taken when the ratio of the statistic's values (for a logged one the exponential of the difference plus the sampler's correction) is above one or not below a fresh uniform number, otherwise the chain stays. With FlipSign the negative is sampled. "
     "A Metropolis proposal moves each parameter that is not fixed by a deviate of its own width; a Hamiltonian one draws momenta of its masses and follows leapfrog steps, correcting by the change of kinetic energy. "
     "The best fit and extreme value are those of the best place visited, first and last included. Histograms hold the places after the burn-in, one of every thin factor, with repeats; rates, autocorrelations and the saved chain agree with the steps taken. "
     "Limits or starts whose names are not the statistic's parameters are refused.",
     [I, H], "every statistic, limits, start, settings, sampler, sequence of proposals and random numbers",
     "The tests run no chain at all; acceptance, staying and recording must agree at every step of every history, which only a state machine fed with the same random numbers can say.",
     ["src/optimise/MCMC.cpp", "src/optimise/MCMCSamples.cpp", "src/optimise/MetropolisSampler.cpp", "src/optimise/HamiltonianSampler.hpp", "src/histogram/HistTools.cpp"],
     [("MCMC::Optimise", "src/optimise/MCMC.cpp"), ("MCMC::StepAccepted", "src/optimise/MCMC.cpp"), ("MCMCSamples::Fill", "src/optimise/MCMCSamples.cpp")],
     state=[("chain", "current place and value, best, counts of steps, histograms, saved rows", "MCMC, MCMCSamples")])

prop("C23", "Fake data are drawn as asked: numbers, no replacement, cuts, bin contents",
     "A data set generator gives from every data set, in turn, the expected number of events rounded to the nearest, or a Poisson number about it for fluctuated data. "
     "Without bootstrap no event comes out twice until a reset and each of those left can come out; sequentially they come out in the order of the data set, going on where the last draw ended; with bootstrap any event can come at any time. "
     "Events failing a cut are drawn but not given; the remaining events are exactly those not drawn; more than what is left, or a missing rate or flag, is refused. Copies draw for themselves. "
     "A binned distribution gives the bin where the cumulative content reaches the random number, as many events as rated, from all distributions together. "
     "Random numbers are spread over the range asked for, follow the density under the lid in rejection sampling, and the same seed gives the same numbers.",
     [I, H], "every data set, rate, flag and cut; every sequence of draws and resets; every outcome of the random number generator",
     "Tests draw once with the generator's own random numbers. That no event is repeated or unreachable is about every sequence of draws and every random number.",
     ["src/data/DataSetGenerator.cpp", "src/dist/BinnedEDGenerator.cpp", "src/rand/Rand.cpp"],
     [("DataSetGenerator::RandomDrawsNoReplacement", "src/data/DataSetGenerator.cpp"), ("DataSetGenerator::SequentialDrawsNoReplacement", "src/data/DataSetGenerator.cpp"), ("BinnedEDGenerator::ExpectedRatesED", "src/dist/BinnedEDGenerator.cpp"), ("Rand::VonNeumannSample", "src/rand/Rand.cpp")],
     state=[("undrawn events", "indices of the events not drawn since the last reset", "DataSetGenerator::fEventIndicies")])

prop("C25", "A configuration file is read as it was written, and what is open stays as opened",
     "Opening a file gives, per section of the first level, the value of every key: lines are trimmed, comment lines and empty lines are ignored, keys and values are trimmed and may hold anything but a line end (a value also '='); deeper sections keep their own keys. "
     "A file that is missing or malformed (no '=', a key or section twice, a section too deep) is refused and what was open stays open; changing the file later changes nothing until it is opened again; closing forgets it. "
     "A value is loaded as the string or number it is, a list as its comma-separated items (empty ones left out) put behind what the container held, for any container and item type. "
     "A missing section, a missing field, a value that is no number or does not fit, and loading with nothing open are refused, telling sections from fields, and leave the variable as it was.",
     [I, H], "every file, every value and type, every history of opening, changing and closing files",
     "No test reads a configuration file. What a file means is defined for all texts; failed openings matter only for what comes after them.",
     ["src/config/ConfigLoader.cpp", "src/config/ConfigLoader.hpp", "src/config/ini.hpp", "src/core/ContainerTools.hpp"],
     [("ConfigLoader::Open / Load", "src/config/ConfigLoader.cpp"), ("INI::Parser::parse", "src/config/ini.hpp")],
     state=[("open configuration", "the parsed sections and values", "ConfigLoader::fParser")])

prop("C24", "What is saved to a file comes back; lazy sets and ROOT readers show their file",
     "A data set saved as .h5 and loaded has the same observables under the same names in the same order and the same entries bit by bit, however many there are and however long the names; a histogram the same axes (names, latex names, edges) and contents. "
     "Saved as .root the entries are rounded to single precision; ROOTNtuple and ROOTTree give the entries and branch names of the tree in order and refuse what lies beyond the last, missing files and trees, and (ROOTNtuple) trees that are not ntuples. "
     "Saving replaces the file. Unknown extensions, names with the delimiter ':', names that do not match the observables, files that are missing or hold something else are refused, and nothing changes then. "
     "A lazy data set (or a copy) reads its file when first asked and gives that until it is closed or another lazy one is loaded, then reads it anew. "
     "Converting a histogram to TH1D, TH2D, TH3D and back keeps edges, contents, and titles as names; a PDF as a histogram has in each bin its probability.",
     [I, H], "every data set, histogram, file name, tree; every history of saving, loading, replacing and removing files under several lazy sets",
     "Tests save and load one short data set and one histogram with short names; sizes around the pieces that are written at a time, long names, uneven bins, copies of lazy sets and files that change are never met.",
     ["src/data/IO.cpp", "src/data/LazyOXSXDataSet.cpp", "src/data/ROOTNtuple.cpp", "src/data/ROOTTree.cpp", "src/dist/DistTools.cpp"],
     [("IO::SaveDataSetH5 / LoadDataSet", "src/data/IO.cpp"), ("IO::SaveHistogramH5 / LoadHistogram", "src/data/IO.cpp"), ("LazyOXSXDataSet::Load", "src/data/LazyOXSXDataSet.cpp"), ("ROOTTree::Assemble", "src/data/ROOTTree.cpp"), ("DistTools::ToHist", "src/dist/DistTools.cpp")],
     state=[("files", "what each file holds", "IO"), ("loaded lazy set", "at most one lazy data set has its entries in memory", "LazyOXSXDataSet::fFiles")])
