#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

MC="MParT/MonotoneComponent.h"; MI="MParT/MonotoneIntegrand.h"; MEW="MParT/MultivariateExpansionWorker.h"

prop("C01","Maps are strictly monotone and report the right log-determinant",
"Every map the factory can build (any basis, linearization bounds, rectifier, quadrature rule, nugget and derivative mode) is, for any coefficients and points, increasing in the last input of each output with the other inputs held fixed, up to the accuracy of its quadrature rule (an adaptive rule's tolerance; a fixed rule with too few points for its integrand may dip). LogDeterminant equals the sum over outputs of the log of the derivative of that output with respect to its own input: rectifier of the expansion's diagonal derivative plus nugget in continuous-derivative mode, the exact derivative of the quadrature approximation in discrete mode; it is finite whenever that derivative is positive and representable. Triangular, composed, affine, identity and summarized maps report the sum (or log|det|) of their parts.",
["inputs","configurations"],"all factory options x coefficients x points x map kinds",
"Tests check a few fixed coefficient vectors on a 1-3 dimensional grid with loose finite differences; monotonicity and the log-determinant must hold for every coefficient vector, basis, rule and point.",
[MC,MI,"src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/SummarizedMap.cpp","src/IdentityMap.cpp","src/MapFactory.cpp","MParT/PositiveBijectors.h"],
[("rectified integrand",MI),("ContinuousDerivative / DiscreteDerivative",MC),("LogDeterminantImpl",MC)],
["ConditionalMapBase::Evaluate","ConditionalMapBase::LogDeterminant"])

prop("C02","Inverse undoes Evaluate, in both orders, for every kind of map",
"For every map that offers an inverse (component, square or rectangular triangular map, composition, affine, identity, summarized, single-entry map), Inverse(prefix, Evaluate(x)) returns the trailing part of x that is not in the prefix, and Evaluate([prefix, Inverse(prefix, r)]) returns r, up to the root-finding tolerance relative to the local slope, wherever the map is increasing and attains r. This holds for all coefficients, options, prefixes and batch sizes, including points far outside the linearization bounds and far from the initial guess. A NaN target or prefix yields NaN in the affected column and leaves other columns untouched.",
["inputs","configurations"],"all map kinds x options x coefficients x points x prefixes",
"Tests invert a handful of maps at points with moderate values; the bracket search and the root finder must succeed from any slope, offset and bracket side.",
[MC,"MParT/Utilities/RootFinding.h","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/SummarizedMap.cpp","src/IdentityMap.cpp","src/ConditionalMapBase.cpp"],
[("InverseImpl",MC),("bracketing + ITP","MParT/Utilities/RootFinding.h"),("block-wise inverse","src/TriangularMap.cpp")],
["ConditionalMapBase::Inverse","ConditionalMapBase::Evaluate","TriangularMap::InverseInplace"])

prop("C03","Component values equal their mathematical definition",
"The value of a monotone component is f(x_1..x_{d-1},0) plus the integral from 0 to x_d of rectifier(df/dx_d(x_1..x_{d-1},t)) plus nugget, where f is the multi-index expansion in the selected univariate basis (normalized or not, linearized outside the bounds or not; a factor of degree zero counts as one in every basis). Fixed-point rules reproduce exactly the n-point Clenshaw-Curtis value of that integral and adaptive rules meet their requested tolerance. It holds for every option combination, multi-index set, coefficient vector and point, including negative, zero and large x_d.",
["inputs","configurations"],"all 36 basis/rectifier/rule combinations x multi-index sets x coefficients x points",
"Tests compare against closed forms for one or two hand-made expansions; the definition must hold for every combination the factory can dispatch to.",
[MC,MI,MEW,"src/MapFactory.cpp","src/MapFactoryImpl1.cpp","src/MapFactoryImpl13.cpp","MParT/MapOptions.h","MParT/Quadrature.h","MParT/OrthogonalPolynomial.h","MParT/HermiteFunction.h","MParT/LinearizedBasis.h"],
[("EvaluateSingle",MC),("factory dispatch tables","src/MapFactory.cpp"),("basis caches",MEW)],
["ConditionalMapBase::Evaluate"])

prop("C04","Input gradients are exact derivatives of what is evaluated",
"For every map and parameterized function, Gradient(points, sens) equals the transposed Jacobian of Evaluate with respect to the inputs applied to sens, and LogDeterminantInputGrad equals the gradient of LogDeterminant with respect to the inputs. It holds for all map kinds and nestings (component, triangular, composed, affine, identity, summarized), options, coefficients, points and sensitivities, and does not depend on what the output array contained before.",
["inputs","configurations"],"map kinds and nestings x options x coefficients x points x sensitivities",
"Tests use forward differences with tolerances of 1e-4 on a few maps; a wrong factor in one branch of one nesting passes them.",
[MC,MI,MEW,"src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/AffineFunction.cpp","src/IdentityMap.cpp","src/SummarizedMap.cpp","MParT/MultivariateExpansion.h","MParT/Sigmoid.h"],
[("InputJacobian / MixedInputJacobian",MC),("chain rule with checkpoints","src/ComposedMap.cpp")],
["ParameterizedFunctionBase::Gradient","ConditionalMapBase::LogDeterminantInputGrad"])

prop("C05","Coefficient gradients are exact derivatives of what is evaluated",
"For every map and parameterized function, CoeffGrad(points, sens) equals the transposed derivative of Evaluate with respect to the coefficients applied to sens, and LogDeterminantCoeffGrad equals the gradient of LogDeterminant with respect to the coefficients, in the map's own coefficient ordering. It holds for all map kinds and nestings, options (including nugget and derivative mode), coefficients, points and sensitivities, and does not depend on what the output array contained before. (Log-determinant gradients of compositions need the continuous-derivative mode, as LogDeterminantInputGrad does; elsewhere they are refused with an exception.)",
["inputs","configurations"],"map kinds and nestings x options x coefficients x points x sensitivities",
"Tests use forward differences on a few maps; training relies on these gradients for every configuration.",
[MC,MI,MEW,"src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","MParT/MultivariateExpansion.h","src/AffineMap.cpp","src/IdentityMap.cpp"],
[("CoeffJacobian / mixed Jacobians",MC),("coefficient sub-blocks","src/TriangularMap.cpp")],
["ParameterizedFunctionBase::CoeffGrad","ConditionalMapBase::LogDeterminantCoeffGrad"])

prop("C06","Composite maps behave exactly like the composition of their parts",
"A triangular map's outputs are its components applied to the leading inputs each of them sees, stacked in order, with coefficients concatenated in order; a composed map is its layers applied in sequence whatever number of checkpoints is allowed; affine maps and functions compute A x + b (missing A or b meaning identity or zero); identity maps return the trailing inputs; summarized maps apply the summary then the map; debug and single-entry maps act as the components they are made of. Inverting a triangular map in place agrees with inverting it block by block. Output i of a triangular map never depends on later inputs. Values, inverses, log-determinants and gradients all follow the same structure.",
["inputs","configurations","programs"],"all nestings of map kinds up to depth 3 x dimensions x checkpoint limits",
"Tests fix the dimensions and nesting; index arithmetic at block boundaries only shows for particular block shapes, checkpoint counts and nestings.",
["src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/AffineFunction.cpp","src/IdentityMap.cpp","src/SummarizedMap.cpp","src/MapFactory.cpp"],
[("row/coefficient offsets","src/TriangularMap.cpp"),("checkpoint recomputation","src/ComposedMap.cpp")],
["Evaluate","Inverse","LogDeterminant","Gradient","CoeffGrad","TriangularMap::InverseInplace"])

prop("C07","A map's behaviour depends only on its current coefficients",
"SetCoeffs copies (later changes to the caller's array have no effect), WrapCoeffs aliases (changes through the caller's array take effect), and composite maps built with or without moved coefficients see exactly the concatenation of their parts' coefficients in both directions. After any sequence of coefficient updates and evaluations, every result equals that of a freshly built map given the same coefficients, and reading the coefficients returns exactly the last values set. A coefficient array of the wrong length is rejected with an exception and leaves the map unchanged.",
["histories","programs"],"sequences of set/wrap/mutate/evaluate operations over nested maps",
"Tests do one or two updates on one map; aliasing and stale-cache errors need particular histories.",
["src/ParameterizedFunctionBase.cpp","src/ConditionalMapBase.cpp","src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","MParT/ParameterizedFunctionBase.h"],
[("savedCoeffs ownership","src/ParameterizedFunctionBase.cpp"),("WrapCoeffs of sub-blocks","src/TriangularMap.cpp")],
["SetCoeffs","WrapCoeffs","Coeffs","CoeffMap","Evaluate"])

prop("C08","Results do not depend on batching, memory layout or stale output",
"The result for a point is bitwise the same whatever other points are in the batch, in which order, and whether inputs, sensitivities and outputs are column-major, row-major, strided sub-views or Eigen matrices, through the allocating or the in-place entry points. In-place entry points overwrite exactly the output region they are given, whatever it contained, and never modify inputs, sensitivities, coefficients or memory outside the output.",
["inputs","configurations"],"map kinds x entry points x layouts x batch splits x permutations",
"Tests use one layout and one batch per call; layout and offset errors only show for other strides.",
["src/ParameterizedFunctionBase.cpp","src/ConditionalMapBase.cpp",MC,"src/TriangularMap.cpp","src/ComposedMap.cpp","src/SummarizedMap.cpp","MParT/Utilities/ArrayConversions.h","MParT/Distributions/DensityBase.h"],
[("strided views","MParT/Utilities/ArrayConversions.h")],
["*Impl entry points","Eigen entry points"])

prop("C09","Parallel evaluation is race-free and independent of the schedule",
"Every parallel operation of the library (evaluation, gradients, log-determinants, inverses, training objectives, densities, sampling) is free of data races, and gives bitwise the same result for any number of threads and any interleaving of them, except that sums taken over samples or within one log-density may differ by rounding, and seeded sampling and training are repeatable for a fixed thread count.",
["schedules","inputs"],"thread counts 1-8 x injected delays and thread orders x operations x map kinds",
"Tests run with two threads on one schedule and compare with loose tolerances; races need particular interleavings or a race detector.",
[MC,"MParT/MultivariateExpansion.h","src/AffineMap.cpp","src/SummarizedMap.cpp","src/MapObjective.cpp","src/Distributions/GaussianSamplerDensity.cpp","MParT/Distributions/PushforwardDensity.h","MParT/Utilities/KokkosHelpers.h"],
[("team-private scratch caches",MC),("per-thread workspaces","MParT/Quadrature.h")],
["parallel regions"])

prop("C10","No memory error or undefined behaviour for valid use",
"No sequence of valid calls to the public interface (building, configuring, evaluating, inverting, differentiating, training, adapting, sampling, saving and loading maps, sets and functions) reads or writes outside allocated memory, uses freed or uninitialized memory, executes undefined arithmetic, or fails an internal assertion, for any dimension, batch size (including zero and one), multi-index set, option value or layout that the interface accepts. (Known exception: the exponential rectifier overflowing inside a parallel region ends the process.)",
["inputs","configurations","histories"],"random API programs over all public operations",
"Tests run without instrumentation, and an out-of-bounds access by a few elements usually goes unnoticed.",
[MC,MEW,"MParT/Quadrature.h","src/MultiIndices/MultiIndexSet.cpp","src/MultiIndices/FixedMultiIndexSet.cpp","src/TriangularMap.cpp","src/ComposedMap.cpp","src/TrainMapAdaptive.cpp"],
[("cache/workspace sizes",MEW),("workspace sizes","MParT/Quadrature.h")],
["AddressSanitizer","UndefinedBehaviorSanitizer"])

prop("C11","Saving and loading preserves a map exactly",
"Saving a serializable map (component or triangular map, nested or not) or multi-index set and loading it back gives an object of the same dimensions and coefficients whose values, inverses, log-determinants and gradients are bitwise identical, through streams and files alike. Several objects written to one stream, and maps nested in maps, load back in order, and objects saved before any coefficients were set can be loaded. Loading a truncated stream raises an exception.",
["inputs","configurations","fault_sequences"],"all serializable kinds x options x coefficients x nesting x truncation points",
"Tests save one object to one stream and compare with tolerances; framing errors between objects and options lost on the way show only for other combinations.",
["MParT/Utilities/Serialization.h",MC,"MParT/TriangularMap.h","MParT/ParameterizedFunctionBase.h","src/ParameterizedFunctionBase.cpp","MParT/MultiIndices/FixedMultiIndexSet.h","MParT/Quadrature.h"],
[("cereal save/load pairs","MParT/TriangularMap.h")],
["ParameterizedFunctionBase::Save","ParameterizedFunctionBase::Load"])

prop("C12","Multi-index sets stay consistent through any sequence of updates",
"After any sequence of additions, activations, expansions, forced expansions, unions, limiter changes and copies, a multi-index set contains exactly the active terms a plain set model predicts: indices and terms map to each other one-to-one in insertion order, maximum orders are exact, and no active or newly added term violates the limiter. Frontier, strict frontier, margin, reduced margin, neighbours and admissibility equal their definitions. Expansion and forced activation of a downward-closed set leave it downward closed and return exactly the new indices.",
["histories","inputs"],"operation sequences x dimensions x limiters",
"Tests run a few fixed sequences in two dimensions; edge bookkeeping errors need particular histories.",
["src/MultiIndices/MultiIndexSet.cpp","MParT/MultiIndices/MultiIndexSet.h","src/MultiIndices/MultiIndexNeighborhood.cpp","src/MultiIndices/MultiIndexLimiter.cpp"],
[("edge and index maps","src/MultiIndices/MultiIndexSet.cpp")],
["MultiIndexSet public queries"],
state=[("active terms","ordered list of active multi-indices","src/MultiIndices/MultiIndexSet.cpp"),("edges","forward/backward neighbour links","src/MultiIndices/MultiIndexSet.cpp")])

prop("C13","Multi-indices, limiters and fixed sets agree with their definitions",
"A multi-index reports exactly the entries, sum, maximum and nonzero count it was given or set to, out-of-range access raises an exception, and comparison is a strict total order consistent with equality. Total-order, tensor-product and limited sets contain exactly the terms their definition prescribes, and each limiter accepts exactly what it documents. Fixing a set, compressed or dense, preserves order, terms, sizes and maximum degrees, and lookup is the inverse of indexing and returns -1 for terms not in the set.",
["inputs","histories"],"multi-indices x orders x dimensions x limiters x compression",
"Tests check a few literal multi-indices and sets.",
["src/MultiIndices/MultiIndex.cpp","src/MultiIndices/FixedMultiIndexSet.cpp","src/MultiIndices/MultiIndexLimiter.cpp","src/MultiIndices/MultiIndexSet.cpp","MParT/MultiIndices/MultiIndexLimiter.h"],
[("sparse storage","src/MultiIndices/MultiIndex.cpp"),("compressed storage","src/MultiIndices/FixedMultiIndexSet.cpp")],
["MultiIndex","FixedMultiIndexSet","MultiIndexSet::Create*","MultiIndexSet::Fix"])

prop("C14","Univariate bases and rectifiers are mutually consistent and exact",
"For every univariate basis (probabilist and physicist Hermite polynomials, normalized or not, Hermite functions, and their linearizations), single and all-order evaluations and first and second derivatives agree with each other and with the mathematical functions for every degree and point where those are representable; normalized families are orthonormal and linearized ones are continuous with constant slope outside the bounds. Rectifiers are positive and increasing, their derivatives are exact and their inverses undo them where representable, and sigmoids stay within their range with exact derivatives.",
["inputs"],"families x normalization x bounds x degrees 0-30 x points",
"Tests check degrees up to about 5 at a few points.",
["MParT/OrthogonalPolynomial.h","MParT/HermiteFunction.h","MParT/LinearizedBasis.h","MParT/PositiveBijectors.h","MParT/Sigmoid.h","MParT/Utilities/MathFunctions.h"],
[("three-term recurrences","MParT/OrthogonalPolynomial.h"),("normalization","MParT/OrthogonalPolynomial.h")],
["EvaluateAll","EvaluateDerivatives","EvaluateSecondDerivatives","Evaluate","Derivative","SecondDerivative"])

prop("C15","Quadrature rules meet their exactness and tolerance contracts",
"An n-point Clenshaw-Curtis rule integrates every polynomial of degree below n exactly on any interval in either direction, is exactly the classical rule, and reversing the interval negates the result. Adaptive Simpson and adaptive Clenshaw-Curtis return, for smooth integrands and default-sized or larger subdivision budgets, an integral within their requested tolerance (on every subinterval they accept) under every error metric, for scalar and vector integrands alike. No rule evaluates the integrand outside the interval, exceeds its subdivision budget or its workspace, and results do not depend on the previous contents of the workspace or on who owns it.",
["inputs","configurations"],"rules x orders/levels x tolerances x error metrics x integrands x intervals x vector sizes",
"Tests integrate exp and a step function on one interval.",
["MParT/Quadrature.h"],
[("ClenshawCurtisQuadrature","MParT/Quadrature.h"),("AdaptiveSimpson","MParT/Quadrature.h"),("AdaptiveClenshawCurtis","MParT/Quadrature.h")],
["Integrate","workspace"])

prop("C16","Root finding returns the root of any increasing function, in bounded work",
"For every strictly increasing continuous function (rising on average by more than 1e-12 per unit) and target it attains, the bracket search returns an interval whose end values enclose the target, and the inverse search returns a point within the requested abscissa tolerance or ordinate tolerance of the true root, starting from any initial guess or bracket. The work is bounded (logarithmic in distance and tolerance) and the routine always terminates; a NaN target, or a function that is NaN everywhere it looks, gives NaN or an invalid flag instead of a number.",
["inputs"],"increasing functions (steep, flat, kinked, stiff, shifted) x targets x guesses x tolerances",
"Tests use three functions from one guess.",
["MParT/Utilities/RootFinding.h"],
[("FindBracket","MParT/Utilities/RootFinding.h"),("Find_x_ITP","MParT/Utilities/RootFinding.h"),("InverseSingleBracket","MParT/Utilities/RootFinding.h")],
["RootFinding functions"])

prop("C17","Multivariate expansions equal their defining sum, with exact derivatives",
"A multivariate expansion evaluates to the sum over terms of coefficient times product of univariate basis functions (factors of degree zero counting as one), for every output; Gradient and CoeffGrad are its exact transposed derivatives. The cache-based worker used inside monotone components gives the same values, diagonal first and second derivatives, input derivatives, coefficient derivatives and mixed derivatives as that sum, in whichever order caches are filled, and never depends on stale cache contents.",
["inputs","configurations","histories"],"bases x multi-index sets (dense, sparse, repeated highest degrees) x coefficients x points x outputs",
"Tests check one total-order set in three dimensions with unit coefficients.",
["MParT/MultivariateExpansion.h",MEW,"MParT/MultiIndices/FixedMultiIndexSet.h"],
[("cache layout and products",MEW)],
["MultivariateExpansion::Evaluate/Gradient/CoeffGrad","MultivariateExpansionWorker"])

prop("C18","Densities and samplers obey the change of variables",
"Gaussian log-densities and their gradients equal the closed form for any mean and covariance and any array layout; the pullback density at x equals the reference log-density at T(x) plus the log-determinant, with exact input and coefficient gradients, and the pushforward density at y equals the reference log-density at T^{-1}(y) minus the log-determinant there (its input gradients are not offered and throw). Pullback and pushforward samplers return exactly the inverse or forward image of the reference samples for the same seed, Gaussian samples have the stated mean and covariance, and setting a seed makes sampling repeatable.",
["inputs","configurations"],"means x covariances x maps x points x seeds x layouts",
"Tests use a diagonal covariance, one affine-like map and statistical tolerances.",
["src/Distributions/GaussianSamplerDensity.cpp","src/Distributions/PullbackDensity.cpp","src/Distributions/DensityBase.cpp","MParT/Distributions/PushforwardDensity.h","MParT/Distributions/PullbackSampler.h","MParT/Distributions/PushforwardSampler.h","MParT/Distributions/SampleGenerator.h","MParT/Distributions/Distribution.h"],
[("change of variables","src/Distributions/PullbackDensity.cpp")],
["LogDensity","LogDensityInputGrad","LogDensityCoeffGrad","Sample"])

prop("C19","Training objectives are exact and training never makes a map worse",
"The KL training and test errors equal minus the mean over samples of the pullback log-density, and the coefficient gradient handed to the optimizer is the exact derivative of that value, for any map, reference density and samples. Training a map returns the objective value at the coefficients it leaves in the map, which is never worse than the value at the starting coefficients, keeps every coefficient finite, leaves the training data unmodified, and is repeatable (randomized optimizers aside).",
["inputs","configurations","histories"],"maps x samples x reference densities x optimizers x tolerances",
"Tests check that one training run roughly Gaussianizes one sample.",
["src/MapObjective.cpp","src/TrainMap.cpp","MParT/MapObjective.h","MParT/TrainMap.h"],
[("KLObjective","src/MapObjective.cpp"),("NLopt wrapper","src/TrainMap.cpp")],
["MapObjective::operator()","TrainError","TestError","TrainMap"])

prop("C20","Adaptive training respects its budgets and returns a consistent map",
"Adaptive training returns a map whose components are exactly the multi-index sets it reports back, each downward closed and containing the initial set, with every added term strictly below the degree limits, and with no more coefficients in total than the larger of the initial size and the size limit. Terms are added one at a time, the one with the steepest training-gradient first. The returned map's test error is the best among those of the optimized maps along the way, never worse than that of the optimized initial map; all coefficients are finite, and the run is repeatable and stops when the patience or size limit is reached or no candidate is left.",
["inputs","configurations","histories"],"dimensions x samples x limits x patience x block structures",
"Tests run two configurations and compare the final sets with a stored answer.",
["src/TrainMapAdaptive.cpp","MParT/TrainMapAdaptive.h","src/MultiIndices/MultiIndexSet.cpp"],
[("greedy margin search","src/TrainMapAdaptive.cpp")],
["TrainMapAdaptive"])

prop("C21","Linear-algebra and array helpers match reference results for every layout",
"Matrix products with every combination of transposes, scalings and layouts, in-place additions, row/column reductions, LU and Cholesky factorizations, solves, triangular products and determinants agree with an independent dense reference for every shape. Array conversions between raw pointers, standard vectors, Eigen and Kokkos views preserve every entry at its (row, column) position, and alias the original memory exactly when they are documented as wrappers and not when they are copies.",
["inputs","configurations"],"shapes x layouts x transposes x scalars",
"Tests use one or two small matrices in one layout.",
["MParT/Utilities/LinearAlgebra.h","src/Utilities/LinearAlgebra.cpp","MParT/Utilities/ArrayConversions.h","MParT/Utilities/GPUtils.h"],
[("Eigen-backed kernels","src/Utilities/LinearAlgebra.cpp")],
["dgemm","PartialPivLU","Cholesky","ReduceDim","ArrayConversions functions"])

prop("C22","The Python and PyTorch interfaces agree with the C++ library",
"Every operation offered in Python (building maps and multi-index sets from options, setting and reading coefficients, evaluating, inverting, gradients, log-determinants, training, pickling, saving) returns what the same C++ call returns, for every numpy array order and shape the interface accepts, and array arguments of the wrong shape or type raise a Python exception instead of crashing. Objects and arrays obtained from one another stay valid after the Python names they came from are gone. The PyTorch modules return the map's values and log-determinants for any float dtype and memory layout, and automatic differentiation through them gives the exact derivatives with respect to inputs and coefficients.",
["inputs","configurations","programs"],"operations x maps x numpy/torch layouts and dtypes",
"Python tests call each binding once or twice with one layout.",
["bindings/python/src/ParameterizedFunctionBase.cpp","bindings/python/src/ConditionalMapBase.cpp","bindings/python/src/MultiIndex.cpp","bindings/python/src/MapOptions.cpp","bindings/python/package/torch.py","bindings/python/package/torch_helpers.py"],
[("pybind11 wrappers","bindings/python/src"),("autograd function","bindings/python/package/torch_helpers.py")],
["mpart Python module","mpart.torch"])

prop("C23","Invalid requests raise exceptions and leave objects usable",
"Requests the interface can recognise as invalid (coefficient, point, sensitivity or target arrays whose shape does not match, incompatible component, layer, matrix or density dimensions, active indices out of range, evaluating before coefficients exist, invalid multi-index limiter settings, unknown optimizer names, unserializable or truncated archives) end in a C++ exception. They never crash or silently return a result, and every object involved behaves afterwards as if the request had not been made (training may still initialise unset coefficients). Preconditions of multi-index sets that the code states as assertions are outside this property.",
["inputs","fault_sequences"],"invalid requests x map kinds x prior states",
"Tests cover a few of the checks and never look at the object after the failed call.",
["src/ParameterizedFunctionBase.cpp","src/ConditionalMapBase.cpp","src/TriangularMap.cpp","src/ComposedMap.cpp","src/AffineMap.cpp","src/SummarizedMap.cpp","src/MapFactory.cpp","src/TrainMap.cpp","src/MultiIndices/MultiIndexLimiter.cpp"],
[("argument validation","src/ParameterizedFunctionBase.cpp")],
["exceptions"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
