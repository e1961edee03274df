#!/usr/bin/env python3
"""Writes known_findings.json: findings that stay open, and the defects repaired by "fix:" commits in /repo."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 dict(property="C14", key="sigmoid-gradient-args", desc="^sigmoid ",
      what="Sigmoid1d::GradientImpl and CoeffGradImpl (MParT/Sigmoid.h) take their first two arguments in the opposite order of ParameterizedFunctionBase: called as (points, sensitivities) they differentiate at the sensitivities. The existing tests call them in the swapped order, so the repair would break them."),
 dict(property="C10", key="rectifier-overflow-terminate",
      what="With the Exp rectifier and an expansion derivative above 709 MonotoneIntegrand throws inside a parallel region, where the exception cannot be caught: the process ends in std::terminate (MParT/MonotoneIntegrand.h)."),
]
FIX = """C13 cfb5837 MultiIndex::Get/Set accepted an index equal to the length
C13 0f55bb1 FixedMultiIndexSet::MultiToIndex read past nzStarts
C13 4b0227e dense FixedMultiIndexSet left the end of its last term unset
C12 98c74e8 forced expansion iterated over reallocated edge lists
C12 abaa129 MultiIndexSet::Expand returned new indices twice
C12 ccd99f9 a rejected MultiIndexSet::SetLimiter changed the set
C12 0e61736 ReducedMargin returned terms that are not admissible
C12 15f3921 AddActive accepted known inactive terms the current limiter excludes
C12 8ca998a SetLimiter left edges of excluded terms and lost edges of terms allowed again
C01 86217b8 nugget left out of discrete log-determinants and values
C05 f3d669d discrete mixed Jacobian was overwritten by the quadrature
C02 52f7d9c inverse of one-dimensional components with an empty prefix
C11 752e009 TriangularMap wrote its components twice
C04 e783edf AffineMap::LogDeterminantInputGrad left its output unset
C05 9622358 IdentityMap coefficient gradients wrote outside their empty output
C16 3c76db7 NaN targets and functions in the inverse search
C07 e06aedc SetCoeffs accepted arrays of the wrong length
C14 b844c13 Factorial overflowed for orders above 12
C14 7ce5ea2 derivative of order 1 of normalized polynomials
C14 18d8a57 HermiteFunction::SecondDerivative
C14 66d6eaf SoftPlus::Inverse lost accuracy for small arguments
C15 fb8e0c3 adaptive quadrature never ended on non-finite integrands
C15 fb6b3c8 adaptive quadrature went one level past its workspace
C15 3783f10 adaptive quadrature with more than 31 levels shifted out of range
C23 06619fa CreateComponent accepted too few quadrature points
C23 5c2ecb1 CreateTriangular accepted more outputs than inputs
C08 5d0c2c8 SummarizedMap assumed one memory layout
C17 ad63ed4 dense and compressed sets gave different expansions
C10 21db6fa KokkosToMat and KokkosToVec overflowed their strides
C05 38bd10f differentiating fixed Clenshaw-Curtis components aborted
C21 5c71bf5 dgemm with beta=0 used the previous content of C
C10 3945d38 PartialPivLU and Cholesky used an uninitialized flag
C02 8e5c591 AffineMap::InverseImpl with padded outputs
C15 a4278f3 Clenshaw-Curtis on a reversed interval used the midpoint rule
C14 1c96670 SoftPlus underflowed to zero for arguments below -36
C15 6dcb144 AdaptiveClenshawCurtis built from views used a coarser rule than their size
C08 4584bb2 blocks of row-major Eigen matrices (and sliced numpy arrays) were read as if contiguous
C18 9ecc4ee dense-covariance Gaussians aborted unless every array was column-major
C18 7826eaa Gaussian log-densities ignored the stride of their output vector
C19 e8df1b7 objective gradients ignored the stride of their output vector
C19 59fd943 training with derivative-free optimizers wrote through a null gradient pointer
C18 01f2a0c PullbackDensity::LogDensityCoeffGrad for Eigen matrices returned the input gradient
C18 5fb50ef Gaussian log-densities became infinite when the covariance determinant under- or overflowed
C19 b896a3a TrainMap left coefficients worse than the start, or not those of the returned value, or threw
C10 3569d65 TrainMapAdaptive read past the end of the reduced margin
C20 c345d7c TrainMapAdaptive used uninitialized indices when no term could be added
C20 508782e TrainMapAdaptive lost the initial sets when nothing improved on them
C18 171cfd5 CreatePullback and CreatePushforward did not compile
C10 75bdc5a evaluating a component at zero points divided by zero
C20 f0ec8fc TrainMapAdaptive returned a map with a worse test error than the initial one
C23 4bb6fdb point, sensitivity and target arrays of the wrong shape were read out of bounds instead of being rejected
C23 497b8c8 AffineMap and AffineFunction accepted a matrix and a shift of incompatible sizes
C23 b5c4502 triangular and composed maps without components were accepted and read out of bounds
C23 65e298c basis bounds in the wrong order were accepted
C23 f70be84 identity maps with more outputs than inputs were accepted
C23 50ea043 Gaussian distributions accepted a covariance of the wrong shape
C23 d4c1ce2 Cholesky of a matrix that is not positive definite returned a result
C22 ecde054 FixedMultiIndexSet(dim, orders) in Python kept a pointer into a temporary array
C22 e8d6a99 the torch wrappers left maps with pointers into freed or non-contiguous tensors
C22 20ddd86 ConditionalMapBase.torch() lost the map type
C22 722950d the array returned by CoeffMap did not keep the coefficients alive
C22 9b32466 FromBytes returned maps without their conditional-map interface
C22 e894b4f WrapCoeffs in Python wrapped a temporary copy of non-contiguous arrays"""
import subprocess
fx = []
for l in FIX.split("\n"):
    p, h, w = l.split(" ", 2)
    fx.append("fixed: property=%s %s %s" % (p, h, w))
json.dump({"findings": F, "fixed": fx}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
