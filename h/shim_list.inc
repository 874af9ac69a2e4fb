U(acos) U(acosh) U(asin) U(asinh) U(atan) U(atanh) U(cbrt) U(cos) U(cosh) U(erf) U(erfc)
U(exp) U(exp2) U(expm1) U(lgamma) U(log) U(log10) U(log1p) U(log2) U(logb)
U(nearbyint) U(quantum) U(rint) U(sin) U(sinh) U(sqrt) U(tan) U(tanh) U(tgamma)
U(nextdown) U(nextup) U(ceil) U(fabs) U(floor) U(round) U(roundeven) U(trunc)
B(atan2) B(fdim) B(fmax) B(fmin) B(fmod) B(hypot) B(pow) B(quantize) B(remainder)
B(fmaxmag) B(fminmag) B(copysign) B(nextafter)
I(fpclassify) I(isfinite) I(isinf) I(isnan) I(issignaling) I(finite) I(ilogb) I(llogb)
I(llquantexp) I(lrint) I(lround) I(llrint) I(llround) I(__signbit) I(isnormal)
IB(samequantum) IB(isgreater) IB(isgreaterequal) IB(isless) IB(islessequal) IB(islessgreater) IB(isunordered)
MI(fpclassify) MI(signbit) MI(isfinite) MI(isnormal) MI(isinf) MI(isnan) MI(issignaling)
