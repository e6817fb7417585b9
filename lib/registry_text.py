FFT_MODEL = "frequency-domain transform replaced by its exact value (harness/fftstub.hpp): evaluation at the two complex roots; the assembly kernels and their rounding are outside"
RNG_MODEL = "random draws are unconstrained solver inputs of their stated range (harness/rngstub.hpp); Gaussian noise is zero unless a unit says otherwise"
MINI = "ring dimensions and vector lengths replaced in the repository's own parameter file; everything else as shipped"
