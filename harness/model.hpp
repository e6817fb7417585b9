// One include for harnesses over the scheme: the library's headers with the
// frequency-domain transform and the random generator modelled.
#pragma once
#include "sym.hpp"
#include "fftstub.hpp"
#include "rngstub.hpp"
#include "tfhe++.hpp"
