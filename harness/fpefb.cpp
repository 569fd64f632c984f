// ekat_fpe.cpp as compiled where there is no feenableexcept: its replacements get names of their own, and the fields of the local fenv_t.
#include <cfenv>
#include <string>
#undef EKAT_HAVE_FEENABLEEXCEPT
#define feenableexcept vp_feenableexcept
#define fedisableexcept vp_fedisableexcept
#define fegetexcept vp_fegetexcept
#define __control __control_word
#include "core/ekat_fpe.cpp"
