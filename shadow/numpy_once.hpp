// Force-included: one numpy table for the whole program.  The front end keeps one per source file otherwise, which is
// filled in one of them only, and is not to be found from the others when functions are inlined.
#ifndef VERIF_NUMPY_ONCE
#define VERIF_NUMPY_ONCE
#define PY_ARRAY_UNIQUE_SYMBOL verif_numpy_table
int verif_import_array();
#ifndef VERIF_HARNESS
#define NO_IMPORT_ARRAY
#define import_array() do { if(verif_import_array() < 0) return NULL; } while(0)
#endif
#endif
