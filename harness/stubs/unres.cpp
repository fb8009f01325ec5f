extern "C" void xsmp_verif_no_such_function();
extern "C" bool Initialise(void *, void *) { xsmp_verif_no_such_function(); return true; }
extern "C" bool Finalise(void *) { return true; }
