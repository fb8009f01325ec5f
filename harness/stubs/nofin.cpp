extern "C" bool Initialise(void *, void *) { return true; }
