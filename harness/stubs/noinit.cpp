extern "C" bool Finalise(void *) { return true; }
