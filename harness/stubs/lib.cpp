// A loadable library reporting its initialisation and finalisation.
extern "C" bool vh_lib_event(const char *what, void *sim);
#ifndef RESULT
#define RESULT true
#endif
extern "C" bool Initialise(void *sim, void *types) {
  vh_lib_event("lib+:" NAME, types ? sim : nullptr);
  return RESULT;
}
extern "C" bool Finalise(void *sim) {
  vh_lib_event("lib-:" NAME, sim);
  return RESULT;
}
