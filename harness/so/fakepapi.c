// Stand-in for libpapi: forwards every call to the harness, which owns the clock and the counters.
extern int vh_papi_library_init(int);
extern int vh_papi_create_eventset(int*);
extern int vh_papi_cleanup_eventset(int);
extern int vh_papi_destroy_eventset(int*);
extern int vh_papi_add_named_event(int, const char*);
extern int vh_papi_start(int);
extern int vh_papi_stop(int, long long*);
extern int vh_papi_reset(int);
extern int vh_papi_read(int, long long*);
extern const char* vh_papi_strerror(int);
extern long long vh_papi_get_real_nsec(void);
int PAPI_library_init(int v) { return vh_papi_library_init(v); }
int PAPI_create_eventset(int* e) { return vh_papi_create_eventset(e); }
int PAPI_cleanup_eventset(int e) { return vh_papi_cleanup_eventset(e); }
int PAPI_destroy_eventset(int* e) { return vh_papi_destroy_eventset(e); }
int PAPI_add_named_event(int e, const char* n) { return vh_papi_add_named_event(e, n); }
int PAPI_start(int e) { return vh_papi_start(e); }
int PAPI_stop(int e, long long* v) { return vh_papi_stop(e, v); }
int PAPI_reset(int e) { return vh_papi_reset(e); }
int PAPI_read(int e, long long* v) { return vh_papi_read(e, v); }
const char* PAPI_strerror(int c) { return vh_papi_strerror(c); }
long long PAPI_get_real_nsec(void) { return vh_papi_get_real_nsec(); }
