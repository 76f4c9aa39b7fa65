// Replaces <assert.h> for the code under test: whether assertions are compiled in (as in the debug
// build the tests use) or out (as in the shipped release build) is a per-run configuration choice.
#undef assert
#ifdef __cplusplus
extern "C" {
#endif
extern int sim_asserts_on;
void sim_assert_failed(const char* expr, const char* file, int line);
#ifdef __cplusplus
}
#endif
#define assert(e) ((void)(sim_asserts_on ? ((e) ? 0 : (sim_assert_failed(#e, __FILE__, __LINE__), 0)) : 0))
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
