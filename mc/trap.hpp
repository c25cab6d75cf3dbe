// Included after mc.hpp and after every third-party header, right before the vif headers: a vif program
// that terminates itself (failed run-time check) becomes an observable "rejected" outcome.
#define exit(...) mc_exit_hook_(__VA_ARGS__)
#define _exit(...) mc_exit_hook_(__VA_ARGS__)
#define quick_exit(...) mc_exit_hook_(__VA_ARGS__)
#define abort(...) mc_abort_hook_(__VA_ARGS__)
#define terminate(...) mc_abort_hook_(__VA_ARGS__)
