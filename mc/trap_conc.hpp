#define exit(...) conc_exit_hook_()
#define _exit(...) conc_exit_hook_()
#define quick_exit(...) conc_exit_hook_()
