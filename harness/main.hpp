// Replay driver: runs one harness function of the real code on concrete
// arguments, one forked child per line of stdin, and prints what happened.
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
static void hv_print(const char * k, int code, int sys, const u64 * out, int nout, const u64 * after, int na){
    printf("%s %d %d", k, code, sys);
    for(int i = 0; i < nout; ++i) printf(" %llu", out[i]);
    for(int i = 0; i < na; ++i) printf(" %lld", (i64)after[i]);
    printf("\n");
    fflush(stdout);
}
template<class F> void hv_loop(int nargs, int nout, F f){
    u64 a[16];
    for(;;){
        for(int i = 0; i < nargs; ++i) if(scanf("%llu", &a[i]) != 1) return;
        fflush(stdout);
        pid_t p = fork();
        if(p == 0){
            int n = open("/dev/null", O_WRONLY); if(n >= 0) dup2(n, 2);
            alarm(10);
            u64 out[64] = {0}, after[16] = {0};
            int na = 0;
            try { f(a, out, after, &na); hv_print("normal", 0, 1, out, nout, after, na); }
            catch(const std::system_error & e){
                bool sn = e.code().category() == make_error_code(safe_numerics_error::success).category();
                hv_print("threw", e.code().value(), sn, out, nout, after, na);
            }
            catch(...){ hv_print("threw", 0, 0, out, nout, after, na); }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if(st != 0){ printf("trap %d\n", st); fflush(stdout); }
        if(nargs == 0) return;
    }
}
