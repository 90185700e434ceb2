#include "common.h"
#include <map>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Tracer T;
std::string SCRATCH;
std::vector<PopEvent> POPS;
extern "C" void slsm_trace_pop(unsigned int address, double value) { POPS.push_back({address, value}); }

static std::map<std::string, DriverFn>& drivers() { static std::map<std::string, DriverFn> m; return m; }
Reg::Reg(const char* id, DriverFn fn) { drivers()[id] = fn; }

ChildResult inChild(const std::function<void()>& f, int timeoutSec)
{
    ChildResult r{}; 
    fflush(T.f); fflush(stdout); fflush(stderr);
    int p[2];
    if (pipe(p)) { perror("pipe"); exit(90); }
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(90); }
    if (pid == 0)
    {
        dup2(p[1], 2); ::close(p[0]); ::close(p[1]);
        f();
        fflush(nullptr);
        _exit(0);
    }
    ::close(p[1]);
    time_t t0 = time(nullptr);
    char buf[4096];
    for (;;)
    {
        struct pollfd pf = { p[0], POLLIN, 0 };
        int n = poll(&pf, 1, 200);
        if (n > 0)
        {
            ssize_t k = read(p[0], buf, sizeof buf);
            if (k <= 0) break;
            if (r.err.size() < 20000) r.err.append(buf, k);
        }
        if (time(nullptr) - t0 > timeoutSec) { r.timeout = true; kill(pid, SIGKILL); break; }
    }
    ::close(p[0]);
    waitpid(pid, &r.status, 0);
    r.exited = WIFEXITED(r.status);
    r.code = r.exited ? WEXITSTATUS(r.status) : -1;
    r.sig = WIFSIGNALED(r.status) ? WTERMSIG(r.status) : 0;
    return r;
}

int main(int argc, char** argv)
{
    if (argc < 6) { fprintf(stderr, "usage: drv ID seed tier trace scratch\n"); return 90; }
    auto it = drivers().find(argv[1]);
    if (it == drivers().end()) { fprintf(stderr, "no driver %s\n", argv[1]); return 90; }
    SCRATCH = argv[5];
    T.open(argv[4]);
    it->second(strtoull(argv[2], nullptr, 10), std::string(argv[3]) == "thorough");
    int n = T.cases;
    T.close();
    printf("CASES %d\n", n);
    return 0;
}
