// Runs f() -> std::string in a process of its own, split off from this one, and returns its text.  Nothing that
// happens there is seen here, and the other way round.
#ifndef APART_H_
#define APART_H_

#include "../core/sim.h"

#include <errno.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

template <typename F>
inline std::string apart(F f)
{
    int p[2];
    if (pipe(p)) check_fail("harness", "no pipe");
    const pid_t pid = fork();
    if (pid < 0) check_fail("harness", "no process");
    if (pid == 0)
    {
        const std::string t = f();
        for (size_t at = 0; at < t.size();)
        {
            const ssize_t n = write(p[1], t.data() + at, t.size() - at);
            if (n <= 0) break;
            at += (size_t)n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string t;
    char b[4096];
    for (;;)
    {
        const ssize_t n = read(p[0], b, sizeof b);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) break;
        t.append(b, (size_t)n);
    }
    close(p[0]);
    waitpid(pid, nullptr, 0);
    return t;
}

}  // namespace sim

#endif
