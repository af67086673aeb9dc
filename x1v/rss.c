/* rss FILE COMMAND...: run the command, write its largest resident set (kilobytes) and its time (milliseconds) to FILE. */
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

int main(int argc, char **argv)
{
    struct rusage u;
    int st;
    if (argc < 3)
        return 125;
    pid_t p = fork();
    if (p == 0) {
        execv(argv[2], argv + 2);
        _exit(126);
    }
    if (p < 0 || wait4(p, &st, 0, &u) != p)
        return 125;
    FILE *f = fopen(argv[1], "w");
    if (!f)
        return 125;
    fprintf(f, "%ld %ld\n", u.ru_maxrss, (long)(u.ru_utime.tv_sec * 1000 + u.ru_utime.tv_usec / 1000 + u.ru_stime.tv_sec * 1000 + u.ru_stime.tv_usec / 1000));
    fclose(f);
    if (WIFSIGNALED(st)) {
        signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
    }
    return WEXITSTATUS(st);
}
