/* Puts a whole program under the simulator: linked into the command line tools together with
 * simrt.c.  When BBSIM_FD names an inherited plan, the constructor starts the simulation before
 * main; without it the program runs as usual. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "simrt.h"

void sim_set_shared(sim_shared *p);
void sim_set_fatal(void (*cb)(int, const char *));
void sim_begin(const sim_cfg *c, const sim_switch *sw, int nsw, const sim_faultrec *f, int nf, int replay);
void sim_get_stats(sim_stats *o);
void sim_stdout(int mode);
int  sim_file(const char *path, const char *data, size_t len);
void sim_prefixes(const char *rd, const char *wr);

#define CLI_MAGIC 0xB0057C11u
typedef struct {
    uint32_t magic;
    int32_t replay, nsw, nf;
    int32_t fatal_kind, begun, ended, nfiles;
    char fatal_msg[256];
    char rd[256], wr[256];
    struct { char path[256]; uint64_t off, len; } files[8];
    sim_cfg cfg;
    sim_shared out;
    sim_switch sw[SIM_MAXLOG];
    sim_faultrec flt[SIM_MAXFLT];
} cli_plan;

static cli_plan *plan;

static void on_fatal(int kind, const char *msg)
{
    plan->fatal_kind = kind;
    snprintf(plan->fatal_msg, sizeof plan->fatal_msg, "%s", msg);
    _exit(90);
}

__attribute__((constructor)) static void cli_start(void)
{
    const char *e = getenv("BBSIM_FD");
    if (!e) return;
    int fd = atoi(e);
    struct stat s;
    if (fstat(fd, &s) || (size_t)s.st_size < sizeof(cli_plan)) _exit(91);
    plan = mmap(0, (size_t)s.st_size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (plan == MAP_FAILED || plan->magic != CLI_MAGIC) _exit(92);
    close(fd);
    for (int i = 0; i < plan->nfiles; i++)
        if (sim_file(plan->files[i].path, (char *)plan + plan->files[i].off, plan->files[i].len) < 0) _exit(93);
    sim_prefixes(plan->rd, plan->wr);
    sim_set_shared(&plan->out);
    sim_set_fatal(on_fatal);
    plan->begun = 1;
    sim_begin(&plan->cfg, plan->sw, plan->nsw, plan->flt, plan->nf, plan->replay);
    sim_stdout(3);  /* faults apply, bytes go to the real descriptor */
}

__attribute__((destructor)) static void cli_end(void)
{
    if (!plan) return;
    sim_stats s;
    sim_get_stats(&s);
    plan->ended = 1;
}
