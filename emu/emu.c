/* Preloaded into the cpuid program: every CPUID instruction the program
 * executes from its own start on traps (CPUID faulting) and is answered for
 * the synthetic CPU in the file named by EMU_MACHINE. What it executed is
 * written to the file named by EMU_LOG as pairs (leaf, sub-leaf).
 * Exit code 77: this machine has no CPUID faulting. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>

struct head { uint64_t kind, seed, n; };
struct cell { uint32_t leaf, sub, r[4]; };
static struct head *head;
static struct cell *cells;
static int log_fd = -1;
static uint32_t buf[2048];
static unsigned fill;

static uint64_t mix(uint64_t x) {
    uint64_t z = x + 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

static void answer(uint32_t leaf, uint32_t sub, uint32_t r[4]) {
    uint64_t k = (uint64_t)leaf << 32 | sub, lo = 0, hi = head->n;
    while (lo < hi) {
        uint64_t mid = (lo + hi) / 2, c = (uint64_t)cells[mid].leaf << 32 | cells[mid].sub;
        if (c == k) {
            for (int i = 0; i < 4; i++) r[i] = cells[mid].r[i];
            return;
        }
        if (c < k) lo = mid + 1; else hi = mid;
    }
    if (head->kind < 2) {
        for (int i = 0; i < 4; i++) r[i] = head->kind ? ~0u : 0;
        return;
    }
    uint64_t x = mix(head->seed ^ mix(k)), y = mix(x ^ 0xABCDEF01ull);
    r[0] = (uint32_t)x; r[1] = x >> 32; r[2] = (uint32_t)y; r[3] = y >> 32;
}

static void flush(void) {
    if (log_fd >= 0 && fill) (void)!write(log_fd, buf, fill * 4);
    fill = 0;
}

static void on_segv(int sig, siginfo_t *si, void *ctx) {
    greg_t *g = ((ucontext_t *)ctx)->uc_mcontext.gregs;
    const uint8_t *ip = (const uint8_t *)g[REG_RIP];
    if (si->si_code != SI_KERNEL || ip[0] != 0x0f || ip[1] != 0xa2) {
        signal(sig, SIG_DFL); /* a fault of the program's own */
        return;
    }
    uint32_t leaf = g[REG_RAX], sub = g[REG_RCX], r[4];
    answer(leaf, sub, r);
    g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3];
    g[REG_RIP] += 2;
    if (fill == 2048) flush();
    buf[fill++] = leaf; buf[fill++] = sub;
}

__attribute__((constructor)) static void start(void) {
    const char *f = getenv("EMU_MACHINE"), *l = getenv("EMU_LOG");
    if (!f) return;
    int fd = open(f, O_RDONLY | O_CLOEXEC);
    struct stat st;
    if (fd < 0 || fstat(fd, &st)) _exit(78);
    head = mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
    close(fd);
    if (head == MAP_FAILED) _exit(78);
    cells = (struct cell *)(head + 1);
    if (l) log_fd = open(l, O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    unsetenv("LD_PRELOAD"); unsetenv("EMU_MACHINE"); unsetenv("EMU_LOG");
    struct sigaction sa = {0};
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    if (sigaction(SIGSEGV, &sa, 0)) _exit(78);
    if (syscall(SYS_arch_prctl, 0x1012, 0)) _exit(77);
}

__attribute__((destructor)) static void end(void) { flush(); }
