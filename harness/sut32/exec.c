/* Program around the thunks on 32-bit x86 Linux: answers calls found in a page shared with the
 * forwarding library (fwd.c), which started it with that page as descriptor 3. No C library. */
typedef unsigned u32;
struct page {
    volatile u32 req, resp, asleep, idx, len, waiting, state, pad[9];
    u32 a[16], r[12];
};
extern u32 sut_table_len(void);
extern void sut_call(u32, const void *, void *);

static long sys(long n, long a, long b, long c, long d, long e)
{
    long r;
    __asm__ volatile("push %%ebp; xor %%ebp, %%ebp; int $0x80; pop %%ebp"
                     : "=a"(r) : "a"(n), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}

/* what a call may not leave behind: a changed control word, values on the x87 stack, the direction flag */
static u32 state(void)
{
    u32 env[7], fl, bad = 0;
    __asm__ volatile("fnstenv %0" : "=m"(env));
    __asm__ volatile("pushf; pop %0; cld" : "=r"(fl));
    if ((env[0] & 0x1f3f) != 0x33f)
        bad |= 1;
    if ((env[2] & 0xffff) != 0xffff)
        bad |= 2;
    if (fl & 0x400)
        bad |= 4;
#ifdef __SSE__
    u32 mx;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    if ((mx & 0xffc0) != 0x1f80)
        bad |= 8;
#endif
    if (bad) {
        __asm__ volatile("fninit");
    }
    return bad;
}

static u32 a[16] __attribute__((aligned(64))), r[12] __attribute__((aligned(64)));

__attribute__((noreturn, used)) void exec_main(void)
{
    struct page *p = (struct page *)sys(192, 0, 4096, 3, 1, 3); /* mmap2, shared */
    if ((u32)p > 0xfffff000u)
        sys(252, 3, 0, 0, 0, 0);
    p->len = sut_table_len();
    u32 done = 1;
    __atomic_store_n(&p->resp, 1, __ATOMIC_SEQ_CST);
    if (p->waiting)
        sys(240, (long)&p->resp, 1, 1, 0, 0);
    for (;;) {
        for (int i = 0; p->req == done && i < 3000; i++)
            __builtin_ia32_pause();
        while (p->req == done) {
            static const struct { long s, ns; } half = {0, 500000000};
            __atomic_store_n(&p->asleep, 1, __ATOMIC_SEQ_CST);
            if (p->req == done)
                sys(240, (long)&p->req, 0, done, (long)&half, 0); /* futex wait */
            __atomic_store_n(&p->asleep, 0, __ATOMIC_SEQ_CST);
        }
        done = p->req;
        for (int i = 0; i < 16; i++)
            a[i] = p->a[i];
        for (int i = 0; i < 12; i++)
            r[i] = 0;
        sut_call(p->idx, a, r);
        p->state = state();
        for (int i = 0; i < 12; i++)
            p->r[i] = r[i];
        __atomic_store_n(&p->resp, done, __ATOMIC_SEQ_CST);
        if (p->waiting)
            sys(240, (long)&p->resp, 1, 1, 0, 0); /* futex wake */
    }
}
__asm__(".globl _start\n_start:\n\txor %ebp, %ebp\n\tand $-16, %esp\n\tcall exec_main\n\thlt\n");
