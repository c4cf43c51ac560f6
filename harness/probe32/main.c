// Runs the stack probe of 32-bit x86 on a stack whose pages appear only when touched.
//   main SEED MILLISECONDS MOVES REACH
// MOVES: the probe returns with the frame already taken off the stack pointer.
// REACH: how far below the frame it may touch.
// Prints V lines for violations, S lines for samples, N calls distinct pages at the end.
typedef unsigned u;
typedef unsigned long long uu;
extern u probe_address(void);
#define PAGE 4096u

u saved, target, in_r[8], out_r[8], out_fl; // ebx ecx edx esi edi ebp eax esp
unsigned char fx_in[512] __attribute__((aligned(16))), fx_out[512] __attribute__((aligned(16)));
void go(void);
__asm__(".text\n.globl go\ngo:\n"
        "pushal\npushfl\nmov %esp, saved\nfxrstor fx_in\n"
        "mov in_r, %ebx\nmov in_r+4, %ecx\nmov in_r+8, %edx\nmov in_r+12, %esi\nmov in_r+16, %edi\nmov in_r+20, %ebp\nmov in_r+24, %eax\nmov in_r+28, %esp\n"
        "call *target\n"
        "mov %ebx, out_r\nmov %ecx, out_r+4\nmov %edx, out_r+8\nmov %esi, out_r+12\nmov %edi, out_r+16\nmov %ebp, out_r+20\nmov %eax, out_r+24\nmov %esp, out_r+28\n"
        "mov saved, %esp\nfxsave fx_out\npushfl\npopl out_fl\npopfl\npopal\nret\n"
        ".globl back\nback:\nmov $173, %eax\nint $0x80\n"
        ".globl _start\n_start:\nmov %esp, %eax\nand $-16, %esp\nsub $12, %esp\npush %eax\ncall start\n");
extern void back(void);

static u sys6(u n, u a, u b, u c, u d, u e, u f) {
    u r;
    struct { u n, f; } x = {n, f};
    __asm__ volatile("push %%ebp\nmov 4(%%eax), %%ebp\nmov (%%eax), %%eax\nint $0x80\npop %%ebp" : "=a"(r) : "a"(&x), "b"(a), "c"(b), "d"(c), "S"(d), "D"(e) : "memory");
    return r;
}
#define sys(n, a, b, c) sys6(n, (u)(a), (u)(b), (u)(c), 0, 0, 0)

static char line[512];
static u len;
static void put(const char *s) {
    while (*s && len < 500) line[len++] = *s++;
}
static void hex(u v) {
    char t[12], *p = t + 11;
    *p = 0;
    do *--p = "0123456789abcdef"[v & 15]; while (v >>= 4);
    put("0x");
    put(p);
}
static void dec(uu v) {
    char t[24], *p = t + 23;
    *p = 0;
    u hi = v >> 32, lo = v;
    do { // v / 10 without the 64-bit division routine
        u q1 = hi / 10, r = hi % 10, q0;
        __asm__("divl %4" : "=a"(q0), "=d"(r) : "0"(lo), "1"(r), "r"(10u));
        *--p = '0' + r;
        hi = q1;
        lo = q0;
    } while (hi | lo);
    put(p);
}
static void flush(void) {
    line[len++] = '\n';
    sys(4, 1, line, len);
    len = 0;
}
static void quit(u c) {
    for (;;) sys(252, c, 0, 0);
}

static u lo, hi, size, off, *pages, npages, inside, nviol;
static uu calls, touched;
static void bad(const char *what, u a) {
    if (nviol++ >= 4) return;
    put("V frame size ");
    hex(size);
    put(", stack pointer at page offset ");
    hex(off);
    put(": ");
    put(what);
    hex(a);
    flush();
}
static void caught(int sig, u *info, u *uc) {
    u a = info[3];
    if (sig == 11 && inside && a >= lo && a < hi && npages < (1u << 19)) {
        pages[npages++] = a;
        if (sys(125, a & -PAGE, PAGE, 3) == 0) return;
        put("E cannot map");
        flush();
        quit(3);
    }
    if (sig == 14 && !inside) return;
    if (inside) {
        bad(sig == 14 ? "does not return, pages touched " : "ends with a fault at ", sig == 14 ? npages : a);
        quit(0);
    }
    put("E signal outside a call");
    flush();
    quit(3);
}

static uu rs;
static u rnd(void) {
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    u x = rs >> 32;
    x ^= x >> 15;
    return x * 0x2c1b3c6du;
}
static u now(void) {
    u t[2];
    sys(265, 1, t, 0);
    return t[0] * 1000 + t[1] / 1000000;
}

static u moves, reach;
static const char *const names[] = {"ebx holds ", "ecx holds ", "edx holds ", "esi holds ", "edi holds ", "ebp holds ", "eax holds ", "esp holds "};
static void one(u sz, u of) {
    size = sz;
    off = of & (PAGE - 1);
    u s = hi - 2 * PAGE + of; // the caller's stack pointer
    if (sz > s - lo - 4 * PAGE) return;
    for (u i = 0; i < 6; i++) in_r[i] = rnd();
    in_r[6] = sz;
    in_r[7] = s;
    for (u i = 32; i < 288; i++) fx_in[i] = i % 16 == 9 && i < 160 ? 0x40 : rnd();
    for (u i = 32; i < 160; i += 16) fx_in[i + 7] |= 0x80;
    npages = 0;
    inside = 1;
    sys(27, 20, 0, 0);
    go();
    inside = 0;
    calls++;
    touched += npages;
    for (u i = 0; i < 8; i++) {
        u want = i == 7 && moves ? in_r[7] - sz : in_r[i];
        if (out_r[i] != want) bad(names[i], out_r[i]);
    }
    for (u i = 32; i < 288; i++) {
        if (i < 160 && i % 16 > 9) continue;
        if (fx_in[i] != fx_out[i]) {
            bad(i < 160 ? "an x87 register changed, byte " : "an SSE register changed, byte ", i - 32);
            break;
        }
    }
    if (out_fl & 0x400) bad("direction flag set, flags ", out_fl);
    // first touches: consecutive pages downwards, from the one the call itself used to the end of the frame
    u end = s - sz, first = s - 4, last;
    if (!npages || (pages[0] & -PAGE) != (first & -PAGE)) bad("the call did not touch the stack first but ", npages ? pages[0] : 0);
    last = pages[0];
    for (u i = 1; i < npages; i++) {
        if ((pages[i] & -PAGE) + PAGE != (last & -PAGE)) {
            bad("a page is skipped, touched out of order at distance ", s - pages[i]);
            break;
        }
        last = pages[i];
    }
    u low = end - reach < s - 24 ? end - reach : s - 24;
    if ((last & -PAGE) > (end & -PAGE) && sz) bad("the frame's last page was not touched, deepest touch at distance ", s - last);
    if (last < (low & -PAGE)) bad("touched further down than the frame, distance ", s - last);
    if (calls > 16 && (calls & (calls - 1)) == 0) {
        put("S size=");
        hex(sz);
        put(" offset=");
        hex(off);
        put(": ");
        dec(npages);
        put(" pages touched in order");
        flush();
    }
    // take the pages away again
    u from = (npages ? pages[npages - 1] : s) & -PAGE;
    if (sys6(192, from, hi - from, 0, 0x4032, -1, 0) != from) {
        put("E cannot unmap");
        flush();
        quit(3);
    }
}
static u num(const char *s) {
    u v = 0;
    while (*s) v = v * 10 + *s++ - '0';
    return v;
}

__attribute__((force_align_arg_pointer)) void start(u *sp) {
    char **argv = (char **)(sp + 1);
    if (sp[0] < 5) quit(2);
    rs = num(argv[1]) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
    u until = now() + num(argv[2]);
    moves = num(argv[3]);
    reach = num(argv[4]);
    target = probe_address();
    u span = 1100u << 20;
    lo = sys6(192, 0, span, 0, 0x4022, -1, 0);
    pages = (u *)sys6(192, 0, 4u << 19, 3, 0x4022, -1, 0);
    u alt = sys6(192, 0, 1u << 16, 3, 0x22, -1, 0);
    if (lo > -4096u || (u)pages > -4096u || alt > -4096u) quit(4);
    hi = lo + span;
    u st[3] = {alt, 0, 1u << 16};
    sys(186, st, 0, 0);
    static const int sigs[] = {11, 7, 4, 5, 8, 14};
    for (u i = 0; i < 6; i++) {
        u sa[5] = {(u)caught, 0x0c000004, (u)back, 0, 0};
        if (sys6(174, sigs[i], (u)sa, 0, 8, 0, 0)) quit(4);
    }
    __asm__ volatile("fxsave fx_in" ::: "memory");
    *(unsigned short *)(fx_in) = 0x37f;
    fx_in[4] = 0xff;
    static const u offs[] = {4, 8, 12, 16, 20, 24, 28, 32, 0x7fc, 0x800, 0xfec, 0xff0, 0xff4, 0xff8, 0xffc, 0x1000, 0x1004, 0x1008, 0x100c};
    static const u mult[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 33};
    uu distinct = 0;
    for (u m = 0; m < 11; m++)
        for (int d = -20; d <= 20; d++) {
            if ((int)(mult[m] * PAGE) + d < 0) continue;
            for (u o = 0; o < 19; o++) {
                one(mult[m] * PAGE + d, offs[o]);
                distinct++;
                if (nviol > 3) goto out;
            }
        }
    one((1u << 30) + 0x2344, 0x700);
    distinct++;
    while (nviol < 4 && now() < until) {
        for (u k = 0; k < 64 && nviol < 4; k++) {
            u s = 0;
            switch (rnd() % 8) {
            case 0: s = rnd() % 4096; break;
            case 1: case 2: s = rnd() % 65536; break;
            case 3: s = 4096 * (rnd() % 200) + rnd() % 40; break;
            case 4: s = 4096 * (1 + rnd() % 200) - rnd() % 40; break;
            case 5: s = rnd() % (1u << 20); break;
            case 6: s = 1u << rnd() % 24; break;
            default: s = rnd() % (rnd() % 8 ? 4u << 20 : 80u << 20);
            }
            one(s, 4 * (1 + rnd() % 1024));
        }
    }
out:
    put("N ");
    dec(calls);
    put(" ");
    dec(distinct);
    put(" ");
    dec(touched);
    flush();
    quit(0);
}
