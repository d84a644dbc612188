// Counts the blocks of memory in use, and those that the library itself asked for; makes one of its requests fail.
#include <cstddef>
#include <cstring>
#include <new>
#include <cstdint>
#include <link.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

static long vf_live;                    // blocks in use, whoever asked for them
static int vf_armed;
static long vf_made, vf_fail_at;        // requests of the library since it was armed; the one that fails
static const int MANY = 1 << 12;
static void *vf_own[MANY];              // blocks of the library in use
static long vf_nown;

// where the code of the library is
static const int PLACES = 4096;
static uintptr_t vf_from[PLACES], vf_to[PLACES];
static int vf_places;
static unsigned long long vf_adds;

static int look(struct dl_phdr_info *o, size_t, void *)
{
    if (o->dlpi_name && std::strstr(o->dlpi_name, "/ufunclab/")) {
        for (int k = 0; k < o->dlpi_phnum; ++k) {
            const auto &p = o->dlpi_phdr[k];
            if (p.p_type == PT_LOAD && (p.p_flags & PF_X) && vf_places < PLACES) {
                vf_from[vf_places] = o->dlpi_addr + p.p_vaddr;
                vf_to[vf_places++] = o->dlpi_addr + p.p_vaddr + p.p_memsz;
            }
        }
    }
    return 0;
}

static int adds(struct dl_phdr_info *o, size_t, void *r)
{
    *(unsigned long long *) r = o->dlpi_adds;
    return 1;
}

static void survey()
{
    unsigned long long now = 0;
    dl_iterate_phdr(adds, &now);
    if (now != vf_adds) {
        vf_places = 0;
        vf_adds = 0;
        dl_iterate_phdr(look, nullptr);
        vf_adds = now;
    }
}

static bool mine(void *from)
{
    if (vf_armed) {
        for (int k = 0; k < vf_places; ++k) {
            if ((uintptr_t) from >= vf_from[k] && (uintptr_t) from < vf_to[k]) {
                return true;
            }
        }
    }
    return false;
}

static bool refuse(bool own, size_t n)
{
    if (!own || n == 0) {
        return false;
    }
    ++vf_made;
    return vf_made == vf_fail_at;
}

static void *took(void *p, bool own)
{
    if (p != nullptr) {
        __atomic_add_fetch(&vf_live, 1, __ATOMIC_RELAXED);
        if (own && vf_nown < MANY) {
            vf_own[vf_nown++] = p;
        }
    }
    return p;
}

static void gave(void *p)
{
    if (p == nullptr) {
        return;
    }
    __atomic_sub_fetch(&vf_live, 1, __ATOMIC_RELAXED);
    for (long k = vf_nown - 1; k >= 0; --k) {
        if (vf_own[k] == p) {
            vf_own[k] = vf_own[--vf_nown];
            break;
        }
    }
}

#define FROM __builtin_return_address(0)

extern "C" {
void *malloc(size_t n)
{
    bool own = mine(FROM);
    return refuse(own, n) ? nullptr : took(__libc_malloc(n), own);
}
void *calloc(size_t m, size_t n)
{
    bool own = mine(FROM);
    return refuse(own, m*n) ? nullptr : took(__libc_calloc(m, n), own);
}
void *realloc(void *p, size_t n)
{
    bool own = mine(FROM);
    if (refuse(own, n)) {
        return nullptr;
    }
    void *q = __libc_realloc(p, n);
    if (q != nullptr || n == 0) {
        gave(p);
        took(q, own);
    }
    return q;
}
void *memalign(size_t a, size_t n) { bool own = mine(FROM); return refuse(own, n) ? nullptr : took(__libc_memalign(a, n), own); }
void *aligned_alloc(size_t a, size_t n) { bool own = mine(FROM); return refuse(own, n) ? nullptr : took(__libc_memalign(a, n), own); }
int posix_memalign(void **r, size_t a, size_t n)
{
    bool own = mine(FROM);
    if (refuse(own, n)) {
        return 12;
    }
    *r = took(__libc_memalign(a, n), own);
    return *r == nullptr ? 12 : 0;
}
void free(void *p) { gave(p); __libc_free(p); }

long vf_blocks() { return vf_live; }
long vf_left() { return vf_nown; }
long vf_requests() { return vf_made; }
void vf_arm(long fail_at) { survey(); vf_made = 0; vf_nown = 0; vf_fail_at = fail_at; vf_armed = 1; }
void vf_disarm() { vf_armed = 0; vf_fail_at = 0; }
}

static void *fresh(size_t n, bool own, bool raise)
{
    void *p = refuse(own, n) ? nullptr : took(__libc_malloc(n ? n : 1), own);
    if (p == nullptr && raise) {
        throw std::bad_alloc();
    }
    return p;
}
void *operator new(size_t n) { return fresh(n, mine(FROM), true); }
void *operator new[](size_t n) { return fresh(n, mine(FROM), true); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return fresh(n, mine(FROM), false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return fresh(n, mine(FROM), false); }
void operator delete(void *p) noexcept { gave(p); __libc_free(p); }
void operator delete[](void *p) noexcept { gave(p); __libc_free(p); }
void operator delete(void *p, size_t) noexcept { gave(p); __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { gave(p); __libc_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { gave(p); __libc_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { gave(p); __libc_free(p); }
