/* The on-chain runtime for native replays: a bump heap as on chain, every syscall
   forwarded to a handler set by the replayer. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#define HEAP_LEN 32768
static uint8_t heap[HEAP_LEN] __attribute__((aligned(4096)));
static uint64_t pos = HEAP_LEN;
void shim_reset(void) { pos = HEAP_LEN; memset(heap, 0, sizeof heap); }
void *v_alloc(size_t size, size_t align) {
    uint64_t p = pos > size ? pos - size : 0;
    p &= ~((uint64_t)align - 1);
    if (p < 8) return NULL;
    pos = p;
    return heap + p;
}
typedef uint64_t (*fn)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
static fn table[16];
void shim_set(int i, fn f) { table[i] = f; }
#define A uint64_t a, uint64_t b, uint64_t c, uint64_t d, uint64_t e
#define F(i, name) uint64_t name(A) { return table[i](a, b, c, d, e); }
#define NOP(name) uint64_t name(A) { return 0; }
F(0, sol_sha256)
F(1, sol_get_clock_sysvar)
F(2, sol_get_epoch_schedule_sysvar)
F(3, sol_get_rent_sysvar)
F(4, sol_invoke_signed_rust)
F(5, sol_try_find_program_address)
F(6, sol_create_program_address)
NOP(sol_log_)
NOP(sol_log_data)
NOP(sol_log_64_)
NOP(sol_log_pubkey)
NOP(sol_log_compute_units_)
uint64_t sol_memcpy_(void *d, const void *s, uint64_t n) { memcpy(d, s, n); return 0; }
uint64_t sol_memmove_(void *d, const void *s, uint64_t n) { memmove(d, s, n); return 0; }
uint64_t sol_memset_(void *d, int c, uint64_t n) { memset(d, c, n); return 0; }
uint64_t sol_memcmp_(const void *d, const void *s, uint64_t n, int *r) { *r = memcmp(d, s, n); return 0; }
uint64_t sol_get_stack_height(void) { return 1; }
uint64_t shim_missing(A) { return 1; }
