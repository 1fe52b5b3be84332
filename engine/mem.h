// Guest memory: an arena with a validity shadow (1 byte per 8 bytes).
#pragma once
#include <sys/mman.h>
#include <map>
#include <vector>
#include "expr.h"

static const u64 TAGHI = 0x7FFD5B0Cull;
static const u32 TAG12 = 0xB5E;
inline bool isSym(u64 v) { return (v >> 32) == TAGHI; }
inline u64 box(u32 id) { return TAGHI << 32 | id; }
inline u32 unbox(u64 v) { return (u32)v; }

struct Arena {
  u64 base = 0, size = 0, top = 0;
  u8 *sh = nullptr;  // shadow
  std::vector<std::vector<u64>> freeL;
  u64 stackBase = 0, stackTop = 0, stackEnd = 0;
  u64 liveBytes = 0;
  void init() {
    size = 24ull << 30;
    base = (u64)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sh = (u8 *)mmap(nullptr, size / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void *)base == MAP_FAILED || (void *)sh == MAP_FAILED) {
      perror("mmap");
      exit(3);
    }
    stackBase = stackTop = base + 4096;
    stackEnd = base + (2ull << 30);
    top = stackEnd + 4096;
    freeL.resize(64);
  }
  bool in(u64 a) const { return a - base < size; }
  void mark(u64 a, u64 n) {
    u8 *s = sh + ((a - base) >> 3);
    memset(s, 8, n / 8);
    if (n % 8) s[n / 8] = n % 8;
  }
  void unmark(u64 a, u64 n) { memset(sh + ((a - base) >> 3), 0, (n + 7) / 8); }
  static void poison(u64 a, u64 n) {
    u64 v = box(ID_UNINIT);
    u64 *p = (u64 *)a;
    for (u64 i = 0; i < n / 8; ++i) p[i] = v;
    if (n % 8) memcpy((void *)(a + n / 8 * 8), &v, n % 8);
  }
  static int cls(u64 n) {
    int c = 0;
    u64 s = 32;
    while (s < n) {
      s <<= 1;
      ++c;
    }
    return c;
  }
  // header: 16 bytes before the object holds size and class; 16+ redzone after
  u64 alloc(u64 n, bool zero = false) {
    u64 need = n + 16 + 16;
    int c = cls(need);
    u64 blk;
    if (!freeL[c].empty()) {
      blk = freeL[c].back();
      freeL[c].pop_back();
    } else {
      u64 sz = 32ull << c;
      if (top + sz > base + size) unsupported("guest heap exhausted");
      blk = top;
      top += sz;
    }
    u64 *h = (u64 *)blk;
    h[0] = n;
    h[1] = 0xA110CA7Eull << 32 | c;
    u64 a = blk + 16;
    mark(a, n);
    if (zero)
      memset((void *)a, 0, n);
    else
      poison(a, (n + 7) / 8 * 8);
    if (zero && n % 8) {}
    liveBytes += n;
    return a;
  }
  // returns false on an invalid free
  bool release(u64 a) {
    u64 *h = (u64 *)(a - 16);
    if (a % 16 || (h[1] >> 32) != 0xA110CA7Eull) return false;
    int c = h[1] & 0xff;
    u64 n = h[0];
    unmark(a, n ? n : 1);
    h[1] = 0xDEADull << 32 | c;
    liveBytes -= n;
    freeL[c].push_back(a - 16);
    return true;
  }
  u64 sizeOf(u64 a) { return ((u64 *)(a - 16))[0]; }
  u64 salloc(u64 n, u64 al) {
    u64 a = (stackTop + al - 1) / al * al;
    a = (a + 15) / 16 * 16;
    stackTop = a + (n + 15) / 16 * 16 + 16;
    if (stackTop > stackEnd) unsupported("guest stack exhausted");
    mark(a, n);
    poison(a, (n + 7) / 8 * 8);
    return a;
  }
  void spop(u64 to) {
    unmark(to, stackTop - to);
    stackTop = to;
  }
  bool ok(u64 a, u64 n) const {
    if (!in(a)) return true;
    if (!n) return true;
    u64 w = (a - base) >> 3, o = (a & 7), e = a + n - base;
    // all words
    u64 we = (e - 1) >> 3;
    for (u64 k = w; k < we; ++k)
      if (sh[k] != 8) return false;
    u64 last = ((e - 1) & 7) + 1;
    (void)o;
    return sh[we] >= last;
  }
};
extern Arena M;
