// C01 / C02: value encoding and message header round trips.
#include "sym.h"
#include <cassert>
#include <cstring>
#include <type_traits>
#include "Packer.h"

using namespace BufferUtils;

template <typename T> static bool sameBits(const T& a, const T& b) { return memcmp(&a, &b, sizeof(T)) == 0; }

// Number of bytes the stored length code stands for, as documented in Packer.h.
static unsigned lenOf(unsigned code) { return code == 0 ? 16 : code > 8 ? code - 8 : code; }

template <typename T, size_t SIG = sizeof(T)> static void single() {
    T v; memset(&v, 0, sizeof v);
    sym_bytes(&v, SIG, "value");
    char* buf = new char[16 + sizeof(T)];
    const size_t cap = 16 + sizeof(T);
    memset(buf, 0x5a, cap);
    char* w = buf;
    int code = pack(&w, v);
    sym_check(code >= 0 && code <= 16, "length code out of range");
    size_t n = w - buf;
    sym_check(n >= 1 && n <= sizeof(T), "encoded size exceeds the type's size");
    sym_check(lenOf(code & 0xf) == n, "length code does not describe the bytes produced");
    char* rb = new char[n];            // exactly the produced bytes: any over-read is caught
    memcpy(rb, buf, n);
    const char* r = rb;
    T u = unpack<T>(&r, (uint8_t)(code & 0xf));
    sym_check((size_t)(r - rb) == n, "decoding consumed a different number of bytes");
    sym_check(memcmp(&u, &v, SIG) == 0, "decoded value differs from the encoded one");
    sym_obs("n", n);
    sym_reach("single");
}
#define SINGLE(name, T) extern "C" void c01_##name() { single<T>(); }
SINGLE(u8, uint8_t) SINGLE(u16, uint16_t) SINGLE(u32, uint32_t) SINGLE(u64, uint64_t) SINGLE(ull, unsigned long long)
SINGLE(i32, int32_t) SINGLE(i64, int64_t) SINGLE(ll, long long) SINGLE(ptr, const void*) SINGLE(vptr, void*)
SINGLE(f32, float) SINGLE(f64, double)
extern "C" void c01_f80() { single<long double, 10>(); }

// A sequence of values behind shared nibbles, as the encoder lays them out.
template <typename T, size_t SIG = sizeof(T)> struct Slot { T v; };
static const int MAXN = 8;
struct Seq {
    TwoNibbles nib[(MAXN + 1) / 2]; int n = 0; char vals[MAXN * 16 + 16]; char* w = vals;
    void put(int code) { if (n % 2 == 0) nib[n / 2].first = 0xf & code; else nib[n / 2].second = 0xf & code; n++; }
};
struct Kind { int k; uint64_t bits; uint16_t hi; };
static void putKind(Seq& s, Kind& k) {
    switch (k.k) {
    case 0: { uint64_t x = k.bits; s.put(pack(&s.w, x)); break; }
    case 1: { int64_t x = (int64_t)k.bits; s.put(pack(&s.w, x)); break; }
    case 2: { int32_t x = (int32_t)k.bits; s.put(pack(&s.w, x)); break; }
    case 3: { double x; memcpy(&x, &k.bits, 8); s.put(pack(&s.w, x)); break; }
    case 4: { long double x; memset(&x, 0, sizeof x); memcpy(&x, &k.bits, 8); memcpy((char*)&x + 8, &k.hi, 2); s.put(pack(&s.w, x)); break; }
    case 5: { uint16_t x = (uint16_t)k.bits; s.put(pack(&s.w, x)); break; }
    case 6: { float x; memcpy(&x, &k.bits, 4); s.put(pack(&s.w, x)); break; }
    case 7: { const void* x = (const void*)k.bits; s.put(pack(&s.w, x)); break; }
    }
}
static void getKind(Nibbler& nb, Kind& k) {
    uint64_t b = k.bits;
    switch (k.k) {
    case 0: { sym_check(nb.getNext<uint64_t>() == b, "sequence: uint64 differs"); break; }
    case 1: { sym_check(nb.getNext<int64_t>() == (int64_t)b, "sequence: int64 differs"); break; }
    case 2: { sym_check(nb.getNext<int32_t>() == (int32_t)b, "sequence: int32 differs"); break; }
    case 3: { double x = nb.getNext<double>(); sym_check(memcmp(&x, &b, 8) == 0, "sequence: double differs"); break; }
    case 4: { long double x = nb.getNext<long double>(); sym_check(memcmp(&x, &b, 8) == 0 && memcmp((char*)&x + 8, &k.hi, 2) == 0, "sequence: long double differs"); break; }
    case 5: { sym_check(nb.getNext<uint16_t>() == (uint16_t)b, "sequence: uint16 differs"); break; }
    case 6: { float x = nb.getNext<float>(); sym_check(memcmp(&x, &b, 4) == 0, "sequence: float differs"); break; }
    case 7: { sym_check(nb.getNext<const void*>() == (const void*)b, "sequence: pointer differs"); break; }
    }
}
extern "C" void c01_seq() {
    int n = (int)sym_param(0);
    Seq s; Kind k[MAXN];
    memset(&s.nib, 0, sizeof s.nib);
    for (int i = 0; i < n; i++) { k[i].k = (int)sym_param(1 + i); k[i].hi = 0; sym_bytes(&k[i].bits, 8, "bits"); if (k[i].k == 4) sym_bytes(&k[i].hi, 2, "hi"); putKind(s, k[i]); }
    size_t vb = s.w - s.vals, nbk = (n + 1) / 2;
    char* stream = new char[nbk + vb];
    memcpy(stream, s.nib, nbk); memcpy(stream + nbk, s.vals, vb);
    sym_check(getSizeOfPackedValues((const TwoNibbles*)stream, n) == vb, "computed size of packed values differs from the bytes produced");
    Nibbler nb(stream, n);
    sym_check(nb.getEndOfPackedArguments() == stream + nbk + vb, "end of packed arguments misplaced");
    for (int i = 0; i < n; i++) getKind(nb, k[i]);
    sym_obs("vb", vb);
    sym_reach("seq");
}
