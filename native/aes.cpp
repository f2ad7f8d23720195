// C09, C10: the AES generator against AES in counter mode
#include "nt.h"
#include <openssl/aes.h>
#include "distributed_vector_ole/aes_uniform_bit_generator.h"
using distributed_vector_ole::AESUniformBitGenerator;
using nt::u128;

static std::vector<uint8_t> bytes(u128 a, u128 b, size_t n) {
  std::vector<uint8_t> v(n);
  for (size_t i = 0; i < n; i++) v[i] = i < 16 ? uint8_t(a >> 8 * i) : i < 32 ? uint8_t(b >> 8 * (i - 16)) : uint8_t(i * 37);
  return v;
}
static uint64_t word(const uint8_t* seed, uint64_t i) {
  AES_KEY k;
  AES_set_encrypt_key(seed, 128, &k);
  u128 n;
  memcpy(&n, seed + 16, 16);
  n += i / 2;
  uint8_t out[16];
  AES_encrypt((const uint8_t*)&n, out, &k);
  uint64_t r;
  memcpy(&r, out + 8 * (i % 2), 8);
  return r;
}
// gen KEY NONCE SEEDLEN BUFFER SHIFT COUNT RESEED_AT
static void run(const nt::Case& c) {
  u128 key = nt::unhex(c[1]), nonce = nt::unhex(c[2]);
  long len = nt::tonum(c[3]), buf = nt::tonum(c[4]), shift = nt::tonum(c[5]), count = nt::tonum(c[6]), reseed = nt::tonum(c[7]);
  std::vector<uint8_t> s = bytes(key, nonce, len), t = bytes(~key, nonce + 12345, 40), place(len + 64);
  uint8_t* q = place.data() + 16 - (uintptr_t(place.data()) % 16) + shift;
  memcpy(q, s.data(), len);
  auto made = AESUniformBitGenerator::Create(absl::MakeConstSpan(q, len), buf);
  NT_CHECK(made.ok() == (len >= 32), "Create with a seed of %ld bytes: ok = %d", len, made.ok());
  if (!made.ok()) {
    NT_CHECK(made.status().code() == mpc_utils::StatusCode::INVALID_ARGUMENT, "a short seed must be an invalid argument");
    return;
  }
  AESUniformBitGenerator g0 = std::move(made).ValueOrDie();
  NT_CHECK(memcmp(q, s.data(), len) == 0, "Create changed the seed");
#if PROP == 9
  const uint8_t* cur = s.data();
  uint64_t pos = 0;
  auto draw = [&](AESUniformBitGenerator& g) {
    uint64_t r = g(), w = word(cur, pos);
    NT_CHECK(r == w, "output %llu is %016llx, keystream word is %016llx", (unsigned long long)pos, (unsigned long long)r, (unsigned long long)w);
    pos++;
  };
  long half = count / 2;
  for (long i = 0; i < half; i++) {
    if (i == reseed) {
      NT_CHECK(!g0.seed(absl::MakeConstSpan(t.data(), 31)).ok(), "seed() accepts 31 bytes");
      NT_CHECK(g0.seed(t).ok(), "seed() rejects 40 bytes");
      cur = t.data();
      pos = 0;
    }
    draw(g0);
  }
  AESUniformBitGenerator g1(std::move(g0));
  for (long i = half; i < count; i++) draw(g1);
  NT_CHECK(g1.seed(absl::MakeConstSpan(q, len)).ok(), "seed() rejects the first seed");
  cur = s.data();
  pos = 0;
  for (long i = 0; i < 5; i++) draw(g1);
#else
  // built with a small reseed interval
  const int64_t K = RESEED;
  int64_t blocks = std::max<int64_t>(buf, 2) / 2;
  for (int round = 0; round < 2; round++) {
    int64_t given = 0;
    bool thrown = false;
    for (int64_t i = 0; i < 4 * K + 8; i++) {
      try {
        g0();
        NT_CHECK(!thrown, "output %lld after the generator asked for a new seed", (long long)given);
        given++;
        NT_CHECK(given <= 2 * K, "output %lld comes from an AES block past the reseed interval of %lld blocks", (long long)given, (long long)K);
      } catch (const std::exception&) {
        thrown = true;
      }
    }
    // refills that stay within the interval succeed
    int64_t full = K / blocks * blocks * 2;
    NT_CHECK(given >= full, "only %lld outputs although %lld fit the reseed interval", (long long)given, (long long)full);
    NT_CHECK(thrown, "the generator never asks for a new seed");
    NT_CHECK(g0.seed(s).ok(), "reseeding failed");
  }
#endif
}

static void gen(std::function<bool(const nt::Case&)> emit) {
  static const long bufs[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 1000, 1023, 1024, 1025, 4096, -1, -5};
  for (int round = 0;; round++)
    for (long b : bufs)
      for (long shift = 0; shift < 16; shift += (round ? 1 + nt::rng() % 5 : 3)) {
        long count = PROP == 9 ? (round % 4 ? nt::rng() % 300 : 3 * std::max(b, 2L) + 7) : 0;
        u128 n = nt::rng() % 3 ? nt::edge128() : ~u128(0) - nt::rng() % 40;
        if (nt::rng() % 4 == 0) n = (u128(nt::rng()) << 64) | (~uint64_t(0) - nt::rng() % 40);
        long len = nt::rng() % 6 ? 32 + nt::rng() % 20 * (nt::rng() % 2) : nt::rng() % 33;
        if (!emit({"gen", nt::hex(nt::edge128()), nt::hex(n), nt::num(len), nt::num(b), nt::num(shift), nt::num(count), nt::num(nt::rng() % 3 ? -1 : nt::rng() % (count / 2 + 1))})) return;
      }
}
NT_MAIN(run, gen)
