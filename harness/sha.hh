// HMAC-SHA256, written from FIPS 180-4 and RFC 2104.
#ifndef VF_SHA_HH
#define VF_SHA_HH
#include <string>
#include <cstdint>
namespace vf {
inline std::string sha256(const std::string &in) {
  static const uint32_t K[64] = {
    0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
    0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
    0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
    0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
  uint32_t h[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
  std::string m = in;
  uint64_t bits = (uint64_t) in.size() * 8;
  m += (char) 0x80;
  while(m.size() % 64 != 56) m += '\0';
  for(int i = 7; i >= 0; i--) m += (char) (bits >> (8 * i));
  auto rot = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for(size_t o = 0; o < m.size(); o += 64) {
    uint32_t w[64];
    for(int i = 0; i < 16; i++) w[i] = (uint32_t) (uint8_t) m[o+4*i] << 24 | (uint32_t) (uint8_t) m[o+4*i+1] << 16 | (uint32_t) (uint8_t) m[o+4*i+2] << 8 | (uint8_t) m[o+4*i+3];
    for(int i = 16; i < 64; i++) w[i] = w[i-16] + (rot(w[i-15],7) ^ rot(w[i-15],18) ^ (w[i-15] >> 3)) + w[i-7] + (rot(w[i-2],17) ^ rot(w[i-2],19) ^ (w[i-2] >> 10));
    uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], k = h[7];
    for(int i = 0; i < 64; i++) {
      uint32_t t1 = k + (rot(e,6) ^ rot(e,11) ^ rot(e,25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
      uint32_t t2 = (rot(a,2) ^ rot(a,13) ^ rot(a,22)) + ((a & b) ^ (a & c) ^ (b & c));
      k = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += k;
  }
  std::string out;
  for(int i = 0; i < 8; i++) for(int j = 3; j >= 0; j--) out += (char) (h[i] >> (8 * j));
  return out;
}
inline std::string hmac256(std::string key, const std::string &msg) {
  if(key.size() > 64) key = sha256(key);
  key.resize(64, '\0');
  std::string i = key, o = key;
  for(auto &c : i) c ^= 0x36;
  for(auto &c : o) c ^= 0x5c;
  return sha256(o + sha256(i + msg));
}
}
#endif
