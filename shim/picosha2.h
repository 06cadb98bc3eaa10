// Stand-in for PicoSHA2: SHA-256 over an iterator range.
#ifndef VP_SHIM_PICOSHA2_H
#define VP_SHIM_PICOSHA2_H
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
namespace picosha2
{
static const size_t k_digest_size = 32;
template<typename In, typename Out>
void hash256(In first, In last, Out ofirst, Out olast)
{
    static const uint32_t K[64] = {
        0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be,
        0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa,
        0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85,
        0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3,
        0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f,
        0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    std::vector<uint8_t> m;
    for (; first != last; ++first) { m.push_back(static_cast<uint8_t>(*first)); }
    uint64_t bits = static_cast<uint64_t>(m.size()) * 8;
    m.push_back(0x80);
    while (m.size() % 64 != 56) { m.push_back(0); }
    for (int i = 7; i >= 0; --i) { m.push_back(static_cast<uint8_t>(bits >> (8 * i))); }
    auto rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; ++i) {
            w[i] = (uint32_t(m[o + 4 * i]) << 24) | (uint32_t(m[o + 4 * i + 1]) << 16) | (uint32_t(m[o + 4 * i + 2]) << 8) | uint32_t(m[o + 4 * i + 3]);
        }
        for (int i = 16; i < 64; ++i) {
            uint32_t s0 = rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3);
            uint32_t s1 = rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4], f = h[5], g = h[6], hh = h[7];
        for (int i = 0; i < 64; ++i) {
            uint32_t t1 = hh + (rr(e, 6) ^ rr(e, 11) ^ rr(e, 25)) + ((e & f) ^ (~e & g)) + K[i] + w[i];
            uint32_t t2 = (rr(a, 2) ^ rr(a, 13) ^ rr(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
            hh = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e; h[5] += f; h[6] += g; h[7] += hh;
    }
    for (int i = 0; i < 32 && ofirst != olast; ++i, ++ofirst) { *ofirst = static_cast<unsigned char>(h[i / 4] >> (24 - 8 * (i % 4))); }
}
template<typename It>
std::string bytes_to_hex_string(It first, It last)
{
    static const char* x = "0123456789abcdef";
    std::string s;
    for (; first != last; ++first) { auto c = static_cast<unsigned char>(*first); s += x[c >> 4]; s += x[c & 15]; }
    return s;
}
} // namespace picosha2
#endif
