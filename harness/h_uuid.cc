// Identifiers.
#include <array>
#include <cstdint>
#include <string>
#include <unordered_map>
#include "harness_min.hh"
#include "resim/assert/assert.hh"
#include "resim/utils/uuid.hh"
using resim::UUID;
static UUID rd(const uint8_t *b) {
  std::array<unsigned char, 16> a{};
  for (int i = 0; i < 16; ++i) a[i] = b[i];
  return UUID(a);
}
static void wr(const UUID &u, uint8_t *bo) {
  for (int i = 0; i < 16; ++i) bo[i] = u.id()[i];
}
H(h_uuid_cmp) {
  const UUID u = rd(b), v = rd(b + 16);
  io[0] = u == v;
  io[1] = u != v;
  io[2] = v == u;
  io[3] = u.is_null();
  io[4] = v.is_null();
  io[5] = u == u;
  UUID c{u};
  io[6] = c == u;
  c = v;
  io[7] = c == v;
  io[8] = c != u;
  wr(u, bo);
  wr(v, bo + 16);
  wr(c, bo + 32);
}
H(h_uuid_null) {
  const UUID u;
  wr(u, bo);
  io[0] = u.is_null();
  io[1] = u == rd(b);
}
// to_string, parsing the text, hashing
H(h_uuid_text) {
  const UUID u = rd(b);
  const std::string s = u.to_string();
  io[0] = s.size();
  for (size_t i = 0; i < 36 && i < s.size(); ++i) bo[i] = s[i];
  const UUID v{s};
  wr(v, bo + 36);
  io[1] = u == v;
}
H(h_uuid_hash) {
  const UUID u = rd(b), v = rd(b + 16);
  io[0] = std::hash<UUID>{}(u) == std::hash<UUID>{}(v);
}
// parse k[0] characters
H(h_uuid_parse) {
  const std::string s(reinterpret_cast<const char *>(b), k[0]);
  io[0] = 0;
  try {
    const UUID u{s};
    wr(u, bo);
    const std::string t = u.to_string();
    io[1] = t.size();
    for (size_t i = 0; i < 36; ++i) bo[16 + i] = t[i];
  } catch (const resim::AssertException &) {
    io[0] = 1;
  }
}
H(h_uuid_new) {
  const UUID u = UUID::new_uuid(), v = UUID::new_uuid();
  io[0] = u == v;
  io[1] = u.is_null();
  io[2] = UUID{u.to_string()} == u;
  io[3] = u == rd(u.id().data());
}
