// a reflected type universe shared by the binary harnesses
#pragma once
#include <eosio/to_bin.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/name.hpp>
#include <eosio/opaque.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
#include <array>
#include <deque>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
namespace vt {
enum class color : uint8_t { red, green, blue };
struct base_t { uint16_t b0 = 0; };
EOSIO_REFLECT(base_t, b0)
struct point : base_t { int32_t x = 0; uint64_t y = 0; };
EOSIO_REFLECT(point, base base_t, x, y)
struct rec { std::string s; std::vector<uint16_t> v; std::optional<uint32_t> o; };
EOSIO_REFLECT(rec, s, v, o)
struct outer { uint8_t a = 0; point p; std::vector<rec> rs; std::variant<uint8_t, std::string, point> var; };
EOSIO_REFLECT(outer, a, p, rs, var)
struct empty_t {};
EOSIO_REFLECT(empty_t)
inline bool operator==(const point& a, const point& b) { return ((int)(a.b0 == b.b0) & (int)(a.x == b.x) & (int)(a.y == b.y)) != 0; }
inline bool operator==(const rec& a, const rec& b) { return a.s == b.s && a.v == b.v && a.o == b.o; }
inline bool operator==(const outer& a, const outer& b) { return a.a == b.a && a.p == b.p && a.rs == b.rs && a.var == b.var; }
}
