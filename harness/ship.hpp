// the state-history messages written down field by field: arbitrary values with their binary form and JSON text
#pragma once
#include "json.hpp"
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
struct G {
   std::string bin, json;
   bool        text   = false;   // with JSON: values whose text is known
   size_t      usual  = 0;       // what is taken at every place but one
   size_t      left   = 0;       // places that may differ
   size_t      nested = 0;
   size_t pick(size_t n) {
      size_t d = usual < n ? usual : n - 1;
      if (n == 1 || !left || !vs_choice(2, "other")) return d;
      --left;
      size_t k = n == 2 ? 0 : vs_choice(n - 1, "which");
      return k < d ? k : k + 1;
   }
   void byte(uint8_t b) { bin.push_back((char)b); }
   void le(uint64_t v, size_t n) { while (n--) { byte((uint8_t)v); v >>= 8; } }
   void any(size_t n) { while (n--) byte(vs_u8("b")); }
};
using Fn = void (*)(G&);
// ---- leaves
template <size_t N> static void num(G& g) {   // unsigned or signed, written in decimal, quoted from 64 bits on
   if (!g.text) { g.any(N); return; }
   uint8_t a = (uint8_t)vs_range(1, 9, "v"), b = (uint8_t)vs_range(0, 9, "v");
   g.byte((uint8_t)(a * 10 + b));
   for (size_t i = 1; i < N; ++i) g.byte(0);
   if (N > 4) g.json.push_back('"');
   g.json.push_back((char)('0' + a));
   g.json.push_back((char)('0' + b));
   if (N > 4) g.json.push_back('"');
}
static constexpr Fn u8 = num<1>, u16 = num<2>, u32 = num<4>, u64 = num<8>, i64 = num<8>, u128 = num<16>;
static void varuint(G& g) {
   if (g.text) return num<1>(g);
   size_t n = g.pick(3);
   for (size_t i = 0; i < n; ++i) g.byte((uint8_t)(vs_range(0, 127, "b") | 0x80));
   g.byte((uint8_t)vs_range(n ? 1 : 0, 127, "b"));
}
static void boolean(G& g) { size_t b = g.pick(2); g.byte((uint8_t)b); g.json += b ? "true" : "false"; }
static void name(G& g) {
   if (!g.text) return g.any(8);
   uint8_t a = (uint8_t)vs_range(0, 25, "n");
   g.le((uint64_t)(a + 6) << 59, 8);
   g.json += "\"";
   g.json.push_back((char)('a' + a));
   g.json += "\"";
}
static void hexbyte(G& g) {
   if (!g.text) { g.any(1); return; }
   uint8_t a = (uint8_t)vs_range(0, 9, "h"), b = (uint8_t)vs_range(0, 9, "h");
   g.byte((uint8_t)(a * 16 + b));
   g.json.push_back((char)('0' + a));
   g.json.push_back((char)('0' + b));
}
static void checksum(G& g) {
   g.json.push_back('"');
   for (size_t i = 0; i < 32; ++i)
      if (!g.text || i == 0 || i == 31) hexbyte(g); else { g.byte((uint8_t)(0x10 + i)); const char* h = "0123456789ABCDEF"; g.json.push_back(h[(0x10 + i) >> 4]); g.json.push_back(h[i & 15]); }
   g.json.push_back('"');
}
static void data(G& g) {
   size_t n = g.pick(3);
   g.byte((uint8_t)n);
   g.json.push_back('"');
   while (n--) hexbyte(g);
   g.json.push_back('"');
}
static void text(G& g) {
   size_t n = g.pick(3);
   g.byte((uint8_t)n);
   g.json.push_back('"');
   while (n--) { char c = g.text ? (char)vs_range('a', 'z', "c") : (char)vs_u8("c"); g.bin.push_back(c); g.json.push_back(c); }
   g.json.push_back('"');
}
static void seconds(G& g) {
   if (!g.text) return g.any(4);
   uint8_t d = (uint8_t)vs_range(0, 9, "t");
   g.le(1577836800u + d, 4);
   g.json += "\"2020-01-01T00:00:0";
   g.json.push_back((char)('0' + d));
   g.json += ".000\"";
}
static void micros(G& g) {
   if (!g.text) return g.any(8);
   uint8_t d = (uint8_t)vs_range(0, 9, "t");
   g.le(1577836800000000u + d * 1000000u, 8);
   g.json += "\"2020-01-01T00:00:0";
   g.json.push_back((char)('0' + d));
   g.json += ".000\"";
}
static void slot(G& g) {
   if (!g.text) return g.any(4);
   uint8_t d = (uint8_t)vs_range(0, 9, "t");
   g.le((uint64_t)d * 2, 4);
   g.json += "\"2000-01-01T00:00:0";
   g.json.push_back((char)('0' + d));
   g.json += ".000\"";
}
static void status(G& g) {
   static const char* const names[] = { "executed", "soft_fail", "hard_fail", "delayed", "expired" };
   if (!g.text) return g.any(1);
   size_t s = g.pick(5);
   g.byte((uint8_t)s);
   g.json += std::string("\"") + names[s] + "\"";
}
template <typename T> static void leaf_text(G& g, size_t from) {   // contents that are the same for every value: the text of the leaf itself
   if (!g.text) return;
   std::vector<char> b;
   for (size_t i = from; i < g.bin.size(); ++i) b.push_back(g.bin[i]);
   g.json += eosio::convert_to_json(eosio::convert_from_bin<T>(b));
}
static void filler(G& g, size_t n, uint8_t first) {
   if (!g.text) return g.any(n);
   while (n--) g.byte(first++);
}
static void real(G& g) { size_t at = g.bin.size(); if (g.text) { g.le(0, 6); g.byte(0xe0); g.byte(0x3f); } else g.any(8); leaf_text<double>(g, at); }
static void key(G& g) {
   size_t at = g.bin.size(), k = g.pick(3);
   g.byte((uint8_t)k);
   filler(g, 33, 2);
   if (k == 2) { if (g.text) g.byte(1); else g.any(1); g.byte(2); filler(g, 2, 'a'); }
   leaf_text<eosio::public_key>(g, at);
}
static void signature(G& g) {
   size_t at = g.bin.size(), k = g.pick(3);
   g.byte((uint8_t)k);
   filler(g, 65, 31);
   if (k == 2) { g.byte(1); filler(g, 1, 7); g.byte(2); filler(g, 2, 'a'); }
   leaf_text<eosio::signature>(g, at);
}
// ---- combinations
template <Fn F> static void vec(G& g) {
   size_t n = g.pick(3);
   if (g.usual == 2 && n == 2 && g.nested) n = 1;
   g.byte((uint8_t)n);
   g.json.push_back('[');
   ++g.nested;
   for (size_t i = 0; i < n; ++i) { if (i) g.json.push_back(','); F(g); }
   --g.nested;
   g.json.push_back(']');
}
template <Fn F> static void opt(G& g) {
   size_t n = g.pick(2);
   g.byte((uint8_t)n);
   if (n) F(g); else g.json += "null";
}
struct Alt { const char* name; Fn f; };
static void alts(G& g, std::initializer_list<Alt> as) {
   size_t k = g.pick(as.size());
   g.byte((uint8_t)k);
   const Alt& a = as.begin()[k];
   g.json += std::string("[\"") + a.name + "\",";
   a.f(g);
   g.json.push_back(']');
}
struct Field { const char* name; Fn f; };
static void fields(G& g, std::initializer_list<Field> fs) {
   bool first = true;
   for (auto& f : fs) {
      if (!first) g.json.push_back(',');
      first = false;
      g.json += std::string("\"") + f.name + "\":";
      f.f(g);
   }
}
static void braces(G& g, Fn f) { g.json.push_back('{'); f(g); g.json.push_back('}'); }
#define SHIP_BODY(NAME, ...) static void NAME##_fields(G& g) { fields(g, { __VA_ARGS__ }); } static void NAME(G& g) { braces(g, NAME##_fields); }
#define SHIP_DERIVED(NAME, BASE, ...) static void NAME##_fields(G& g) { BASE##_fields(g); g.json.push_back(','); fields(g, { __VA_ARGS__ }); } static void NAME(G& g) { braces(g, NAME##_fields); }
#define SHIP_VARIANT(NAME, ...) static void NAME(G& g) { alts(g, { __VA_ARGS__ }); }
namespace ship {
SHIP_BODY(get_status_request_v0)
SHIP_BODY(block_position, { "block_num", u32 }, { "block_id", checksum })
SHIP_BODY(get_status_result_v0, { "head", block_position }, { "last_irreversible", block_position }, { "trace_begin_block", u32 }, { "trace_end_block", u32 }, { "chain_state_begin_block", u32 }, { "chain_state_end_block", u32 }, { "chain_id", checksum })
SHIP_BODY(get_blocks_request_v0, { "start_block_num", u32 }, { "end_block_num", u32 }, { "max_messages_in_flight", u32 }, { "have_positions", vec<block_position> }, { "irreversible_only", boolean }, { "fetch_block", boolean }, { "fetch_traces", boolean }, { "fetch_deltas", boolean })
SHIP_BODY(get_blocks_ack_request_v0, { "num_messages", u32 })
SHIP_VARIANT(request, { "get_status_request_v0", get_status_request_v0 }, { "get_blocks_request_v0", get_blocks_request_v0 }, { "get_blocks_ack_request_v0", get_blocks_ack_request_v0 })
SHIP_BODY(get_blocks_result_base, { "head", block_position }, { "last_irreversible", block_position }, { "this_block", opt<block_position> }, { "prev_block", opt<block_position> })
SHIP_DERIVED(get_blocks_result_v0, get_blocks_result_base, { "block", opt<data> }, { "traces", opt<data> }, { "deltas", opt<data> })
SHIP_BODY(row, { "present", boolean }, { "data", data })
SHIP_BODY(table_delta_v0, { "name", text }, { "rows", vec<row> })
SHIP_VARIANT(table_delta, { "table_delta_v0", table_delta_v0 })
SHIP_BODY(extension, { "type", u16 }, { "data", data })
SHIP_BODY(permission_level, { "actor", name }, { "permission", name })
SHIP_BODY(action, { "account", name }, { "name", name }, { "authorization", vec<permission_level> }, { "data", data })
SHIP_BODY(account_auth_sequence, { "account", name }, { "sequence", u64 })
SHIP_BODY(action_receipt_v0, { "receiver", name }, { "act_digest", checksum }, { "global_sequence", u64 }, { "recv_sequence", u64 }, { "auth_sequence", vec<account_auth_sequence> }, { "code_sequence", varuint }, { "abi_sequence", varuint })
SHIP_VARIANT(action_receipt, { "action_receipt_v0", action_receipt_v0 })
SHIP_BODY(account_delta, { "account", name }, { "delta", i64 })
SHIP_BODY(action_trace_v0, { "action_ordinal", varuint }, { "creator_action_ordinal", varuint }, { "receipt", opt<action_receipt> }, { "receiver", name }, { "act", action }, { "context_free", boolean }, { "elapsed", i64 }, { "console", text }, { "account_ram_deltas", vec<account_delta> }, { "except", opt<text> }, { "error_code", opt<u64> })
SHIP_BODY(action_trace_v1, { "action_ordinal", varuint }, { "creator_action_ordinal", varuint }, { "receipt", opt<action_receipt> }, { "receiver", name }, { "act", action }, { "context_free", boolean }, { "elapsed", i64 }, { "console", text }, { "account_ram_deltas", vec<account_delta> }, { "account_disk_deltas", vec<account_delta> }, { "except", opt<text> }, { "error_code", opt<u64> }, { "return_value", data })
SHIP_VARIANT(action_trace, { "action_trace_v0", action_trace_v0 }, { "action_trace_v1", action_trace_v1 })
SHIP_VARIANT(segment_type, { "checksum256", checksum }, { "bytes", data })
SHIP_BODY(full_legacy, { "signatures", vec<signature> }, { "packed_context_free_data", data })
SHIP_BODY(none, { "prunable_digest", checksum })
SHIP_BODY(partial, { "signatures", vec<signature> }, { "context_free_segments", vec<segment_type> })
SHIP_BODY(full, { "signatures", vec<signature> }, { "context_free_segments", vec<data> })
SHIP_VARIANT(prunable_data, { "prunable_data_type::full_legacy", full_legacy }, { "prunable_data_type::none", none }, { "prunable_data_type::partial", partial }, { "prunable_data_type::full", full })
SHIP_BODY(prunable_data_type, { "prunable_data", prunable_data })
SHIP_BODY(partial_transaction_v0, { "expiration", seconds }, { "ref_block_num", u16 }, { "ref_block_prefix", u32 }, { "max_net_usage_words", varuint }, { "max_cpu_usage_ms", u8 }, { "delay_sec", varuint }, { "transaction_extensions", vec<extension> }, { "signatures", vec<signature> }, { "context_free_data", vec<data> })
SHIP_BODY(partial_transaction_v1, { "expiration", seconds }, { "ref_block_num", u16 }, { "ref_block_prefix", u32 }, { "max_net_usage_words", varuint }, { "max_cpu_usage_ms", u8 }, { "delay_sec", varuint }, { "transaction_extensions", vec<extension> }, { "prunable_data", opt<prunable_data_type> })
SHIP_VARIANT(partial_transaction, { "partial_transaction_v0", partial_transaction_v0 }, { "partial_transaction_v1", partial_transaction_v1 })
static void transaction_trace(G& g);
static size_t depth;
static void failed(G& g) {   // at most one inside another
   if (depth) { g.byte(0); g.json += "[]"; return; }
   ++depth;
   size_t n = g.pick(2);
   g.byte((uint8_t)n);
   g.json.push_back('[');
   if (n) transaction_trace(g);
   g.json.push_back(']');
   --depth;
}
SHIP_BODY(transaction_trace_v0, { "id", checksum }, { "status", status }, { "cpu_usage_us", u32 }, { "net_usage_words", varuint }, { "elapsed", i64 }, { "net_usage", u64 }, { "scheduled", boolean }, { "action_traces", vec<action_trace> }, { "account_ram_delta", opt<account_delta> }, { "except", opt<text> }, { "error_code", opt<u64> }, { "failed_dtrx_trace", failed }, { "partial", opt<partial_transaction> })
static void transaction_trace(G& g) { alts(g, { { "transaction_trace_v0", transaction_trace_v0 } }); }
SHIP_BODY(producer_key, { "producer_name", name }, { "block_signing_key", key })
SHIP_BODY(producer_schedule, { "version", u32 }, { "producers", vec<producer_key> })
SHIP_BODY(transaction_receipt_header, { "status", status }, { "cpu_usage_us", u32 }, { "net_usage_words", varuint })
SHIP_BODY(packed_transaction_v0, { "signatures", vec<signature> }, { "compression", u8 }, { "packed_context_free_data", data }, { "packed_trx", data })
SHIP_BODY(packed_transaction, { "compression", u8 }, { "prunable_data", prunable_data_type }, { "packed_trx", data })
SHIP_VARIANT(transaction_variant_v0, { "checksum256", checksum }, { "packed_transaction_v0", packed_transaction_v0 })
SHIP_VARIANT(transaction_variant, { "checksum256", checksum }, { "packed_transaction", packed_transaction })
SHIP_DERIVED(transaction_receipt_v0, transaction_receipt_header, { "trx", transaction_variant_v0 })
SHIP_DERIVED(transaction_receipt, transaction_receipt_header, { "trx", transaction_variant })
SHIP_BODY(block_header, { "timestamp", slot }, { "producer", name }, { "confirmed", u16 }, { "previous", checksum }, { "transaction_mroot", checksum }, { "action_mroot", checksum }, { "schedule_version", u32 }, { "new_producers", opt<producer_schedule> }, { "header_extensions", vec<extension> })
SHIP_DERIVED(signed_block_header, block_header, { "producer_signature", signature })
SHIP_DERIVED(signed_block_v0, signed_block_header, { "transactions", vec<transaction_receipt_v0> }, { "block_extensions", vec<extension> })
SHIP_DERIVED(signed_block_v1, signed_block_header, { "prune_state", u8 }, { "transactions", vec<transaction_receipt> }, { "block_extensions", vec<extension> })
SHIP_VARIANT(signed_block_variant, { "signed_block_v0", signed_block_v0 }, { "signed_block_v1", signed_block_v1 })
SHIP_DERIVED(get_blocks_result_v1, get_blocks_result_base, { "block", opt<signed_block_variant> }, { "traces", data }, { "deltas", data })
SHIP_VARIANT(result, { "get_status_result_v0", get_status_result_v0 }, { "get_blocks_result_v0", get_blocks_result_v0 }, { "get_blocks_result_v1", get_blocks_result_v1 })
SHIP_BODY(transaction_header, { "expiration", seconds }, { "ref_block_num", u16 }, { "ref_block_prefix", u32 }, { "max_net_usage_words", varuint }, { "max_cpu_usage_ms", u8 }, { "delay_sec", varuint })
SHIP_DERIVED(transaction, transaction_header, { "context_free_actions", vec<action> }, { "actions", vec<action> }, { "transaction_extensions", vec<extension> })
SHIP_BODY(code_id, { "vm_type", u8 }, { "vm_version", u8 }, { "code_hash", checksum })
SHIP_BODY(account_v0, { "name", name }, { "creation_date", slot }, { "abi", data })
SHIP_BODY(account_metadata_v0, { "name", name }, { "privileged", boolean }, { "last_code_update", micros }, { "code", opt<code_id> })
SHIP_BODY(code_v0, { "vm_type", u8 }, { "vm_version", u8 }, { "code_hash", checksum }, { "code", data })
SHIP_BODY(contract_table_v0, { "code", name }, { "scope", name }, { "table", name }, { "payer", name })
#define SHIP_ROW { "code", name }, { "scope", name }, { "table", name }, { "primary_key", u64 }, { "payer", name }
SHIP_BODY(contract_row_v0, SHIP_ROW, { "value", data })
SHIP_BODY(contract_index64_v0, SHIP_ROW, { "secondary_key", u64 })
SHIP_BODY(contract_index128_v0, SHIP_ROW, { "secondary_key", u128 })
SHIP_BODY(contract_index256_v0, SHIP_ROW, { "secondary_key", checksum })
SHIP_BODY(contract_index_double_v0, SHIP_ROW, { "secondary_key", real })
SHIP_BODY(contract_index_long_double_v0, SHIP_ROW, { "secondary_key", u128 })
SHIP_BODY(key_value_v0, { "database", name }, { "contract", name }, { "key", data }, { "value", data })
SHIP_BODY(key_weight, { "key", key }, { "weight", u16 })
SHIP_BODY(block_signing_authority_v0, { "threshold", u32 }, { "keys", vec<key_weight> })
SHIP_VARIANT(block_signing_authority, { "block_signing_authority_v0", block_signing_authority_v0 })
SHIP_BODY(producer_authority, { "producer_name", name }, { "authority", block_signing_authority })
SHIP_BODY(producer_authority_schedule, { "version", u32 }, { "producers", vec<producer_authority> })
SHIP_BODY(chain_config_v0, { "max_block_net_usage", u64 }, { "target_block_net_usage_pct", u32 }, { "max_transaction_net_usage", u32 }, { "base_per_transaction_net_usage", u32 }, { "net_usage_leeway", u32 }, { "context_free_discount_net_usage_num", u32 }, { "context_free_discount_net_usage_den", u32 }, { "max_block_cpu_usage", u32 }, { "target_block_cpu_usage_pct", u32 }, { "max_transaction_cpu_usage", u32 }, { "min_transaction_cpu_usage", u32 }, { "max_transaction_lifetime", u32 }, { "deferred_trx_expiration_window", u32 }, { "max_transaction_delay", u32 }, { "max_inline_action_size", u32 }, { "max_inline_action_depth", u16 }, { "max_authority_depth", u16 })
SHIP_VARIANT(chain_config, { "chain_config_v0", chain_config_v0 })
SHIP_BODY(global_property_v0, { "proposed_schedule_block_num", opt<u32> }, { "proposed_schedule", producer_schedule }, { "configuration", chain_config })
SHIP_BODY(global_property_v1, { "proposed_schedule_block_num", opt<u32> }, { "proposed_schedule", producer_authority_schedule }, { "configuration", chain_config }, { "chain_id", checksum })
SHIP_VARIANT(global_property, { "global_property_v0", global_property_v0 }, { "global_property_v1", global_property_v1 })
SHIP_BODY(generated_transaction_v0, { "sender", name }, { "sender_id", u128 }, { "payer", name }, { "trx_id", checksum }, { "packed_trx", data })
SHIP_BODY(activated_protocol_feature_v0, { "feature_digest", checksum }, { "activation_block_num", u32 })
SHIP_VARIANT(activated_protocol_feature, { "activated_protocol_feature_v0", activated_protocol_feature_v0 })
SHIP_BODY(protocol_state_v0, { "activated_protocol_features", vec<activated_protocol_feature> })
SHIP_BODY(permission_level_weight, { "permission", permission_level }, { "weight", u16 })
SHIP_BODY(wait_weight, { "wait_sec", u32 }, { "weight", u16 })
SHIP_BODY(authority, { "threshold", u32 }, { "keys", vec<key_weight> }, { "accounts", vec<permission_level_weight> }, { "waits", vec<wait_weight> })
SHIP_BODY(permission_v0, { "owner", name }, { "name", name }, { "parent", name }, { "last_updated", micros }, { "auth", authority })
SHIP_BODY(permission_link_v0, { "account", name }, { "code", name }, { "message_type", name }, { "required_permission", name })
SHIP_BODY(resource_limits_v0, { "owner", name }, { "net_weight", i64 }, { "cpu_weight", i64 }, { "ram_bytes", i64 })
SHIP_BODY(usage_accumulator_v0, { "last_ordinal", u32 }, { "value_ex", u64 }, { "consumed", u64 })
SHIP_VARIANT(usage_accumulator, { "usage_accumulator_v0", usage_accumulator_v0 })
SHIP_BODY(resource_usage_v0, { "owner", name }, { "net_usage", usage_accumulator }, { "cpu_usage", usage_accumulator }, { "ram_usage", u64 })
SHIP_BODY(resource_limits_state_v0, { "average_block_net_usage", usage_accumulator }, { "average_block_cpu_usage", usage_accumulator }, { "total_net_weight", u64 }, { "total_cpu_weight", u64 }, { "total_ram_bytes", u64 }, { "virtual_net_limit", u64 }, { "virtual_cpu_limit", u64 })
SHIP_BODY(resource_limits_ratio_v0, { "numerator", u64 }, { "denominator", u64 })
SHIP_VARIANT(resource_limits_ratio, { "resource_limits_ratio_v0", resource_limits_ratio_v0 })
SHIP_BODY(elastic_limit_parameters_v0, { "target", u64 }, { "max", u64 }, { "periods", u32 }, { "max_multiplier", u32 }, { "contract_rate", resource_limits_ratio }, { "expand_rate", resource_limits_ratio })
SHIP_VARIANT(elastic_limit_parameters, { "elastic_limit_parameters_v0", elastic_limit_parameters_v0 })
SHIP_BODY(resource_limits_config_v0, { "cpu_limit_parameters", elastic_limit_parameters }, { "net_limit_parameters", elastic_limit_parameters }, { "account_cpu_usage_average_window", u32 }, { "account_net_usage_average_window", u32 })
#define SHIP_ONE(NAME) SHIP_VARIANT(NAME, { #NAME "_v0", NAME##_v0 })
SHIP_ONE(account) SHIP_ONE(account_metadata) SHIP_ONE(code) SHIP_ONE(contract_table) SHIP_ONE(contract_row) SHIP_ONE(contract_index64) SHIP_ONE(contract_index128) SHIP_ONE(contract_index256) SHIP_ONE(contract_index_double) SHIP_ONE(contract_index_long_double) SHIP_ONE(key_value) SHIP_ONE(generated_transaction) SHIP_ONE(protocol_state) SHIP_ONE(permission) SHIP_ONE(permission_link) SHIP_ONE(resource_limits) SHIP_ONE(resource_usage) SHIP_ONE(resource_limits_state) SHIP_ONE(resource_limits_config)
}
