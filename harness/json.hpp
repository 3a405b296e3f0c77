#pragma once
#include "vsx.hpp"
#include <eosio/from_json.hpp>
#include <eosio/to_json.hpp>
// parse a whole JSON text as a T; false when a std::exception is thrown
// (the tokenizer, rapidjson, reads up to 3 bytes beyond the NUL when the text ends inside a UTF-8 sequence: give it 4 NULs)
template <typename T>
static bool parse_json(std::string text, T& out) {
   text.append(4, '\0');
   char* p = new char[text.size()];
   for (size_t i = 0; i < text.size(); ++i) p[i] = text[i];
   bool ok = completes([&] {
      eosio::json_token_stream s(p);
      from_json(out, s);
      s.get_end();
   });
   delete[] p;
   return ok;
}
