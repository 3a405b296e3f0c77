// Stand-in for the rapidjson submodule (external/rapidjson is empty in this
// checkout).  The installed rapidjson 1.1.0 has the same tokenizer, number and
// string scanner and state machine as the pinned submodule, but lacks the
// public "pull" wrapper IterativeParseInit/Next/Complete which was added
// upstream right afterwards.  This header adds exactly that wrapper (a
// transcription of upstream's), on top of the installed reader.
#ifndef VERIF_RAPIDJSON_READER_SHIM_H
#define VERIF_RAPIDJSON_READER_SHIM_H
// standard headers first, so that the access trick below touches rapidjson only
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cassert>
#include <cmath>
#include <limits>
#include <new>
#include <rapidjson/allocators.h>
#include <rapidjson/stream.h>
#include <rapidjson/encodedstream.h>
#include <rapidjson/internal/meta.h>
#include <rapidjson/internal/stack.h>
#include <rapidjson/internal/strtod.h>
#define Reader RapidjsonBaseReader
#define private public
#include_next <rapidjson/reader.h>
#undef private
#undef Reader
RAPIDJSON_NAMESPACE_BEGIN
class Reader : public GenericReader<UTF8<>, UTF8<> > {
   typedef GenericReader<UTF8<>, UTF8<> > B;
   B::IterativeParsingState it_state_ = B::IterativeParsingStartState;
   static bool is_delimiter(B::IterativeParsingState s) {
      return s == B::IterativeParsingKeyValueDelimiterState || s == B::IterativeParsingMemberDelimiterState ||
             s == B::IterativeParsingElementDelimiterState;
   }
   static bool is_complete(B::IterativeParsingState s) {
      return s == B::IterativeParsingFinishState || s == B::IterativeParsingErrorState;
   }

 public:
   void IterativeParseInit() {
      this->parseResult_.Clear();
      it_state_ = B::IterativeParsingStartState;
   }
   template <unsigned parseFlags, typename InputStream, typename Handler>
   bool IterativeParseNext(InputStream& is, Handler& handler) {
      while (is.Peek() != '\0') {
         this->template SkipWhitespaceAndComments<parseFlags>(is);
         B::Token                 t = this->Tokenize(is.Peek());
         B::IterativeParsingState n = this->Predict(it_state_, t);
         B::IterativeParsingState d = this->template Transit<parseFlags>(it_state_, t, n, is, handler);
         if (is_complete(d)) {
            if (d == B::IterativeParsingErrorState) {
               this->HandleError(it_state_, is);
               return false;
            }
            it_state_ = d;
            if (!(parseFlags & kParseStopWhenDoneFlag)) {
               this->template SkipWhitespaceAndComments<parseFlags>(is);
               if (is.Peek() != '\0') {
                  this->HandleError(it_state_, is);
                  return false;
               }
            }
            return true;
         }
         it_state_ = d;
         if (!is_delimiter(n))
            return true;
      }
      this->stack_.Clear();
      if (it_state_ != B::IterativeParsingFinishState) {
         this->HandleError(it_state_, is);
         return false;
      }
      return true;
   }
   bool IterativeParseComplete() const { return is_complete(it_state_); }
};
RAPIDJSON_NAMESPACE_END
#endif
