// Error diagnostics as JSON.
#include "json.h"
#include "loc.h"
#include "libqasm/error.hpp"
using cqasm::error::Error;
static void num(const J* j, u32 v, const char* m) { vp_check(j && j->kind == 'n', m); if (j && j->kind == 'n') check_same(j->s, dec(v), m); }
extern "C" void vp_main() {
  std::string msg = teststr("m"); unsigned lim = vp_param("LIM", 3), fk = vp_param("FILE", 0); bool has = vp_param("LOC", 1);
  std::optional<std::string> fn; if (fk) fn = symstr("f", fk - 1);
  SL::Index f, l; unsigned w = vp_param("WIDE", 0);
  f.line = coord("l1", w & 1 ? 0 : lim); f.column = coord("c1", w & 2 ? 0 : lim); l.line = coord("l2", w & 4 ? 0 : lim); l.column = coord("c2", w & 8 ? 0 : lim);
  SL loc; loc.file_name = fn; loc.range.first = f; loc.range.last = l;
  Error e(msg, has ? std::make_shared<SL>(loc) : std::shared_ptr<SL>{});
  std::string t = e.to_json();
  vp_observe("digest", digest(t));
  J j; bool ok = JsonReader(t).all(j);
  vp_check(ok && j.kind == 'o', "the diagnostic is a well-formed JSON object");
  if (!ok) return;
  num(j.get({"range", "start", "line"}), has ? f.line : 0, "range.start.line is the first line"); num(j.get({"range", "start", "character"}), has ? f.column : 0, "range.start.character is the first column");
  num(j.get({"range", "end", "line"}), has ? l.line : 0, "range.end.line is the last line"); num(j.get({"range", "end", "character"}), has ? l.column : 0, "range.end.character is the last column");
  const J* m = j.get("message"); vp_check(m && m->kind == 's', "the message is a string");
  if (m) check_same(m->s, msg.empty() ? std::string("<unknown error message>") : msg, "the message decodes to the error's message");
  const J* s = j.get("severity"); vp_check(s && s->kind == 'n' && s->s == "1", "the severity is 1");
  const J* r = j.get("relatedInformation"); vp_check((r != nullptr) == (has && fn.has_value()), "related information is present exactly when the location names a file");
  if (!r) { vp_reach("no file"); return; }
  vp_reach("file"); vp_check(r->kind == 'a' && r->a.size() == 1, "one piece of related information");
  const J* u = r->a.empty() ? nullptr : r->a[0].get({"location", "uri"}); vp_check(u && u->kind == 's', "the related information names a URI");
  if (!u) return;
  std::string dec; bool good = u->s.compare(0, 8, "file:///") == 0 && url_decode(u->s.substr(8), dec); vp_check(good, "the URI is a percent-encoded file URI");
  if (good) check_same(dec, *fn, "the URI decodes to the file name");
  bool legal = true; for (std::size_t i = 8; i < u->s.size(); i++) { u8 c = (u8)u->s[i]; legal &= is_alpha(c) | is_digit(c) | (c == '-') | (c == '_') | (c == '.') | (c == '~') | (c == '%'); }
  vp_check(legal, "the URI has only URL-safe characters");
}
