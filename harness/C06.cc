// C06: reads files in every way the library offers and prints what came out.
// Usage: C06 LIST, where each line of LIST is "KIND PATH". The output is judged by checks/c06.py.
#include "ev.h"
#include "mapper/ScoredEventMapper.h"
#include "mapper/StringEventToIntMapper.h"
#include "reader/PlainTextMapEventReader.h"
#include "reader/PlainTextReader.h"

using namespace kws::core;
using namespace kws::mapper;
using namespace kws::reader;

typedef Event<std::string, std::string> StrRef;
typedef ScoredEvent<StrRef> StrHyp;

static std::string hex(const std::string &s) {
  static const char *d = "0123456789abcdef";
  std::string o = "x";
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o;
}
static std::string num(float f) { uint32_t u; memcpy(&u, &f, 4); return mon::str("f", u); }
template <class T> std::string loc(const DocumentBoundingBox<T> &b) {
  return mon::str(hex(b.document), " ", (long long)b.x, " ", (long long)b.y, " ", (long long)b.w, " ", (long long)b.h);
}
static std::string loc(const std::string &s) { return hex(s); }
static std::string loc(int32_t v) { return mon::str(v); }
static std::string qry(const std::string &s) { return hex(s); }
static std::string qry(int32_t v) { return mon::str(v); }
template <class Q, class L> std::string row(const Event<Q, L> &e) { return qry(e.Query()) + " " + loc(e.Location()); }
template <class E> std::string row(const ScoredEvent<E> &e) {
  return qry(e.Query()) + " " + loc(e.Location()) + " " + num(e.Score());
}

template <class E, class MakeReader>
void both(const std::string &path, const E &stale, MakeReader make) {
  std::string again = "-";
  for (int way = 0; way < 4; ++way) {
    std::vector<E> out(way == 2 ? 0 : 3, stale);
    auto reader = make();
    bool ok;
    std::string err;
    bool at_end = true;
    {
      mon::Capture cap(std::cerr);
      if (way == 0) {
        ok = reader->Read(path, &out);
      } else {
        std::ifstream f(path, std::ios_base::in);
        std::stringstream ss;
        ss << f.rdbuf();
        std::istringstream is(ss.str());
        ok = reader->Read(&is, &out);
        if (ok) at_end = is.eof();
        if (ok && way == 3) {                                  // again, from the stream that was read to its end
          const size_t first = out.size();
          ok = reader->Read(&is, &out);
          again = mon::str(first, " ", (int)ok, " ", out.size());
        }
      }
      err = cap.text();
    }
    printf("READ %d %s %zu %d %s\n", way, ok ? "ok" : "fail", out.size(), (int)at_end, hex(err).c_str());
    if (ok && way != 3) for (const E &e : out) printf("%s\n", row(e).c_str());
    if (way == 3) printf("AGAIN %s\n", again.c_str());
    printf("END\n");
  }
}

template <class M> struct MapReader {
  StringToIntMapper<int32_t> names;
  StringEventToIntMapper<int32_t> refs{&names};
  ScoredEventMapper<StringEventToIntMapper<int32_t>> hyps{&refs};
};
struct IntRefReader : MapReader<void> {
  PlainTextMapEventReader<StringEventToIntMapper<int32_t>> r{&refs};
  template <class S, class V> bool Read(S s, V *v) { return r.Read(s, v); }
};
struct IntHypReader : MapReader<void> {
  PlainTextMapEventReader<ScoredEventMapper<StringEventToIntMapper<int32_t>>> r{hyps};
  template <class S, class V> bool Read(S s, V *v) { return r.Read(s, v); }
};

template <class T> void boxes(const std::string &path, bool scored) {
  typedef ShapedEvent<std::string, DocumentBoundingBox<T>> R;
  const R stale("stale", DocumentBoundingBox<T>("stale", 1, 2, 3, 4));
  if (!scored) both(path, stale, [] { return std::unique_ptr<PlainTextReader<R>>(new PlainTextReader<R>()); });
  else both(path, ScoredEvent<R>(stale, 9),
            [] { return std::unique_ptr<PlainTextReader<ScoredEvent<R>>>(new PlainTextReader<ScoredEvent<R>>()); });
}

int main(int, char **argv) {
  std::ifstream list(argv[1]);
  std::string kind, path;
  while (list >> kind >> path) {
    printf("FILE %s %s\n", kind.c_str(), path.c_str());
    if (kind == "icdar-ref") boxes<uint32_t>(path, false);
    else if (kind == "icdar-hyp") boxes<uint32_t>(path, true);
    else if (kind == "int32-ref") boxes<int32_t>(path, false);
    else if (kind == "int64-hyp") boxes<int64_t>(path, true);
    else if (kind == "uint16-hyp") boxes<uint16_t>(path, true);
    else if (kind == "simple-ref") both(path, StrRef("stale", "stale"), [] { return std::unique_ptr<PlainTextReader<StrRef>>(new PlainTextReader<StrRef>()); });
    else if (kind == "simple-hyp") both(path, StrHyp("stale", "stale", 9), [] { return std::unique_ptr<PlainTextReader<StrHyp>>(new PlainTextReader<StrHyp>()); });
    else if (kind == "mapped-ref") both(path, IntRef(-7, -7), [] { return std::unique_ptr<IntRefReader>(new IntRefReader()); });
    else if (kind == "mapped-hyp") both(path, IntHyp(-7, -7, 9), [] { return std::unique_ptr<IntHypReader>(new IntHypReader()); });
    else { printf("BADKIND\n"); return 2; }
  }
  printf("ALLDONE\n");
}
