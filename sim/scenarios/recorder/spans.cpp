// Spans of both tracers used by several threads at once, with a recorder that
// keeps what it is handed.
#include <algorithm>
#include <map>
#include <mutex>
#include <thread>
#include <unordered_map>
#include "common/logger.h"
#include "kit/kit.h"
#include "lightstep-tracer-common/collector.pb.h"
#include "opentracing/propagation.h"
#include "recorder/recorder.h"
#include "tracer/legacy/legacy_tracer_impl.h"
#include "tracer/tracer_impl.h"
using namespace lightstep;
using sim::US;

namespace {
const char* P = "C11";
enum OpKind { TAG, LOG, BAGGAGE, NAME, SAMPLE, FINISH, READ, EACH, CHILD, INJECT };
struct Op {
  OpKind kind;
  int span = 0, key = 0, value = 0;
  uint64_t begin = 0, end = UINT64_MAX;
  bool sample = false, failed = false, skip = false;
  std::vector<std::pair<std::string, std::string>> seen;
};
struct Sp {
  std::unique_ptr<opentracing::Span> s;
  uint64_t trace = 0, id = 0, parent_trace = 0, parent_id = 0;
  int recorded = 0;
  uint64_t record_seq = 0, destroyed = UINT64_MAX;
  int64_t record_time = 0, start_time = 0;
  bool record_inside = false;
  std::unique_ptr<ChainedStream> stream;
  std::string bytes;
  collector::Span pb;
  std::vector<std::pair<std::string, std::string>> inherited;
  int parent = -1;
  struct Ref {
    bool follows;
    uint64_t trace, id;
  };
  std::vector<Ref> refs;
  std::vector<int> start_tags;
  bool short_of_memory = false;
};
struct Ctx {
  std::vector<std::unique_ptr<Sp>> spans;
  std::vector<Op> ops;
  std::map<int, int> current;   // thread -> span it is finishing or destroying
  std::shared_ptr<LightStepTracer> tracer;
  bool legacy = false, header = false;
  double oom = 0;
  int errors = 0, failures = 0;
  int next = 1;
};
Ctx* X;
std::string val(int v) { return std::to_string(v) + ":" + kit::letters((uint64_t)v, (size_t)(v * 7 % 40)); }

uint64_t salt;  // of this run's values
// ---- values of every kind, each with the text that a recorded one must equal
struct Gen {
  uint64_t x;
  uint64_t operator()(uint64_t n) {
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    return (x >> 16) % n;
  }
};
std::string quoted(const std::string& t) {
  std::string r = "\"";
  for (char c : t) {
    char b[8];
    if (c == '"' || c == '\\')
      r += '\\', r += c;
    else if (c == '\b')
      r += "\\b";
    else if (c == '\n')
      r += "\\n";
    else if (c == '\r')
      r += "\\r";
    else if (c == '\t')
      r += "\\t";
    else if (c > 0 && c < 32)
      snprintf(b, sizeof b, "\\u%04x", c), r += b;
    else
      r += c;
  }
  return r + '"';
}
std::string some_text(Gen& g) {
  static const char* bits[] = {"a", "xyz", "\"", "\\", "\n", "\t", "\r", "\b", "\x01", "\x1f", "\x7f", "\xc3\xa9", "/", "{", ","};
  std::string t;
  for (uint64_t n = g(5); n; --n) t += bits[g(sizeof bits / sizeof *bits)];
  return t;
}
opentracing::Value json(Gen& g, int depth, std::string& text) {
  switch (g(depth > 0 ? 9 : 7)) {
    case 0: {
      bool b = g(2);
      text += b ? "true" : "false";
      return b;
    }
    case 1: {
      int64_t i = (int64_t)g(100000) - 50000;
      text += std::to_string(i);
      return i;
    }
    case 2: {
      uint64_t u = UINT64_MAX - g(1000);
      text += std::to_string(u);
      return u;
    }
    case 3: {
      double d = ((double)g(2000) - 1000) / 4;
      char b[40];
      snprintf(b, sizeof b, "%g", d);
      text += b;
      return d;
    }
    case 4: text += "null"; return nullptr;
    case 5: text += "\"word\""; return "word";
    case 6: {
      std::string t = some_text(g);
      text += quoted(t);
      return t;
    }
    case 7: {
      opentracing::Values v;
      text += '[';
      for (uint64_t n = g(4), i = 0; i < n; ++i) {
        if (i) text += ',';
        v.push_back(json(g, depth - 1, text));
      }
      text += ']';
      return v;
    }
    default: {
      opentracing::Dictionary d;  // of one entry at most: its order isn't fixed
      text += '{';
      if (g(4)) {
        std::string k = some_text(g);
        text += quoted(k) + ':';
        d.emplace(k, json(g, depth - 1, text));
      }
      text += '}';
      return d;
    }
  }
}
opentracing::Value value(int v, std::string* want = nullptr) {
  Gen g{(uint64_t)v * 0x9e3779b97f4a7c15ull + salt};
  std::string t;
  opentracing::Value r;
  char b[40];
  for (int i = 0; i < 5; ++i) g(2);
  switch (g(10)) {
    case 0: {
      bool x = g(2);
      r = x;
      t = x ? "b1" : "b0";
      break;
    }
    case 1: {
      double d = g(8) ? ((double)g(1u << 30) - (1 << 29)) / 1024 : g(2) ? 1e300 : -0.0;
      snprintf(b, sizeof b, "d%.17g", d);
      r = d;
      t = b;
      break;
    }
    case 2: {
      int64_t i = g(4) ? (int64_t)g(1u << 30) - (1 << 29) : g(2) ? INT64_MIN : INT64_MAX;
      r = i;
      t = "i" + std::to_string(i);
      break;
    }
    case 3: {
      uint64_t u = g(4) ? g(1u << 30) : UINT64_MAX;
      r = u;
      t = "i" + std::to_string((int64_t)u);
      break;
    }
    case 4: r = nullptr; t = "b0"; break;
    case 5: r = "a word"; t = "sa word"; break;
    case 6: {
      std::string x = kit::letters((uint64_t)v, (size_t)(g(6) ? g(200) : g(3000)));
      r = x;
      t = "s" + x;
      break;
    }
    case 7: {
      opentracing::Values a;
      t = "j[";
      for (uint64_t n = g(5), i = 0; i < n; ++i) {
        if (i) t += ',';
        a.push_back(json(g, 3, t));
      }
      t += ']';
      r = a;
      break;
    }
    case 8: {
      opentracing::Dictionary d;
      t = "j{";
      std::string k = some_text(g);
      t += quoted(k) + ':';
      d.emplace(k, json(g, 3, t));
      t += '}';
      r = d;
      break;
    }
    default: r = val(v); t = "s" + val(v);
  }
  if (want) *want = t;
  return r;
}
std::string text(const collector::KeyValue& kv) {
  char b[40];
  switch (kv.value_case()) {
    case collector::KeyValue::kStringValue: return "s" + kv.string_value();
    case collector::KeyValue::kIntValue: return "i" + std::to_string(kv.int_value());
    case collector::KeyValue::kDoubleValue: snprintf(b, sizeof b, "d%.17g", kv.double_value()); return b;
    case collector::KeyValue::kBoolValue: return kv.bool_value() ? "b1" : "b0";
    case collector::KeyValue::kJsonValue: return "j" + kv.json_value();
    default: return "nothing";
  }
}
std::string want(int v) {
  std::string t;
  value(v, &t);
  return t;
}
std::string tag_key(int v) { return "t" + std::to_string(v) + (v % 11 ? "" : kit::letters((uint64_t)v, 300)); }
std::string log_text(int v) {
  std::string t = "l=" + want(v) + ";n=i" + std::to_string(v) + ";";
  if (v % 3 == 0) t += "m=" + want(v + 1000) + ";k=" + want(v + 2000) + ";=" + want(v + 3000) + ";";
  return t;
}

void recorded(const collector::Span& pb, std::string bytes) {
  auto it = X->current.find(sim::self());
  if (it == X->current.end()) return sim::fail(P, "stray", "a span is recorded by a thread that finishes none");
  Sp& s = *X->spans[(size_t)it->second];
  if (pb.span_context().span_id() != s.id) sim::fail(P, "mixed", "finishing span %d records another one", it->second);
  if (++s.recorded > 1) sim::fail(P, "twice", "span %d is recorded %d times", it->second, s.recorded);
  s.pb = pb;
  s.bytes = std::move(bytes);
  s.record_seq = sim::seq();
  sim::log("span %d is recorded", it->second);
}
struct Keeper : Recorder {
  Fragment ReserveHeaderSpace(ChainedStream& stream) override {
    if (!X->header) return {};
    void* d;
    int n;
    stream.Next(&d, &n);
    stream.BackUp(n - 10);
    memset(d, 'h', 10);
    return {d, 10};
  }
  void WriteFooter(google::protobuf::io::CodedOutputStream& out) override {
    if (X->header) out.WriteRaw("\r\n", 2);
  }
  void RecordSpan(Fragment header, std::unique_ptr<ChainedStream>&& span) noexcept override {
    span->CloseOutput();
    sim::Harness h;
    std::string s = kit::text(*span), all = s;
    if (X->header) {
      if (header.second != 10 || s.size() < 12 || s.substr(0, 10) != "hhhhhhhhhh" || s.substr(s.size() - 2) != "\r\n")
        return sim::fail(P, "garbled", "the room for the header or footer isn't there");
      s = s.substr(10, s.size() - 12);
    }
    collector::Span pb;
    if (!pb.ParseFromString(s)) return sim::fail(P, "garbled", "a recorded span doesn't parse");
    auto it = X->current.find(sim::self());
    if (it != X->current.end() && !X->spans[(size_t)it->second]->recorded) X->spans[(size_t)it->second]->stream = std::move(span);
    recorded(pb, all);
  }
  void RecordSpan(const collector::Span& span) noexcept override {
    sim::Harness h;
    recorded(span, {});
  }
};
struct Carrier : opentracing::TextMapWriter {
  std::unordered_map<std::string, std::string>& m;
  explicit Carrier(std::unordered_map<std::string, std::string>& x) : m(x) {}
  opentracing::expected<void> Set(opentracing::string_view k, opentracing::string_view v) const override {
    m[k] = v;
    return {};
  }
};

// A context that another tracer made.
struct Foreign : opentracing::SpanContext {
  void ForeachBaggageItem(std::function<bool(const std::string&, const std::string&)> f) const override { f("foreign", "item"); }
} foreign;
size_t start(int parent, int other = -1) {
  size_t i;
  opentracing::StartSpanOptions o;
  {
    sim::Harness h;
    i = X->spans.size();
    X->spans.emplace_back(new Sp);
    X->spans[i]->parent = parent;
    for (int p : {parent, other}) {
      if (sim::chance(sim::WORK, 0.05)) o.references.emplace_back(opentracing::SpanReferenceType::ChildOfRef, nullptr);
      if (sim::chance(sim::WORK, 0.05)) o.references.emplace_back(opentracing::SpanReferenceType::FollowsFromRef, &foreign);
      if (p < 0) continue;
      auto& from = *X->spans[(size_t)p];
      bool follows = sim::chance(sim::WORK, 0.3);
      o.references.emplace_back(follows ? opentracing::SpanReferenceType::FollowsFromRef : opentracing::SpanReferenceType::ChildOfRef, &from.s->context());
      X->spans[i]->refs.push_back({follows, from.trace, from.id});
    }
    for (int64_t n = sim::chance(sim::WORK, 0.3) ? sim::range(sim::WORK, 1, 3) : 0; n > 0; --n) {
      int v = X->next++;
      X->spans[i]->start_tags.push_back(v);
      o.tags.emplace_back(tag_key(v), value(v));
    }
  }
  auto s = X->tracer->StartSpanWithOptions("n0", o);
  sim::Harness h;
  if (!s) {
    sim::fail(P, "null", "no span is started");
    return i;
  }
  auto ids = static_cast<const LightStepTracer*>(X->tracer.get())->GetTraceSpanIdsSampled(s->context());
  X->spans[i]->trace = (*ids)[0];
  X->spans[i]->id = (*ids)[1];
  for (auto& o : X->spans)
    if (o.get() != X->spans[i].get() && o->id == X->spans[i]->id) sim::fail("C10", "repeat", "two spans have identifier %llx", (unsigned long long)o->id);
  if (X->spans[i]->refs.empty()) {
    // the first of a trace of its own
    uint64_t t = X->spans[i]->trace;
    if (!t) sim::fail("C10", "no-trace", "a span without a parent has no trace identifier");
    for (auto& o : X->spans)
      if (o->id == t || (o.get() != X->spans[i].get() && o->trace == t)) sim::fail("C10", "repeat", "a new trace has identifier %llx, which was given before", (unsigned long long)t);
  }
  if (parent >= 0 && X->spans[i]->trace != X->spans[(size_t)parent]->trace) sim::fail(P, "trace", "a child is in another trace than its parent");
  s->context().ForeachBaggageItem([&](const std::string& k, const std::string& v) {
    X->spans[i]->inherited.emplace_back(k, v);
    return true;
  });
  X->spans[i]->s = std::move(s);
  return i;
}
void step(int n_spans) {
  size_t me;
  Op o;
  opentracing::Span* s;
  {
    sim::Harness h;
    o.kind = sim::pick<OpKind>(sim::WORK, {TAG, LOG, BAGGAGE, TAG, LOG, BAGGAGE, NAME, SAMPLE, FINISH, READ, EACH, CHILD, INJECT});
    if (o.kind == SAMPLE && !sim::chance(sim::WORK, 0.2)) o.kind = TAG;
    o.span = (int)sim::choose(sim::WORK, (uint64_t)n_spans);
    o.key = (int)sim::choose(sim::WORK, 3);
    o.value = X->next++;
    o.sample = sim::chance(sim::WORK, 0.5);
    s = X->spans[(size_t)o.span]->s.get();
    me = X->ops.size();
    X->ops.push_back(o);
  }
  std::string v = val(o.value), tag = tag_key(o.value), name = "n" + std::to_string(o.value), key = std::string(1, (char)('a' + o.key));
  opentracing::Value some[4];
  {
    sim::NoYield n;
    for (int i = 0; i < 4; ++i) some[i] = value(o.value + 1000 * i);
  }
  std::vector<std::pair<std::string, std::string>> seen;
  auto mark = [&](bool end) {
    sim::Harness h;
    (end ? X->ops[me].end : X->ops[me].begin) = sim::seq();
    if (o.kind == FINISH) {
      if (end)
        X->current.erase(sim::self());
      else
        X->current[sim::self()] = o.span;
    }
    if (end) X->ops[me].seen = seen;
  };
  mark(false);
  bool oom = (o.kind == TAG || o.kind == LOG || o.kind == NAME || o.kind == BAGGAGE || o.kind == FINISH) && X->oom > 0 && sim::chance(sim::FAULT, X->oom);
  auto arm = [&] {
    if (oom) sim::fail_alloc_after(sim::range(sim::FAULT, 1, 5));
  };
  auto log = [&](std::initializer_list<std::pair<opentracing::string_view, opentracing::Value>> fields) {
    arm();
    s->Log(fields);
  };
  switch (o.kind) {
    case TAG: arm(), s->SetTag(tag, some[0]); break;
    case LOG:
      if (o.value % 3)
        log({{"l", some[0]}, {"n", o.value}});
      else
        log({{"l", some[0]}, {"n", o.value}, {"m", some[1]}, {"k", some[2]}, {"", some[3]}});
      break;
    case BAGGAGE:
      if (sim::chance(sim::WORK, 0.5)) key[0] = (char)('A' + o.key);
      arm(), s->SetBaggageItem(key, v);
      break;
    case NAME: arm(), s->SetOperationName(name); break;
    case SAMPLE: s->SetTag("sampling.priority", o.sample ? 1 : 0); break;
    case FINISH:
      if (sim::chance(sim::WORK, 0.7)) {
        arm(), s->Finish();
      } else {
        opentracing::FinishSpanOptions f;
        opentracing::LogRecord r;
        r.timestamp = std::chrono::system_clock::now();
        r.fields.emplace_back("f", some[0]);
        if (o.value % 3 == 0) r.fields.emplace_back("g", some[1]);
        f.log_records.push_back(r);
        arm(), s->FinishWithOptions(f);
      }
      break;
    case READ: seen.emplace_back(key, s->BaggageItem(key)); break;
    case EACH:
      s->context().ForeachBaggageItem([&](const std::string& k, const std::string& x) {
        seen.emplace_back(k, x);
        return true;
      });
      break;
    case CHILD: {
      int other = -1;
      if (sim::chance(sim::WORK, 0.2)) other = (int)sim::choose(sim::WORK, (uint64_t)n_spans);
      size_t c = start(o.span, other);
      sim::Harness h;
      X->ops[me].skip = other >= 0 && other != o.span;
      seen = X->spans[c]->inherited;
      break;
    }
    case INJECT: {
      std::unordered_map<std::string, std::string> m;
      Carrier c{m};
      if (!X->tracer->Inject(s->context(), c)) {
        sim::fail(P, "inject", "a context can't be injected");
      } else {
        sim::Harness h;
        char t[20], i[20];
        snprintf(t, sizeof t, "%016llx", (unsigned long long)X->spans[(size_t)o.span]->trace);
        snprintf(i, sizeof i, "%016llx", (unsigned long long)X->spans[(size_t)o.span]->id);
        if (m["ot-tracer-traceid"] != t || m["ot-tracer-spanid"] != i) sim::fail(P, "inject", "span %s of trace %s is injected as %s of %s", i, t, m["ot-tracer-spanid"].c_str(), m["ot-tracer-traceid"].c_str());
        for (auto& kv : m)
          if (kv.first.compare(0, 11, "ot-baggage-") == 0) seen.emplace_back(kv.first.substr(11), kv.second);
      }
      break;
    }
  }
  oom = sim::alloc_fail_fired();
  sim::fail_alloc_after(0);
  mark(true);
  sim::Harness h;
  X->failures += oom;
  if (oom) X->ops[me].failed = X->spans[(size_t)o.span]->short_of_memory = true;
  sim::log("op %zu: kind %d on span %d, value %d", me, (int)o.kind, o.span, o.value);
}
void end_span(size_t i) {
  {
    sim::Harness h;
    X->current[sim::self()] = (int)i;
    X->spans[i]->destroyed = sim::seq();
  }
  X->spans[i]->s.reset();
  sim::Harness h;
  X->current.erase(sim::self());
}

// what a reader may have seen of one key
void check_read(const Op& r, const std::string& key, const std::string* got) {
  const Sp& s = *X->spans[(size_t)r.span];
  // writes that may have taken effect: those not certainly ignored
  const Op* w = nullptr;
  bool initial = false;
  std::string init;
  for (auto& k : s.inherited)
    if (k.first == key) init = k.second, initial = true;
  if (got) {
    for (auto& o : X->ops)
      if (o.kind == BAGGAGE && o.span == r.span && std::string(1, (char)('a' + o.key)) == key && val(o.value) == *got) w = &o;
    if (!w && !(initial && init == *got)) return sim::fail(P, "baggage", "baggage '%s' of span %d is '%s', which nobody set", key.c_str(), r.span, got->c_str());
    if (w && w->begin > r.end) return sim::fail(P, "baggage", "baggage '%s' of span %d is known before it is set", key.c_str(), r.span);
  }
  // a write certainly in effect and certainly later than what was read
  uint64_t first_finish = s.destroyed;
  for (auto& o : X->ops)
    if (o.kind == FINISH && o.span == r.span) first_finish = std::min(first_finish, o.begin);
  for (auto& o : X->ops)
    if (o.kind == BAGGAGE && !o.failed && o.span == r.span && std::string(1, (char)('a' + o.key)) == key && o.end < r.begin && o.end < first_finish && &o != w &&
        (!w || w->end < o.begin))
      return sim::fail(P, "baggage", "a reader of baggage '%s' of span %d misses what was set before", key.c_str(), r.span);
}
}  // namespace

SIM_SCENARIO(spans) {
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.stall = sim::chance(sim::FAULT, 0.3) ? 0.01 : 0;
  c.stall_max = 50 * US;
  c.quarantine = sim::chance(sim::WORK, 0.5) ? 0 : 64;
  salt = 1 + sim::choose(sim::WORK, 1u << 30);
  ctx.legacy = sim::chance(sim::WORK, 0.4);
  ctx.oom = !ctx.legacy && sim::chance(sim::FAULT, 0.1) ? sim::pick<double>(sim::FAULT, {0.05, 0.3}) : 0;
  ctx.header = !ctx.legacy && sim::chance(sim::WORK, 0.5);
  auto logger = std::make_shared<Logger>([](LogLevel l, opentracing::string_view) {
    sim::Harness h;
    if (l == LogLevel::error) ++X->errors;
  });
  LightStepTracerOptions po;
  po.propagation_modes = {PropagationMode::lightstep};
  std::unique_ptr<Recorder> k{new Keeper};
  if (ctx.legacy)
    ctx.tracer.reset(new LegacyTracerImpl{logger, MakePropagationOptions(po), std::move(k)});
  else
    ctx.tracer.reset(new TracerImpl{logger, MakePropagationOptions(po), std::move(k)});
  int n = (int)sim::range(sim::WORK, 1, 2);
  for (int i = 0; i < n; ++i) start(-1);
  int threads = (int)sim::range(sim::WORK, 1, 3), ops = (int)sim::range(sim::WORK, 1, 12);
  {
    std::vector<std::thread> th;
    for (int t = 0; t < threads; ++t)
      th.emplace_back([&] {
        for (int j = 0; j < ops; ++j) step(n);
      });
    for (auto& t : th) t.join();
  }
  for (size_t i = 0; i < ctx.spans.size(); ++i) end_span(i);
  sim::Harness h;
  for (size_t i = 0; i < ctx.spans.size(); ++i) {
    Sp& s = *ctx.spans[i];
    uint64_t first_begin = s.destroyed, first_end = UINT64_MAX;
    bool any_finish = false;
    for (auto& o : ctx.ops)
      if (o.span == (int)i && o.kind == FINISH) any_finish = true, first_begin = std::min(first_begin, o.begin), first_end = std::min(first_end, o.end);
    (void)any_finish;
    // the sampling decision
    bool may_be_on = i < (size_t)n, may_be_off = false;
    {
      const Op* last = nullptr;
      std::vector<const Op*> maybe;
      for (auto& o : ctx.ops)
        if (o.span == (int)i && o.kind == SAMPLE) maybe.push_back(&o);
      (void)last;
      // a decision stands if no other one certainly replaced it before the end
      auto superseded = [&](const Op* a) {
        for (auto* b : maybe)
          if (b != a && b->end < first_begin && (!a || a->end < b->begin)) return true;
        return false;
      };
      if (i < (size_t)n) {
        may_be_on = !superseded(nullptr);
        for (auto* a : maybe)
          if (a->begin < (s.recorded ? s.record_seq : s.destroyed) && !superseded(a)) (a->sample ? may_be_on : may_be_off) = true;
      } else {
        may_be_on = may_be_off = true;
      }
    }
    if (s.recorded && !may_be_on) sim::fail(P, "sampling", "span %zu is recorded though it isn't sampled", i);
    if (!s.recorded && s.short_of_memory && (ctx.errors || ctx.failures > 1)) continue;  // (the message itself may fail)
    if (!s.recorded && !may_be_off) sim::fail(P, "lost", "span %zu was finished but not recorded", i);
    if (!s.recorded) continue;
    if (s.stream && kit::text(*s.stream) != s.bytes) sim::fail(P, "late-write", "span %zu changes after it was recorded", i);
    const auto& pb = s.pb;
    if (pb.span_context().trace_id() != s.trace || pb.span_context().span_id() != s.id) sim::fail(P, "garbled", "span %zu is recorded with other identifiers", i);
    if (s.refs.size() != (size_t)pb.references_size()) {
      sim::fail(P, "reference", "span %zu has %d references", i, pb.references_size());
      continue;
    }
    for (size_t k = 0; k < s.refs.size(); ++k) {
      auto& g = pb.references((int)k);
      if (g.span_context().span_id() != s.refs[k].id || g.span_context().trace_id() != s.refs[k].trace || (g.relationship() == collector::Reference::FOLLOWS_FROM) != s.refs[k].follows)
        sim::fail(P, "reference", "span %zu refers to another parent", i);
    }
    std::map<std::string, int> tags, logs;
    int finish_logs = 0;
    for (auto& t : pb.tags()) {
      ++tags[t.key() + "=" + text(t)];
    }
    for (auto& l : pb.logs()) {
      std::string k;
      for (auto& f : l.fields()) k += f.key() + "=" + text(f) + ";";
      ++logs[k];
    }
    for (auto& o : ctx.ops) {
      if (o.span != (int)i) continue;
      bool must = o.end < first_begin && !o.failed, mustnt = o.begin > s.record_seq;
      std::map<std::string, int>* where = nullptr;
      std::string what;
      if (o.kind == TAG) where = &tags, what = tag_key(o.value) + "=" + want(o.value);
      if (o.kind == LOG) where = &logs, what = log_text(o.value);
      if (o.kind == FINISH) where = &logs, what = "f=" + want(o.value) + ";" + (o.value % 3 ? "" : "g=" + want(o.value + 1000) + ";");
      if (!where) continue;
      int have = where->count(what) ? (*where)[what] : 0;
      where->erase(what);
      if (o.kind == FINISH) {
        finish_logs += have;
        continue;
      }
      if (have > 1) sim::fail(P, "repeated", "span %zu records value %d %d times", i, o.value, have);
      if (have && mustnt) sim::fail(P, "late", "span %zu records value %d, which was set after it finished", i, o.value);
      if (!have && must) sim::fail(P, "missing", "span %zu doesn't record value %d, which was set before it finished", i, o.value);
    }
    if (finish_logs > 1) sim::fail(P, "repeated", "span %zu records the logs of several finishes", i);
    for (int v : s.start_tags) {
      auto it = tags.find(tag_key(v) + "=" + want(v));
      if (it == tags.end() || it->second != 1)
        sim::fail(P, "missing", "span %zu records the tag %d that it was started with %d times", i, v, it == tags.end() ? 0 : it->second);
      else
        tags.erase(it);
    }
    tags.erase("sampling.priority=i0");
    tags.erase("sampling.priority=i1");
    if (!tags.empty()) sim::fail(P, "garbled", "span %zu has a tag '%s' nobody set", i, tags.begin()->first.c_str());
    if (!logs.empty()) sim::fail(P, "garbled", "span %zu has a log '%s' nobody made", i, logs.begin()->first.c_str());
    // name
    if (pb.operation_name() != "n0") {
      const Op* w = nullptr;
      for (auto& o : ctx.ops)
        if (o.span == (int)i && o.kind == NAME && pb.operation_name() == "n" + std::to_string(o.value)) w = &o;
      if (!w || w->begin > s.record_seq)
        sim::fail(P, "name", "span %zu is named '%s'", i, pb.operation_name().c_str());
      else
        for (auto& o : ctx.ops)
          if (o.span == (int)i && o.kind == NAME && !o.failed && o.end < first_begin && w->end < o.begin) sim::fail(P, "name", "span %zu has an outdated name", i);
    } else {
      for (auto& o : ctx.ops)
        if (o.span == (int)i && o.kind == NAME && !o.failed && o.end < first_begin) sim::fail(P, "name", "span %zu keeps its first name", i);
    }
    // baggage as recorded
    Op r;
    r.span = (int)i;
    r.begin = first_begin;
    r.end = s.record_seq;
    for (int key = 0; key < 3; ++key) {
      std::string k(1, (char)('a' + key));
      auto it = pb.span_context().baggage().find(k);
      check_read(r, k, it == pb.span_context().baggage().end() ? nullptr : &it->second);
    }
  }
  for (auto& o : ctx.ops) {
    if (o.kind == READ && o.seen.size() == 1) check_read(o, o.seen[0].first, o.seen[0].second.empty() ? nullptr : &o.seen[0].second);
    if (o.skip) continue;
    if (o.kind == EACH || o.kind == CHILD || o.kind == INJECT)
      for (int key = 0; key < 3; ++key) {
        std::string k(1, (char)('a' + key));
        const std::string* got = nullptr;
        int times = 0;
        for (auto& kv : o.seen)
          if (kv.first == k) got = &kv.second, ++times;
        if (times > 1) sim::fail(P, "baggage", "baggage '%s' of span %d is there %d times", k.c_str(), o.span, times);
        check_read(o, k, got);
      }
  }
}
