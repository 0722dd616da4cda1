// Timers, descriptor events and loops: a random program of arming, re-arming,
// cancelling, moving and destroying, against the simulated clock.
#include <event2/event.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <memory>
#include <thread>
#include "kit/kit.h"
#include "network/event.h"
#include "network/event_base.h"
#include "network/socket.h"
#include "network/timer_event.h"
using namespace lightstep;
using sim::MS;
using sim::SEC;
using sim::US;

namespace {
struct Item;
struct Ctx {
  std::unique_ptr<EventBase> base;
  std::vector<std::unique_ptr<Item>> items;
  int64_t busy = 0;         // time spent in callbacks so far
  double slow = 0;
  bool stopped = false;     // the loop was told to stop and hasn't returned
  int64_t stop_at = -1;
  int budget = 400;
  // The loop reads the clock once per round: what is armed right after slow
  // callbacks counts from before them.
  int64_t chain = 0, chain_end = -SEC;
  int64_t lag() const { return sim::now() - chain_end < MS ? chain : 0; }
};
Ctx* X;
const int64_t EARLY = 3 * MS, LATE = 12 * MS;

enum Kind { PERIODIC, TIMER, ONESHOT, PLAIN, FD };
struct Item {
  Kind kind = PERIODIC;
  int id = 0;
  int64_t period = 0;             // of the current arming
  bool armed = false, dead = false, persist = false;
  int64_t since = 0, fired = 0;   // armed at, firings since
  int64_t last = 0, busy_then = 0, busy_armed = 0;
  // descriptor events
  short what = 0;
  bool timed = false;
  std::unique_ptr<TimerEvent> timer;
  std::unique_ptr<Event> event;
  Socket socket;
  sim::Conn* conn = nullptr;
  int64_t unread = 0, data_at = -1, data_busy = 0;
  int64_t base = 0, lag = 0;      // what its next timeout counts from, at least
  bool ever_timed = false;

  void arm(int64_t p) {
    armed = true;
    period = p;
    since = last = base = sim::now();
    fired = 0;
    busy_then = busy_armed = X->busy;
    lag = X->lag();
  }
  // when is it due at the latest?
  bool overdue(int64_t now) const {
    if (!armed || dead) return false;
    int64_t slack = LATE + (X->busy - busy_then);
    if (kind == FD && (what & EV_READ) && data_at >= 0 && now > std::max(data_at, since) + LATE + (X->busy - data_busy)) return true;
    if (kind == FD && (what & EV_WRITE)) return now > last + slack;
    if (kind == FD && !timed) return false;
    return now > last + period + slack;
  }
};
struct Writable : sim::Peer {
  std::string got;
  void on_data(sim::Conn&, const char* d, size_t n) override { got.append(d, n); }
  void on_fin(sim::Conn&) override {}
  void on_reset(sim::Conn&) override {}
};

void random_step(Item* me);
void check_all() {
  for (auto& i : X->items)
    if (i->overdue(sim::now()))
      sim::fail("C21", "late", "event %d of kind %d, armed %lld us ago with a period of %lld us, is overdue", i->id, (int)i->kind,
                (long long)((sim::now() - i->last) / US), (long long)(i->period / US));
}
void fire(Item* it, int fd, short what) {
  {
    sim::Harness h;
    int64_t now = sim::now();
    sim::log("event %d fires (%d)", it->id, what);
    if (it->dead) return sim::fail("C21", "zombie", "event %d fires after it was destroyed", it->id);
    if (!it->armed) return sim::fail("C21", "zombie", "event %d fires although it isn't armed", it->id);
    if (X->stopped) return sim::fail("C21", "after-stop", "event %d fires after the loop was told to stop", it->id);
    if (it->kind == FD) {
      if (fd != it->socket.file_descriptor()) return sim::fail("C21", "descriptor", "event %d is told of descriptor %d", it->id, fd);
      if (what & ~(it->what | EV_TIMEOUT)) return sim::fail("C21", "unasked", "event %d is told of %d, which it didn't ask for", it->id, what);
      if ((what & EV_READ) && !it->unread) return sim::fail("C21", "unready", "event %d is told to read but nothing arrived", it->id);
      if ((what & EV_TIMEOUT) && !it->timed) return sim::fail("C21", "unasked", "event %d has no timeout but is told of one", it->id);
    } else if (what != EV_TIMEOUT) {
      return sim::fail("C21", "unasked", "timer %d is told of %d", it->id, what);
    }
    if ((what & EV_TIMEOUT) && now < it->base + it->period - EARLY - it->lag - (X->busy - it->busy_armed))
      return sim::fail("C21", "early", "event %d with a period of %lld us fires for the %lldth time %lld us after it was due before (armed %lld us ago)", it->id,
                       (long long)(it->period / US), (long long)it->fired + 1, (long long)((now - it->base) / US), (long long)((now - it->since) / US));
    if (what & EV_TIMEOUT) {
      it->base += it->period;
      if (it->base + it->period < now) it->base = now, it->lag = std::max(it->lag, X->lag());
    } else {
      it->base = now;
      it->lag = std::max(it->lag, X->lag());
    }
    check_all();
    ++it->fired;
    it->last = now;
    it->busy_then = X->busy;
    if (!it->persist) it->armed = false;
    if (it->kind == FD && (what & EV_READ) && sim::chance(sim::WORK, 0.8)) {
      char b[256];
      ssize_t k;
      while ((k = read(fd, b, sizeof b)) > 0) it->unread -= k;
      it->data_at = it->unread ? now : -1;
      it->data_busy = X->busy;
    } else if (it->kind == FD && (what & EV_READ)) {
      it->data_at = now;
      it->data_busy = X->busy;
    }
  }
  if (it->kind == FD && it->persist && (what & EV_WRITE) && sim::chance(sim::WORK, 0.7)) {
    it->event->Remove();
    it->armed = false;
  }
  int n = (int)sim::pick<int>(sim::WORK, {0, 0, 1, 2});
  for (int k = 0; k < n; ++k) random_step(it);
  if (sim::chance(sim::WORK, X->slow)) {  // a slow callback
    int64_t t = sim::range(sim::FAULT, 1, 40) * MS, before = X->lag();
    sim::fault("slow_callback");
    std::this_thread::sleep_for(std::chrono::nanoseconds(t));
    X->busy += t;
    X->chain = before + t;
    X->chain_end = sim::now();
  }
}
void on_event(int fd, short what, void* p) { fire(static_cast<Item*>(p), fd, what); }
struct Member {
  Item* it;
  void OnTimer() { fire(it, -1, EV_TIMEOUT); }
};

int64_t some_period() {
  int64_t p = sim::pick<int64_t>(sim::WORK, {20 * MS, 5 * MS, 100 * MS, 999999 * US, 1000 * MS, 2500001 * US, 61 * SEC});
  if (p < 200 * MS && sim::chance(sim::WORK, 0.5)) p = sim::range(sim::WORK, 5000, p / US) * US;
  return p;
}
std::chrono::microseconds us(int64_t ns) { return std::chrono::microseconds(ns / US); }
timeval tv(int64_t ns) { return timeval{(time_t)(ns / SEC), (suseconds_t)(ns % SEC / US)}; }

Item* add(Kind k) {
  auto u = std::make_unique<Item>();
  Item* it = u.get();
  it->kind = k;
  it->id = (int)X->items.size();
  X->items.push_back(std::move(u));
  return it;
}
void create() {
  Item* it = add((Kind)sim::choose(sim::WORK, 5));
  int64_t p = some_period();
  switch (it->kind) {
    case PERIODIC:
      it->persist = true;
      it->timer.reset(new TimerEvent{*X->base, us(p), on_event, it});
      it->arm(p);
      break;
    case TIMER:
      it->persist = true;
      it->timer.reset(new TimerEvent{*X->base, on_event, it});
      if (sim::chance(sim::WORK, 0.7)) {
        timeval t = tv(p);
        it->timer->Reset(&t);
        it->arm(p);
      }
      break;
    case ONESHOT:
      X->base->OnTimeout(us(p), on_event, it);
      it->arm(p);
      break;
    case PLAIN:
      it->persist = sim::chance(sim::WORK, 0.3);
      it->event.reset(new Event{*X->base, -1, (short)(it->persist ? EV_PERSIST : 0), on_event, it});
      it->event->Add(us(p));
      it->arm(p);
      break;
    case FD: {
      std::shared_ptr<Writable> peer;
      {
        sim::Harness h;
        peer = std::make_shared<Writable>();
      }
      int fd = sim::make_stream(std::move(peer), 1000, 100 * US, &it->conn);
      it->socket = Socket{fd};
      it->persist = sim::chance(sim::WORK, 0.5);
      it->what = sim::chance(sim::WORK, 0.7) ? EV_READ : EV_WRITE;
      it->event.reset(new Event{*X->base, fd, (short)(it->what | (it->persist ? EV_PERSIST : 0)), on_event, it});
      break;
    }
  }
  sim::Harness h;
  sim::log("event %d of kind %d, period %lld us", it->id, (int)it->kind, (long long)(p / US));
}
Item* pick_item(bool (*ok)(Item*)) {
  std::vector<Item*> v;
  for (auto& i : X->items)
    if (!i->dead && ok(i.get())) v.push_back(i.get());
  return v.empty() ? nullptr : v[sim::choose(sim::WORK, v.size())];
}
void random_step(Item* me) {
  if (--X->budget < 0) return;
  switch (sim::choose(sim::WORK, 11)) {
    case 0: case 1: create(); break;
    case 2:  // reset to the same period
      if (Item* i = pick_item([](Item* x) { return x->timer != nullptr; })) {
        if (i->kind == TIMER && !i->armed && i->period == 0) break;
        sim::log("reset %d", i->id);
        i->timer->Reset();
        i->arm(i->period);
      }
      break;
    case 3:  // to another one
      if (Item* i = pick_item([](Item* x) { return x->timer != nullptr; })) {
        int64_t p = some_period();
        timeval t = tv(p);
        sim::log("reset %d to %lld us", i->id, (long long)(p / US));
        i->timer->Reset(&t);
        i->arm(p);
      }
      break;
    case 4:  // to never
      if (Item* i = pick_item([](Item* x) { return x->timer != nullptr; })) {
        sim::log("reset %d to never", i->id);
        i->timer->Reset(nullptr);
        i->armed = false;
      }
      break;
    case 5:  // add a plain or descriptor event (again)
      if (Item* i = pick_item([](Item* x) { return x->event != nullptr; })) {
        int64_t p = some_period();
        if (i->kind == FD && sim::chance(sim::WORK, 0.5)) {
          if (i->armed || (i->persist && i->ever_timed)) break;  // adding without a timeout keeps an earlier one
          sim::log("add %d", i->id);
          i->event->Add(nullptr);
          i->timed = false;
        } else {
          // One that is armed and active in the same round would lose its
          // descriptor, which is the library's doing.
          if (i->armed && i->kind == FD) i->event->Remove();
          sim::log("add %d with %lld us", i->id, (long long)(p / US));
          i->event->Add(us(p));
          i->timed = i->ever_timed = true;
        }
        i->arm(p);
        if (i->data_at >= 0) i->data_at = sim::now(), i->data_busy = X->busy;
      }
      break;
    case 6:  // remove
      if (Item* i = pick_item([](Item* x) { return x->event != nullptr; })) {
        sim::log("remove %d", i->id);
        i->event->Remove();
        i->armed = false;
      }
      break;
    case 7:  // destroy
      if (Item* i = pick_item([](Item* x) { return x->event || x->timer; })) {
        sim::log("destroy %d", i->id);
        i->dead = true;
        i->event.reset();
        i->timer.reset();
        i->socket = Socket{InvalidSocket};
      }
      break;
    case 8:  // move
      if (sim::chance(sim::WORK, 0.3)) {
        // given up by assigning an event that is none
        Item* i = pick_item([](Item* x) { return x->event != nullptr; });
        if (!i) break;
        sim::log("give up %d", i->id);
        i->dead = true;
        *i->event = Event{};
        i->socket = Socket{InvalidSocket};
      } else if (Item* i = pick_item([](Item* x) { return x->event != nullptr; })) {
        sim::log("move %d", i->id);
        if (sim::chance(sim::WORK, 0.5)) {
          i->event.reset(new Event{std::move(*i->event)});
        } else {
          Item* j = pick_item([](Item* x) { return x->event != nullptr; });
          if (j && j != i) {  // assigned over: the old one is gone for good
            j->dead = true;
            *j->event = std::move(*i->event);
            std::swap(j->event, i->event);
            j->event.reset();
            j->socket = Socket{InvalidSocket};
          }
        }
      }
      if (Item* i = pick_item([](Item* x) { return x->timer != nullptr; })) {
        sim::log("move timer %d", i->id);
        if (sim::chance(sim::WORK, 0.7)) {
          i->timer.reset(new TimerEvent{std::move(*i->timer)});
        } else {
          i->dead = true;
          *i->timer = TimerEvent{};
        }
      }
      break;
    case 9:  // data arrives
      if (Item* i = pick_item([](Item* x) { return x->kind == FD && x->conn; })) {
        int n = (int)sim::range(sim::WORK, 1, 100);
        i->conn->send(std::string((size_t)n, 'x'));
        i->unread += n;
        if (i->data_at < 0) i->data_at = sim::now(), i->data_busy = X->busy;
        sim::log("data for %d", i->id);
      }
      break;
    case 10:
      if (me && sim::chance(sim::WORK, 0.15)) {
        sim::log("stop");
        X->base->LoopBreak();
        X->stopped = true;
        X->stop_at = sim::now();
      } else if (sim::chance(sim::FAULT, 0.3)) {
        sim::fault("clock_jump");
        sim::jump_system_clock(sim::pick<int64_t>(sim::FAULT, {-1, 1}) * sim::range(sim::FAULT, 1, 100000) * SEC);
      }
      break;
  }
}
}  // namespace

SIM_SCENARIO(events) {
  event_set_log_callback([](int, const char*) {});
  Ctx ctx;
  X = &ctx;
  auto& c = sim::config();
  c.time_cap = 7200 * SEC;
  c.epoll_reorder = 0.3;
  c.eintr = sim::pick<double>(sim::FAULT, {0, 0.1, 0.3});
  c.preempt = 0;
  ctx.slow = sim::pick<double>(sim::WORK, {0, 0, 0.05, 0.15});
  ctx.base.reset(new EventBase);
  if (sim::chance(sim::WORK, 0.2)) {
    EventBase other{std::move(*ctx.base)};
    if (sim::chance(sim::WORK, 0.5)) *ctx.base = EventBase{};
    *ctx.base = std::move(other);
  }
  int rounds = (int)sim::range(sim::WORK, 1, 4);
  for (int r = 0; r < rounds; ++r) {
    int n = (int)sim::range(sim::WORK, 1, 8);
    for (int k = 0; k < n; ++k) random_step(nullptr);
    Item* end = add(ONESHOT);
    int64_t life = sim::pick<int64_t>(sim::WORK, {300, 1500, 3000, 70000}) * MS;
    // ends the round: the loop has to return at once
    bool* over = new bool(false);
    struct End {
      Item* it;
      bool* over;
    };
    auto* e = new End{end, over};
    ctx.base->OnTimeout(us(life),
                        [](int, short w, void* p) {
                          auto* e = static_cast<End*>(p);
                          {
                            sim::Harness h;
                            if (!e->it->armed) sim::fail("C21", "zombie", "a single timeout fires twice");
                            if (X->stopped) sim::fail("C21", "after-stop", "a timeout fires after the loop was told to stop");
                            if (sim::now() < e->it->since + e->it->period - EARLY) sim::fail("C21", "early", "a timeout of %lld us fires after %lld", (long long)(e->it->period / US), (long long)((sim::now() - e->it->since) / US));
                            e->it->armed = false;
                            check_all();
                            *e->over = true;
                          }
                          X->base->LoopBreak();
                          sim::Harness h;
                          X->stopped = true;
                          X->stop_at = sim::now();
                        },
                        e);
    end->arm(life);
    while (!*over) {
      ctx.base->Dispatch();
      sim::Harness h;
      check_all();
      if (!ctx.stopped) sim::fail("C21", "returned", "the loop returns although nobody stopped it and events are pending");
      ctx.stopped = false;
      if (sim::now() > ctx.stop_at + 2 * MS + 40 * MS) sim::fail("C21", "stop", "the loop returns %lld ms after it was told to stop", (long long)((sim::now() - ctx.stop_at) / MS));
    }
    delete over;
    delete e;
  }
  // everything else is destroyed in some order; pending single timeouts die with the loop
  for (auto& i : ctx.items) {
    i->dead = true;
    i->event.reset();
    i->timer.reset();
    i->socket = Socket{InvalidSocket};
  }
  ctx.base.reset();
  sim::Harness h;
  if (sim::open_fds()) sim::fail("C22", "leak", "%zu descriptors stay open", sim::open_fds());
  sim::check_leaks("C21", "after the loop and its events were destroyed");
}
