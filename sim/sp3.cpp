// C07, C08: SP3 reader.
#include "gen_sp3.hpp"
using namespace sim;
using namespace gen;
static const char *P = "/sim/igs.sp3";

// ------------------------------------------------------------------- C07
static void c07() {
  Sp3Opts o;
  o.lasting = true;
  Sp3File f = make_sp3(o);
  File &d = disk(P, f.text);
  g_budget_scale = f.text.size();
  benign_io(d);
  ambient_conditions();
  block("file", f.text);
  Sp3Session s;
  s.open(P);
  size_t N = f.epochs.size();
  ev("open epochs=%zu sats=%zu", N, f.ids.size());
  if (s.rd->num_sats() != (int)f.ids.size())
    fail("header", "num_sats() is %d, header has %zu", s.rd->num_sats(), f.ids.size());
  if (s.rd->interval().as_underlying_type() != f.interval_us)
    fail("header", "interval is %ld us, header has %ld", (long)s.rd->interval().as_underlying_type(), f.interval_us);
  if (s.vec.size() != f.ids.size())
    fail("header", "epoch vector has %zu elements for %zu satellites", s.vec.size(), f.ids.size());
  if (chance(1, 4))
    s.vec.resize(s.vec.size() + 7);
  auto expect = [&](size_t i, int st, const char *when) {
    int want = i + 1 == N ? -1 : 0;
    if (st != want)
      fail("epoch-lost", "%s: epoch %zu of %zu: status %d instead of %d", when, i, N, st, want);
    std::string df = sp3_diff(s, f.epochs[i]);
    if (!df.empty())
      fail("wrong-data", "%s: epoch %zu: %s", when, i, df.c_str());
  };
  for (size_t i = 0; i < N; i++)
    expect(i, s.read(), "first pass");
  if (f.ids.size() > 17)
    probe("more_than_17_satellites");
  size_t cur = N;
  bool taint = false, saw = false;
  long last = -1;
  int ops = history(0, 25);
  for (int k = 0; k < ops; k++)
    switch (weighted({8, 3, 2, 1})) {
    case 0: {
      u64 hits = d.eio_hits;
      int st = s.read();
      bool hit = d.eio_hits > hits;
      if (hit)
        probe("io_error_during_read");
      if (taint || hit) {
        if (st <= 0 && !(st == -1 && hit)) {
          long j = -1;
          for (size_t e = 0; e < N; e++)
            if ((long)e > last && sp3_diff(s, f.epochs[e]).empty() && (st == 0 || e + 1 == N)) {
              j = (long)e;
              break;
            }
          if (j < 0)
            fail("wrong-data", "after a fault: status %d with an epoch that is not (or no longer) next in the file", st);
          last = j;
          cur = (size_t)j + 1;
        }
        if (hit && st == -1)
          fail("io-error-as-eof", "an I/O error was reported as the end of the orbit");
        if (hit)
          taint = true;
        break;
      }
      if (cur < N) {
        expect(cur, st, "session");
        last = (long)cur++;
      } else if (st == 0)
        fail("phantom-epoch", "status 0 after the last epoch");
      break;
    }
    case 1: {
      u64 sf = d.seek_fails, hits = d.eio_hits;
      s.rewind();
      if (d.seek_fails > sf || d.eio_hits > hits) {
        taint = true;
        last = (long)cur - 1;
      } else {
        if (taint)
          probe("rewind_after_fault");
        if (cur == N)
          probe("rewind_after_end");
        cur = 0, last = -1, taint = false, saw = true;
      }
      break;
    }
    case 2:
      d.plan.eio_at = (long)f.eoh + (long)pick(f.text.size() - f.eoh);
      d.plan.eio_count = (int)range(1, 3);
      ev("arm EIO at %ld x%d", d.plan.eio_at, d.plan.eio_count);
      break;
    case 3:
      d.plan.seek_fail = (int)range(1, 2);
      ev("arm lseek failure x%d", d.plan.seek_fail);
      break;
    }
  d.plan.eio_at = -1;
  d.plan.seek_fail = 0;
  ev("faults stop");
  s.rewind();
  for (size_t i = 0; i < N; i++)
    expect(i, s.read(), "after the faults stopped and rewind()");
  if (N && f.epochs[0].sats.size())
    nontrivial();
  (void)saw;
}
SIM_PROP(C07, c07);

// ------------------------------------------------------------------- C08
/// damage one field of an epoch beyond recognition
static std::string make_unreadable(std::string &text, const Sp3Epoch &ep, Sub &r) {
  struct Field {
    size_t at;
    const char *put, *what;
  };
  std::vector<Field> v;
  size_t l = ep.begin;
  if (r.quiet() || ep.sats.empty() || r.chance(1, 3))
    v = {{l + 3, "xxxx", "year"}, {l + 8, "xx", "month"}, {l + 11, "xx", "day"}, {l + 14, "xx", "hour"}, {l + 17, "xx", "minute"},
         {l + 20, r.chance(1, 2) ? "  unread.ab" : "           ", "seconds"},
         {l + 3, "    ", "year"}, {l + 8, "  ", "month"}, {l + 11, "  ", "day"}, {l + 14, "  ", "hour"}, {l + 17, "  ", "minute"}};
  else
    for (; l < ep.end; l = text.find('\n', l) + 1) {
      if (text[l] != 'P')
        continue;
      v.push_back({l + 1, r.chance(1, 2) ? "?" : "Z", "satellite system"});
      v.push_back({l + 2, r.chance(1, 2) ? "xx" : "  ", "satellite number"});
      static const char *C[] = {"x coordinate", "y coordinate", "z coordinate", "clock"};
      for (size_t k = 0; k < 4; k++)
        v.push_back({l + 4 + 14 * k, r.chance(1, 3) ? "  unreadable  " : r.chance(1, 2) ? "        -.---x" : "              ", C[k]});
    }
  const Field &x = v[r.below(v.size())];
  text.replace(x.at, std::strlen(x.put), x.put);
  return fmt("%s (\"%s\")", x.what, x.put);
}
static void c08() {
  Sp3File f = make_sp3();
  size_t N = f.epochs.size();
  std::string text = f.text;
  // truncation, I/O error, flipped bytes, a field that holds no number (or system)
  int kind = weighted({3, 3, debug_flavour ? 0u : 3u, 2});
  size_t e = pick(N);
  size_t b = f.epochs[e].begin, en = f.epochs[e].end, off;
  switch (weighted({3, 2, 2})) {
  case 0: off = b + pick(en - b); break;
  case 1: off = en - std::min<size_t>(en - b, pick(6)); break;
  default: {
    size_t nl = text.find('\n', b + pick(en - b));
    off = nl + pick(3);
    if (off)
      off -= 1;
  }
  }
  off = std::max(f.eoh + 1, std::min(text.size(), off)); // the header peeks one byte
  if (kind == 2 && off >= text.size())
    off = text.size() - 1;
  bool io = kind == 1;
  size_t unreadable = N;
  if (kind == 3) {
    Sub r = sub();
    unreadable = e;
    off = b + 1; // the first byte only says that the epoch before is complete
    note("unreadable in epoch %zu: %s", e, make_unreadable(text, f.epochs[e], r).c_str());
    fault("unreadable_field");
  } else if (kind == 0) {
    text.resize(off);
    fault("truncation");
  } else if (kind == 2) {
    int n = weighted({3, 2, 1}) + 1;
    Sub r = sub();
    size_t first = text.size();
    for (int i = 0; i < n; i++) {
      size_t p = i == 0 ? off : std::min(text.size() - 1, off + r.below(300));
      static const char C[] = " 0123456789-+.*PEVOFGRMSJIC\n\0\xff";
      text[p] = chance(1, 2) ? (char)(text[p] ^ (1 << r.below(8))) : C[r.below(sizeof C - 1)];
      first = std::min(first, p);
      fault("flipped_byte");
    }
    if (chance(1, 3)) { // an epoch header or the EOF line is lost: epochs run together
      size_t q = f.epochs[pick(N)].begin;
      char c = one_of<char>({'/', 'P', ' ', 'V', '\xff'});
      if (q > f.eoh) { // (the header's end is told by the byte after it)
        text[q] = c;
        first = std::min(first, q);
        fault("flipped_byte");
      }
    }
    off = first;
  }
  File &d = disk(P, text);
  benign_io(d);
  if (io) {
    d.plan.eio_at = (long)off;
    d.plan.eio_count = one_of<int>({-1, 1, 2});
  }
  g_budget_scale = text.size();
  ambient_conditions();
  block("file as stored", text);
  note("damage kind %d at byte %zu of %zu (header ends at %zu)", kind, off, f.text.size(), f.eoh);
  Sp3Session s;
  s.open(P);
  s.vec.shrink_to_fit();
  nontrivial();
  size_t limit = text.size() + 10;
  for (size_t i = 0;; i++) {
    if (i > limit)
      fail("no-end", "status 0 was returned %zu times for a file of %zu bytes", i, text.size());
    int st = s.read();
    if (io && d.eio_hits && st == -1)
      fail("io-error-as-eof", "an I/O error was reported as the end of the orbit");
    // an epoch ends where the next line says so: that line must be intact
    bool before = i < N && (i + 1 < N ? f.epochs[i].end + 1 : f.epochs[i].end) <= off;
    if (kind == 2 && !before) {
      if (st)
        break;
      continue;
    }
    if (st <= 0) {
      if (i == unreadable)
        fail("unreadable-delivered", "epoch %zu has an unreadable field and got status %d", i, st);
      if (i >= N)
        fail("phantom-epoch", "status %d for epoch %zu, file has %zu", st, i, N);
      std::string df = sp3_diff(s, f.epochs[i]);
      if (!df.empty())
        fail("wrong-data", "epoch %zu (%s) delivered with status %d: %s", i, before ? "undamaged" : "damaged", st, df.c_str());
      if (st == -1 && i + 1 != N)
        fail("early-end", "epoch %zu of %zu delivered as the last one", i, N);
      if (st == -1)
        break;
    } else {
      if (before)
        fail("epoch-lost", "epoch %zu lies before the damage but got status %d", i, st);
      break;
    }
  }
  int more = (int)range(0, 5);
  for (int k = 0; k < more; k++)
    s.read();
}
SIM_PROP(C08, c08);
