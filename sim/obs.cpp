// C01-C03: observation RINEX reader under simulated disk, ambient conditions,
// and call histories.
#include "gen_obs.hpp"
using namespace sim;
using namespace gen;

static const char *P = "/sim/obs.rnx";

static void open_ok(ObsSession &s, const std::string &path) {
  try {
    s.open(path);
  } catch (std::exception &e) {
    fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
  }
}
static void check_header(ObsSession &s, const ObsFile &f) {
  double g[3] = {s.rd->x_approx(), s.rd->y_approx(), s.rd->z_approx()};
  for (int i = 0; i < 3; i++)
    if (std::fabs(g[i] - f.xyz[i]) > 1e-9)
      fail("header", "approximate coordinate %d is %.4f, header has %.4f", i, g[i], f.xyz[i]);
  auto t = s.rd->time_of_first_obs();
  double sod = f.first.h * 3600. + f.first.mi * 60. + f.first.sec;
  double d = (double)(t.mjd().as_underlying_type() - f.first.mjd()) * 86400. + t.sec().to_fractional_seconds() - sod;
  if (std::fabs(d) > 1.5e-6)
    fail("header", "time of first observation is off by %g s", d);
  int mo = api("max_obs", [&] { return s.rd->max_obs(); });
  if (mo != f.maxobs)
    fail("header", "max_obs() is %d, header lists %d", mo, f.maxobs);
}

// ------------------------------------------------------------------- C01
static void c01() {
  ObsOpts o;
  o.lasting = true;
  ObsFile f = make_obs(o);
  ObsReq q = make_req(f);
  File &d = disk(P, f.text);
  g_budget_scale = f.text.size();
  benign_io(d);
  ambient_conditions();
  block("file", f.text);
  ObsSession s;
  open_ok(s, P);
  ev("open bytes=%zu epochs=%zu", f.text.size(), f.epochs.size());
  check_header(s, f);
  s.set_map(q);
  for (size_t i = 0; i < f.epochs.size(); i++) {
    int st = s.read();
    ev("read -> %d sats=%d", st, s.sats);
    if (st != 0)
      fail("epoch-lost", "epoch %zu of %zu: status %d instead of 0", i, f.epochs.size(), st);
    std::string df = obs_diff(s, q, f.epochs[i]);
    if (!df.empty())
      fail("wrong-data", "epoch %zu: %s", i, df.c_str());
    if (f.epochs[i].sats.size() >= 40)
      probe("epoch_40plus_sats");
  }
  for (int i = 0; i < 3; i++) {
    int st = s.read();
    ev("read -> %d", st);
    if (st != -1)
      fail("end-of-file", "status %d instead of -1 after the last epoch", st);
  }
  if (f.maxobs >= 13)
    probe("header_continuation");
  if (!f.epochs.empty() && !q.want.empty())
    nontrivial();
}
SIM_PROP(C01, c01);

// ------------------------------------------------------------------- C02
static size_t damage_offset(const ObsFile &f, bool allow_end) {
  size_t lo = f.eoh, hi = f.text.size();
  if (f.epochs.empty())
    return hi;
  size_t e = pick(f.epochs.size());
  size_t b = f.epochs[e].begin, n = f.epochs[e].end;
  size_t off;
  switch (weighted({3, 2, 2})) {
  case 0: off = b + pick(n - b); break;                            // anywhere inside
  case 1: off = n - std::min<size_t>(n - b, pick(4)); break;       // around its end
  default: {                                                       // around a line end
    size_t k = b + pick(n - b);
    size_t nl = f.text.find('\n', k);
    off = nl + pick(3);
    if (off > 0)
      off -= 1;
  }
  }
  off = std::max(lo, std::min(hi, off));
  if (!allow_end && off >= hi)
    off = hi - 1;
  return off;
}
/// damage one field of epoch e beyond recognition
static std::string make_unreadable(std::string &text, const ObsFile &f, const ObsReq &q, size_t e, Sub &r) {
  const ObsEpoch &ep = f.epochs[e];
  struct Field {
    size_t at;
    const char *put, *what;
  };
  std::vector<Field> v;
  size_t l = ep.head;
  bool quiet = r.quiet();
  if (quiet || ep.sats.empty() || r.chance(1, 3)) {
    static const Field E[] = {{32, " xx", "number of satellites"}, {0, "<", "record identifier"}, {2, "xxxx", "year"}, {7, "xx", "month"},
                              {10, "xx", "day"}, {13, "xx", "hour"}, {16, "xx", "minute"}, {18, "  unread.ab", "seconds"}};
    for (auto &x : E)
      v.push_back({l + x.at, x.put, x.what});
  } else {
    for (auto &sv : ep.sats) {
      l = text.find('\n', l) + 1;
      v.push_back({l, r.chance(1, 2) ? "?" : "Z", "satellite system"});
      auto w = q.want.find(sv.sys);
      if (w == q.want.end())
        continue;
      v.push_back({l + 1, "xx", "satellite number"});
      for (auto &parts : w->second)
        for (auto &p : parts) {
          if (!sv.vals[(size_t)p.idx].present)
            break; // what follows is not needed
          v.push_back({l + 3 + 16 * (size_t)p.idx, r.chance(1, 2) ? "  unreadable  " : "        -.---x", "observation"});
        }
    }
  }
  const Field &x = v[r.below(v.size())];
  std::string put = x.put;
  bool may_be_blank = !std::strcmp(x.what, "observation") || !std::strcmp(x.what, "record identifier") || !std::strcmp(x.what, "satellite system");
  if (!may_be_blank && r.chance(1, 2)) { // nor is a blank one to be read from its neighbour
    put.assign(put.size(), ' ');
    probe("blank_field");
  }
  text.replace(x.at, put.size(), put);
  return fmt("%s (\"%s\")", x.what, put.c_str());
}
static void c02() {
  ObsOpts o;
  o.min_epochs = 1;
  o.max_epochs = 6;
  ObsFile f = make_obs(o);
  ObsReq q = make_req(f);
  std::string text = f.text;
  // truncation, I/O error, flipped bytes, a field that holds no number (or
  // system), a vector that is too short, an event that redefines the columns
  // (or torn inside an epoch, and taken up again by a receiver that was restarted)
  int kind = weighted({6, 6, debug_flavour ? 0u : 6u, 4, 1, 1, 4});
  size_t off = damage_offset(f, kind != 2);
  if (kind == 6) {
    size_t e = pick(f.epochs.size()), b = f.epochs[e].begin, k = e + pick(f.epochs.size() - e);
    off = b + 1 + pick(f.epochs[e].end - b - 1);
    if (chance(1, 3)) // between two lines
      off = text.rfind('\n', off - 1) + 1;
    text = f.text.substr(0, off) + f.text.substr(f.epochs[k].begin);
    note("torn in epoch %zu, continued with epoch %zu", e, k);
    fault("torn_and_continued");
    off = off > b ? off : b;
  }
  bool io = false;
  size_t unreadable = f.epochs.size();
  if (kind == 3) {
    unreadable = pick(f.epochs.size());
    Sub r = sub();
    std::string what = "number of records of an event";
    if (!r.quiet() && r.chance(1, 12)) {
      static const char *const C[] = {"  x", "   ", " -1", "-99", "  +"};
      text.insert(f.epochs[unreadable].begin, ">" + std::string(30, ' ') + (char)('2' + r.below(5)) + C[r.below(5)] + "\n");
      probe("unreadable_event");
    } else
      what = make_unreadable(text, f, q, unreadable, r);
    off = f.epochs[unreadable].begin;
    fault("unreadable_field");
    note("unreadable in epoch %zu: %s", unreadable, what.c_str());
  }
  if (kind == 0) {
    text.resize(off);
    fault("truncation");
  } else if (kind == 2) {
    int n = weighted({3, 2, 1}) + 1;
    Sub r = sub();
    size_t first = text.size();
    for (int i = 0; i < n; i++) {
      size_t p = i == 0 ? off : std::min(text.size() - 1, off + r.below(200));
      static const char C[] = " 0123456789-.>GREX\n\0\xff";
      text[p] = chance(1, 2) ? (char)(text[p] ^ (1 << r.below(8))) : C[r.below(sizeof C - 1)];
      first = std::min(first, p);
      fault("flipped_byte");
    }
    off = first;
    if (chance(1, 3)) { // damage the satellite count field of an epoch header
      size_t e = pick(f.epochs.size());
      size_t p = f.epochs[e].head + 32;
      std::string cnt = one_of<std::string>({"999", " 81", "-01", "  x", " 99", "1e9"});
      text.replace(p, 3, cnt);
      off = std::min(off, p);
      fault("flipped_byte");
    }
  }
  size_t redefined = f.epochs.size(), room = 0;
  char rsys = f.order[0];
  if (kind == 4) {
    off = text.size();
    for (auto &e : f.epochs)
      room = std::max(room, e.sats.size());
    room = pick(room + 1);
    note("room for %zu satellites", room);
    fault("short_vector");
  } else if (kind == 5) { // the observation types of a system, in reverse order
    redefined = pick(f.epochs.size());
    rsys = f.order[pick(f.order.size())];
    std::vector<std::string> l;
    auto &v = f.types.at(rsys);
    for (size_t i = 0; i < v.size(); i += 13) {
      std::string b = i ? std::string(6, ' ') : fmt("%c  %3zu", rsys, v.size());
      for (size_t k = i; k < std::min(v.size(), i + 13); k++)
        b += " " + v[v.size() - 1 - k];
      l.push_back(hline(b, "SYS / # / OBS TYPES", chance(1, 2)));
    }
    for (size_t n = pick(3); n > 0; n--)
      l.insert(l.begin(), hline("a comment", "COMMENT"));
    std::string h = ">" + std::string(30, ' ') + fmt("4%3zu\n", l.size());
    for (auto &x : l)
      h += x;
    off = f.epochs[redefined].begin;
    text.insert(off, h);
    fault("redefined_types");
  }
  File &d = disk(P, text);
  benign_io(d);
  if (kind == 1) {
    d.plan.eio_at = (long)off;
    d.plan.eio_count = one_of<int>({-1, 1, 2});
    io = true;
  }
  g_budget_scale = text.size();
  ambient_conditions();
  block("file as stored", text);
  note("damage kind %d at byte %zu of %zu (header ends at %zu)", kind, off, f.text.size(), f.eoh);
  ObsSession s;
  open_ok(s, P);
  s.set_map(q);
  if (kind == 4) {
    s.vec.resize(room);
    s.vec.shrink_to_fit();
  }
  size_t limit = text.size() + 10, i = 0, again = 0;
  nontrivial();
  for (;; i++) {
    if (i > limit)
      fail("no-end", "status 0 was returned %zu times for a file of %zu bytes", i, text.size());
    u64 hits = d.eio_hits;
    int st = s.read();
    ev("read -> %d sats=%d", st, s.sats);
    bool before = i < f.epochs.size() && f.epochs[i].end <= off;
    if (kind == 4 && before && f.epochs[i].sats.size() > room && st > 0)
      break; // there are more satellites than the caller has room for
    if (kind == 5 && i >= redefined && i < f.epochs.size()) {
      if (st > 0)
        break; // refused
      ObsEpoch now = f.epochs[i];
      for (auto &sv : now.sats)
        if (sv.sys == rsys)
          std::reverse(sv.vals.begin(), sv.vals.end());
      std::string df = st ? "status -1" : obs_diff(s, q, now);
      if (!df.empty())
        fail("wrong-data", "epoch %zu, after the types of %c were redefined: %s", i, rsys, df.c_str());
      continue;
    }
    if (st == 0) {
      if (io && d.eio_hits > hits && !before)
        probe("status0_despite_io_error");
      if (kind == 3 && i == unreadable)
        fail("unreadable-delivered", "epoch %zu has an unreadable field and got status 0", i);
      if (kind == 2 && !before)
        continue; // content after flipped bytes is not specified
      if (kind == 6 && !before) { // only what was recorded is ever delivered
        size_t e = 0;
        while (e < f.epochs.size() && !obs_diff(s, q, f.epochs[e]).empty())
          e++;
        if (e == f.epochs.size())
          fail("wrong-data", "after an epoch that was cut off and continued: status 0 with an epoch nobody recorded");
        continue;
      }
      if (i >= f.epochs.size())
        fail("phantom-epoch", "status 0 for epoch %zu, file has %zu", i, f.epochs.size());
      std::string df = obs_diff(s, q, f.epochs[i]);
      if (!df.empty())
        fail("wrong-data", "epoch %zu (%s) delivered with status 0: %s", i, before ? "undamaged" : "damaged", df.c_str());
    } else {
      if (before)
        fail("epoch-lost", "epoch %zu lies before the damage but got status %d", i, st);
      if (io && d.eio_hits && st == -1)
        fail("io-error-as-eof", "an I/O error was reported as end of file");
      if (kind == 3 && st == -1)
        fail("unreadable-as-eof", "epoch %zu has an unreadable field, reported as end of file", i);
      if (kind == 6 && st > 0 && again < 8) {
        again++;
        continue;
      }
      break;
    }
  }
}
SIM_PROP(C02, c02);

// ------------------------------------------------------------------- C03
static void c03() {
  ObsOpts o;
  o.min_epochs = 1;
  o.max_epochs = 6;
  o.big = false;
  o.lasting = true;
  ObsFile f = make_obs(o);
  ObsReq q = make_req(f);
  File &d = disk(P, f.text);
  g_budget_scale = f.text.size();
  benign_io(d);
  ambient_conditions();
  block("file", f.text);
  ObsSession s;
  open_ok(s, P);
  s.set_map(q);
  size_t N = f.epochs.size(), cur = 0;
  bool taint = false;
  long last = -1; // last record delivered while tainted
  int ops = history(2, 30);
  bool saw = false;
  for (int k = 0; k < ops; k++) {
    switch (weighted({10, 3, 1, 2, 1, 3})) {
    case 0:
    case 5: {
      u64 hits = d.eio_hits;
      int st = s.read();
      bool hit = d.eio_hits > hits;
      ev("read -> %d sats=%d", st, s.sats);
      if (hit)
        probe("io_error_during_read");
      if (taint || hit) {
        if (st == 0) {
          long j = -1;
          for (size_t e = 0; e < N; e++)
            if ((long)e > last && obs_diff(s, q, f.epochs[e]).empty()) {
              j = (long)e;
              break;
            }
          if (j < 0)
            fail("wrong-data", "after a fault: status 0 with a record that is not (or no longer) next in the file");
          last = j;
          cur = (size_t)j + 1;
        }
        if (hit && st == -1)
          fail("io-error-as-eof", "an I/O error was reported as end of file");
        if (hit)
          taint = true;
        break;
      }
      if (cur < N) {
        if (st != 0)
          fail("epoch-lost", "epoch %zu of %zu: status %d instead of 0", cur, N, st);
        std::string df = obs_diff(s, q, f.epochs[cur]);
        if (!df.empty())
          fail("wrong-data", "epoch %zu: %s", cur, df.c_str());
        last = (long)cur;
        ++cur;
      } else {
        if (st != -1)
          fail("end-of-file", "status %d instead of -1 after the last epoch", st);
        probe("read_at_eof");
      }
      break;
    }
    case 1: {
      u64 sf = d.seek_fails, hits = d.eio_hits;
      api("rewind", [&] { s.rd->rewind(); });
      bool bad = d.seek_fails > sf || d.eio_hits > hits;
      ev("rewind%s", bad ? " (fails)" : "");
      if (!bad) {
        if (taint)
          probe("rewind_after_fault");
        if (cur == N)
          probe("rewind_after_eof");
        cur = 0;
        taint = false;
        last = -1;
        saw = true;
      } else {
        taint = true;
        last = (long)cur - 1;
      }
      break;
    }
    case 2:
      q = make_req(f);
      s.set_map(q);
      break;
    case 3: // a transient I/O error ahead
      d.plan.eio_at = (long)f.eoh + (long)pick(f.text.size() - f.eoh);
      d.plan.eio_count = (int)range(1, 3);
      ev("arm EIO at %ld x%d", d.plan.eio_at, d.plan.eio_count);
      break;
    case 4:
      d.plan.seek_fail = (int)range(1, 2);
      ev("arm lseek failure x%d", d.plan.seek_fail);
      break;
    }
  }
  // faults stop: the session must be fully usable again after one rewind
  d.plan.eio_at = -1;
  d.plan.seek_fail = 0;
  api("rewind", [&] { s.rd->rewind(); });
  ev("faults stop, rewind");
  for (size_t i = 0; i < N; i++) {
    int st = s.read();
    if (st != 0)
      fail("no-recovery", "after faults stopped and rewind(): epoch %zu gives status %d", i, st);
    std::string df = obs_diff(s, q, f.epochs[i]);
    if (!df.empty())
      fail("wrong-data", "after rewind, epoch %zu: %s", i, df.c_str());
  }
  int st = s.read();
  if (st != -1)
    fail("end-of-file", "status %d instead of -1 after the last epoch", st);
  if (saw)
    nontrivial();
}
SIM_PROP(C03, c03);
