// C04-C06: navigation RINEX reader as a cursor over a list of records, message
// selection along simulated time, containment of damage.
#include "gen_nav.hpp"
using namespace sim;
using namespace gen;

static const char *P = "/sim/brdc.rnx";

namespace {
struct Nav {
  std::unique_ptr<NavigationRnx> rd;
  NavDataFrame keep;
  bool reuse{false};
  NavDataFrame fresh_frame() { return reuse ? keep : NavDataFrame(); }
  void open() {
    try {
      rd = api("NavigationRnx", [&] { return std::make_unique<NavigationRnx>(P); });
    } catch (std::exception &e) {
      fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
    }
    reuse = chance(1, 2);
  }
  int read(NavDataFrame &f) {
    f = fresh_frame();
    int st = api("read_next_record", [&] { return rd->read_next_record(f); });
    keep = f;
    ev("read -> %d", st);
    return st;
  }
  SATELLITE_SYSTEM peek(int &st) {
    st = 77;
    auto s = api("peak_satsys", [&] { return rd->peak_satsys(st); });
    ev("peek -> %d sys %d", st, (int)s);
    return s;
  }
  int ignore() {
    int st = api("ignore_next_block", [&] { return rd->ignore_next_block(); });
    ev("ignore -> %d", st);
    return st;
  }
  int find(NavigationRnx::pos_type &pos, NavDataFrame &f, char sys, int prn) {
    f = fresh_frame();
    int st = api("find_next", [&] { return rd->find_next(pos, f, sys_of(sys), prn); });
    keep = f;
    ev("find_next(%c%d) -> %d", sys, prn, st);
    return st;
  }
  int find_valid(long ms, NavigationRnx::pos_type &pos, NavDataFrame &f, char sys, int prn) {
    f = fresh_frame();
    auto t = ms_at(ms);
    int st = api("find_next_valid", [&] { return rd->find_next_valid(t, pos, f, sys_of(sys), prn); });
    keep = f;
    ev("find_next_valid(%c%d) -> %d", sys, prn, st);
    return st;
  }
  /// a user of the message: evaluating it must end, whatever it holds
  void use(const NavDataFrame &f, long ms) {
    if (f.system() != SATELLITE_SYSTEM::gps && f.system() != SATELLITE_SYSTEM::glonass &&
        f.system() != SATELLITE_SYSTEM::galileo && f.system() != SATELLITE_SYSTEM::beidou)
      return;
    double x[6];
    double clk;
    long off = range(0, 3600) * (chance(1, 2) ? 1000 : -1000);
    auto toe = f.toe<ngpt::milliseconds>();
    if (off < 0)
      toe.remove_seconds(ngpt::milliseconds(-off));
    else
      toe.add_seconds(ngpt::milliseconds(off));
    auto when = chance(1, 3) ? ms_at(ms) : toe;
    int st = api("stateNclock", [&] { return f.stateNclock(when, x, clk); });
    long fit = api("fit_interval", [&] { return f.fit_interval(); });
    ev("stateNclock -> %d, fit interval %ld", st, fit);
    probe("damaged_message_evaluated");
  }
  void rewind(NavigationRnx::pos_type p = -1) {
    api("rewind", [&] { rd->rewind(p); });
  }
};
void check_frame(const NavDataFrame &g, const NavFile &f, size_t i, const char *what) {
  std::string d = nav_diff(g, f.recs[i]);
  if (!d.empty())
    fail("wrong-data", "%s: record %zu: %s", what, i, d.c_str());
}
long find_model(const NavFile &f, size_t cur, char sys, int prn) {
  for (size_t i = cur; i < f.recs.size(); i++)
    if (f.recs[i].sys == sys && (prn == -1 || prn == f.recs[i].prn))
      return (long)i;
  return -1;
}
} // namespace

// ------------------------------------------------------------------- C04
static void c04() {
  NavOpts o;
  o.crowd = true;
  NavFile f = make_nav(o);
  File &d = disk(P, f.text);
  g_budget_scale = f.text.size();
  benign_io(d);
  ambient_conditions();
  block("file", f.text);
  Nav n;
  n.open();
  size_t N = f.recs.size(), cur = 0;
  ev("open records=%zu", N);
  std::vector<std::pair<NavigationRnx::pos_type, size_t>> saved;
  int ops = history(1, 30);
  // a whole sequential read first in half of the runs
  bool seq = !chance(1, 2);
  auto pick_sat = [&](char &s, int &p) {
    if (N && !chance(1, 5)) {
      size_t i = pick(N);
      s = f.recs[i].sys;
      p = chance(1, 2) ? -1 : f.recs[i].prn;
    } else {
      s = one_of<char>({'G', 'R', 'E', 'C', 'S', 'J', 'I'});
      p = chance(1, 2) ? -1 : (int)range(1, 5);
    }
  };
  if (seq) {
    for (size_t i = 0; i < N; i++) {
      NavDataFrame g;
      int st = n.read(g);
      if (st)
        fail("record-lost", "record %zu of %zu: status %d instead of 0", i, N, st);
      check_frame(g, f, i, "read");
    }
    for (int i = 0; i < 2; i++) {
      NavDataFrame g;
      int st = n.read(g);
      if (st != -1)
        fail("end-of-file", "status %d instead of -1 after the last record", st);
    }
    n.rewind();
    ev("rewind");
  }
  for (int k = 0; k < ops; k++) {
    NavDataFrame g;
    switch (weighted({6, 3, 3, 4, 1, 2})) {
    case 0: {
      int st = n.read(g);
      if (cur < N) {
        if (st)
          fail("record-lost", "record %zu of %zu: status %d instead of 0", cur, N, st);
        check_frame(g, f, cur++, "read");
      } else if (st != -1)
        fail("end-of-file", "read at the end gives status %d instead of -1", st);
      break;
    }
    case 1: {
      int st;
      auto s = n.peek(st);
      if (cur < N) {
        if (st || s != sys_of(f.recs[cur].sys))
          fail("peek", "peek at record %zu: status %d, system %d; file has '%c'", cur, st, (int)s, f.recs[cur].sys);
      } else if (st != -1)
        fail("end-of-file", "peek at the end gives status %d instead of -1", st);
      break;
    }
    case 2: {
      int st = n.ignore();
      if (cur < N) {
        if (st)
          fail("ignore", "ignore at record %zu: status %d", cur, st);
        ++cur;
      } else if (st != -1)
        fail("end-of-file", "ignore at the end gives status %d instead of -1", st);
      break;
    }
    case 3: {
      char s;
      int p;
      pick_sat(s, p);
      NavigationRnx::pos_type pos = -7;
      int st = n.find(pos, g, s, p);
      long w = find_model(f, cur, s, p);
      if (w >= 0) {
        if (st)
          fail("record-lost", "find_next(%c, %d) from record %zu: status %d, record %ld matches", s, p, cur, st, w);
        check_frame(g, f, (size_t)w, "find_next");
      } else if (st != -1)
        fail("end-of-file", "find_next(%c, %d) without a match gives status %d instead of -1", s, p, st);
      if (pos != NavigationRnx::pos_type(-7))
        saved.push_back({pos, cur});
      else
        fail("position", "find_next did not report its starting position");
      cur = w >= 0 ? (size_t)w + 1 : N;
      break;
    }
    case 4:
      n.rewind();
      ev("rewind");
      cur = 0;
      break;
    case 5:
      if (!saved.empty()) {
        auto &s = saved[pick(saved.size())];
        n.rewind(s.first);
        ev("rewind to saved %zu", s.second);
        cur = s.second;
        probe("rewind_to_position");
      }
      break;
    }
  }
  if (N)
    nontrivial();
}
SIM_PROP(C04, c04);

// ------------------------------------------------------------------- C05
/// a broadcast file as stations produce it: every satellite sends a message at
/// its cadence, records sorted by time
static NavFile make_broadcast(long &t0, long &t1, std::vector<std::pair<char, int>> &sats) {
  NavFile f;
  Sub hr = sub(), vr = sub(), sr = sub();
  NavStyle style = gen_nav_style(sr);
  f.text = nav_header(hr, 'M');
  f.eoh = f.text.size();
  Stamp s0 = gen_stamp();
  if (chance(1, 3)) { // next to a week boundary
    long a = s0.abs();
    long days = a / 86400 - 44244;
    long wk = days / 7 + 1;
    s0 = from_abs((44244 + wk * 7) * 86400L - 3600 * (long)pick(6));
    probe("week_boundary");
  }
  s0.sec = 0;
  t0 = s0.abs();
  long span = 3600 * range(2, 16);
  t1 = t0 + span;
  int ns = (int)range(1, 4);
  for (int i = 0; i < ns; i++) {
    char s = one_of<char>({'G', 'R', 'E', 'C'});
    int p = (int)range(1, 4);
    if (std::find(sats.begin(), sats.end(), std::make_pair(s, p)) == sats.end())
      sats.push_back({s, p});
  }
  std::vector<NavRec> all;
  for (auto &sp : sats) {
    char s = sp.first;
    long cad = s == 'R' ? 1800 : s == 'C' ? 3600 : s == 'E' ? 600 * vr.range(1, 12) : 7200;
    long at = t0 + (vr.quiet() ? 0 : 60 * vr.range(0, 30));
    bool sparse = vr.chance(1, 4); // e.g. one message for the whole day
    while (at <= t1) {
      NavRec r;
      r.sys = s;
      r.prn = sp.second;
      r.toc = from_abs(at);
      for (int k = 0; k < nav_count(s); k++)
        r.data[k] = nav_rand(vr);
      r.data[nav_health_idx(s)] = vr.chance(1, 5) ? (double)vr.range(1, 63) : 0;
      if (s == 'G')
        r.data[28] = vr.chance(1, 3) ? (double)vr.range(1, 8) : 4;
      nav_times(r, vr.quiet() ? 0 : s == 'R' ? 30 * vr.range(-60, 60) : vr.chance(1, 3) ? 16 * vr.range(-450, 450) : 0);
      if (!vr.chance(1, 8)) // some messages are never received
        all.push_back(r);
      if (vr.chance(1, 8)) { // repeated or slightly later upload
        NavRec q = r;
        q.data[0] = nav_rand(vr);
        if (vr.chance(1, 2)) {
          q.toc = from_abs(at + 16);
          nav_times(q, r.toe - q.toc.abs());
        }
        all.push_back(q);
      }
      at += sparse ? cad * 5 : cad;
    }
  }
  std::stable_sort(all.begin(), all.end(), [](const NavRec &a, const NavRec &b) { return a.toc.abs() < b.toc.abs(); });
  if (chance(1, 4)) // grouped by satellite instead
    std::stable_sort(all.begin(), all.end(), [](const NavRec &a, const NavRec &b) {
      return std::make_pair(a.sys, a.prn) < std::make_pair(b.sys, b.prn);
    });
  for (auto &r : all) {
    f.recs.push_back(r);
    NavRec &q = f.recs.back();
    q.begin = f.text.size();
    f.text += nav_text(q, style, vr);
    q.end = f.text.size();
  }
  crowd(f, "SJIG", style, vr);
  return f;
}
static void c05() {
  long t0, t1;
  std::vector<std::pair<char, int>> sats;
  NavFile f = make_broadcast(t0, t1, sats);
  File &d = disk(P, f.text);
  g_budget_scale = f.text.size();
  benign_io(d);
  ambient_conditions();
  block("file", f.text);
  Nav n;
  n.open();
  size_t cur = 0, N = f.recs.size();
  ev("open records=%zu", N);
  auto query = [&](long ms, char s, int p, NavDataFrame &g) {
    NavigationRnx::pos_type pos = -7;
    Want w = valid_model(f, cur, ms, s, p);
    int st = n.find_valid(ms, pos, g, s, p);
    if (w.st == 0) {
      if (st)
        fail("message-lost", "t=%.3f %c%d from record %zu: status %d, record %zu is valid", (double)ms / 1e3, s, p, cur,
             st, w.rec);
      std::string df = nav_diff(g, f.recs[w.rec]);
      if (!df.empty())
        fail("wrong-message", "t=%.3f %c%d: not record %zu: %s", (double)ms / 1e3, s, p, w.rec, df.c_str());
      if (g.sv_health())
        fail("unhealthy", "an unhealthy message was selected");
      probe("valid_message_found");
    } else if (st != w.st)
      fail("wrong-status", "t=%.3f %c%d from record %zu: status %d instead of %d", (double)ms / 1e3, s, p, cur, st, w.st);
    else
      probe("no_valid_message");
    cur = w.cur;
    return st;
  };
  int mode = weighted({3, 2});
  if (mode == 0) { // a receiver walking forward in time
    auto sp = sats[pick(sats.size())];
    int p = chance(1, 4) ? -1 : sp.second;
    long step = one_of<long>({1800, 30, 300, 900, 7200}) * 1000 + (chance(1, 4) ? 1 : 0);
    if ((t1 - t0) * 1000 / step > 100)
      step = (t1 - t0) * 1000 / 100;
    bool have = false;
    NavDataFrame g;
    long exp = 0;
    int misses = 0;
    for (long t = t0 * 1000 + (long)pick(3) * 500; t < (t1 + 7200) * 1000 && misses < 12; t += step) {
      simtime((double)step / 1e3);
      if (have && t < exp)
        continue;
      if (!have) { // after a failure, start over
        n.rewind();
        cur = 0;
      }
      have = query(t, sp.first, p, g) == 0;
      misses += !have;
      if (have) {
        long base = sp.first == 'R' ? (long)g.toe<ngpt::seconds>().mjd().as_underlying_type() * 86400 +
                                          g.toe<ngpt::seconds>().sec().as_underlying_type()
                                    : (long)g.toc().mjd().as_underlying_type() * 86400 + g.toc().sec().as_underlying_type();
        exp = (base + g.fit_interval()) * 1000;
        if (exp <= t)
          fail("expired", "message returned at t=%.3f expires at %.3f", (double)t / 1e3, (double)exp / 1e3);
      }
    }
    nontrivial();
  } else { // queries at interesting instants
    int q = history(1, 20, 300);
    std::vector<std::pair<NavigationRnx::pos_type, size_t>> saved;
    for (int i = 0; i < q; i++) {
      if (chance(1, 3)) {
        n.rewind();
        ev("rewind");
        cur = 0;
      }
      auto sp = sats[pick(sats.size())];
      int p = chance(1, 4) ? -1 : sp.second;
      long ms;
      if (chance(1, 16)) { // health and validity of the others are not defined
        NavDataFrame g;
        NavigationRnx::pos_type pos = -7;
        char s = one_of<char>({'J', 'S', 'I', 'M'});
        if (n.find_valid(t0 * 1000, pos, g, s, p) == 0)
          fail("wrong-status", "a message of system %c was selected", s);
        n.rewind();
        cur = 0;
        probe("other_system_asked");
      }
      size_t like = N ? pick(N) : 0;
      if (N && !chance(1, 4) && std::strchr("GREC", f.recs[like].sys)) {
        const NavRec &r = f.recs[like];
        long lo = r.sys == 'R' ? r.toe - 900 : r.toc.abs(), hi = r.sys == 'R' ? r.toe + 900 : r.toc.abs() + r.fit();
        long b = one_of<long>({lo, hi, (lo + hi) / 2, r.toc.abs(), r.toe, r.toc.abs() - 4 * 3600});
        ms = b * 1000 + range(0, 2) * one_of<long>({1, -1, 1000, -1000});
        sp = {r.sys, r.prn};
        if (p != -1)
          p = r.prn;
      } else
        ms = (t0 + range(0, t1 - t0 + 7200) - 3600) * 1000 + (long)pick(1000);
      NavDataFrame g;
      query(ms, sp.first, p, g);
      nontrivial();
    }
  }
}
SIM_PROP(C05, c05);

// ------------------------------------------------------------------- C06
/// damage one field of a record beyond recognition
static std::string make_unreadable(std::string &text, const NavRec &rec, Sub &r) {
  struct Field {
    size_t at;
    std::string put;
    const char *what;
  };
  std::vector<Field> v;
  size_t l = rec.begin;
  if (r.quiet() || r.chance(1, 2)) {
    static const char *sys[] = {"Z", "?", "*", " ", "M"};
    v = {{l, sys[r.below(5)], "satellite system"}, {l + 1, "xx", "satellite number"}, {l + 4, "xxxx", "year"}, {l + 9, "xx", "month"},
         {l + 12, "xx", "day"}, {l + 15, "xx", "hour"}, {l + 18, "xx", "minute"}, {l + 21, "xx", "seconds"}};
    if (r.chance(1, 2)) // nor is a blank one to be read from its neighbour
      for (size_t i = 1; i < v.size(); i++)
        v[i].put.assign(v[i].put.size(), ' ');
  } else {
    size_t line = l;
    int col = 1;
    for (int i = 0; i < nav_count(rec.sys); i++, col++) {
      if (col == 4) {
        line = text.find('\n', line) + 1;
        col = 0;
      }
      size_t at = line + 4 + 19 * (size_t)col;
      if (nav_spare(rec.sys, i) || at + 19 > text.find('\n', line))
        continue; // nothing there
      static const char *put[] = {"     unreadable    ", "  -.--------------x", "   x1.234567890E+00", "  nothing", "+-"};
      v.push_back({at, put[r.below(5)], "broadcast value"});
      if (std::strlen(v.back().put.c_str()) < 19) // the field ends with what was there
        v.back().put.insert(0, 1, ' ');
    }
  }
  const Field &x = v[r.below(v.size())];
  text.replace(x.at, x.put.size(), x.put);
  return sim::fmt("%s (\"%s\")", x.what, x.put.c_str());
}
static void c06() {
  NavOpts o;
  o.min_recs = 1;
  NavFile f = make_nav(o);
  size_t N = f.recs.size();
  std::string text = f.text;
  // truncation, I/O error, flipped bytes, a field that holds no number, date or system
  // (or torn inside a record, and taken up again by a receiver that was restarted)
  int kind = weighted({3, 3, debug_flavour ? 0u : 3u, 2, 3});
  // where
  size_t e = pick(N);
  size_t b = f.recs[e].begin, en = f.recs[e].end, off;
  switch (weighted({3, 2, 2})) {
  case 0: off = b + pick(en - b); break;
  case 1: off = en - std::min<size_t>(en - b, pick(4)); break;
  default: {
    size_t nl = text.find('\n', b + pick(en - b));
    off = nl + pick(3);
    if (off)
      off -= 1;
  }
  }
  off = std::max(f.eoh, std::min(text.size(), off));
  if (kind == 2 && off >= text.size())
    off = text.size() - 1;
  bool io = kind == 1;
  bool unreadable_system = false;
  if (kind == 3) {
    Sub r = sub();
    off = b;
    note("unreadable in record %zu: %s", e, make_unreadable(text, f.recs[e], r).c_str());
    unreadable_system = text[b] != f.recs[e].sys;
    fault("unreadable_field");
  } else if (kind == 4) {
    off = std::max(b + 1, std::min(en - 1, off));
    size_t k = e + pick(N - e);
    text = f.text.substr(0, off) + f.text.substr(f.recs[k].begin);
    note("torn in record %zu, continued with record %zu", e, k);
    fault("torn_and_continued");
  } else if (kind == 0) {
    text.resize(off);
    fault("truncation");
  } else if (kind == 2) {
    int n = weighted({3, 2, 1}) + 1;
    Sub r = sub();
    size_t first = text.size();
    for (int i = 0; i < n; i++) {
      size_t p = i == 0 ? off : std::min(text.size() - 1, off + r.below(300));
      static const char C[] = " 0123456789-+.DEGRMSJIC\n\0\xff";
      text[p] = chance(1, 2) ? (char)(text[p] ^ (1 << r.below(8))) : C[r.below(sizeof C - 1)];
      first = std::min(first, p);
      fault("flipped_byte");
    }
    if (chance(1, 4)) { // damage the first character of a record
      size_t q = f.recs[pick(N)].begin;
      text[q] = one_of<char>({'M', ' ', 'X', '\xff', 'R', 'G', 'E'});
      first = std::min(first, q);
      fault("flipped_byte");
    }
    off = first;
  }
  File &d = disk(P, text);
  benign_io(d);
  if (io) {
    d.plan.eio_at = (long)off;
    d.plan.eio_count = one_of<int>({-1, 1, 2});
  }
  g_budget_scale = text.size();
  ambient_conditions();
  block("file as stored", text);
  note("damage kind %d at byte %zu of %zu (header ends at %zu)", kind, off, f.text.size(), f.eoh);
  Nav n;
  n.open();
  nontrivial();
  int mode = weighted({4, 2, 2, 2}); // read, find_next, find_next_valid, ignore
  char s = 'G';
  int p = -1;
  {
    const NavRec &r = f.recs[pick(N)];
    s = r.sys;
    p = chance(1, 2) ? r.prn : -1;
  }
  long t = f.recs[pick(N)].toc.abs() * 1000 + 60000;
  if (mode == 2 && !std::strchr("GREC", s))
    mode = 1;
  size_t cur = 0, limit = text.size() + 10, again = 0;
  int st = 0;
  for (size_t i = 0;; i++) {
    if (i > limit)
      fail("no-end", "status 0 was returned %zu times for a file of %zu bytes", i, text.size());
    NavDataFrame g;
    NavigationRnx::pos_type pos;
    long w; // record the call must deliver, or -1
    size_t reach; // the call needs records [cur, reach)
    switch (mode) {
    case 0:
      st = n.read(g);
      w = cur < N ? (long)cur : -1;
      break;
    case 1:
      st = n.find(pos, g, s, p);
      w = find_model(f, cur, s, p);
      break;
    case 2: {
      st = n.find_valid(t, pos, g, s, p);
      Want v = valid_model(f, cur, t, s, p);
      w = v.st ? -1 : (long)v.rec;
      reach = v.cur;
      if (w < 0 && st == -1 && reach && f.recs[reach - 1].end <= off && reach < N)
        return; // stopped by the four hour rule, before the damage
      break;
    }
    default:
      st = n.ignore();
      w = cur < N ? (long)cur : -1;
    }
    bool before = w >= 0 && f.recs[(size_t)w].end <= off;
    if (st == 0) {
      if (kind == 2 && !before) {
        if (mode != 3 && chance(1, 2))
          n.use(g, t);
        continue;
      }
      if (kind == 4 && !before) { // only what was recorded is ever delivered
        if (mode == 3)
          continue;
        size_t k = 0;
        while (k < N && !nav_diff(g, f.recs[k]).empty())
          k++;
        if (k == N)
          fail("wrong-data", "after a record that was cut off and continued: status 0 with a record nobody recorded");
        continue;
      }
      if (w < 0)
        fail("phantom-record", "status 0, but the file has no further such record");
      if (kind == 3 && (size_t)w == e && (mode != 3 || unreadable_system))
        fail("unreadable-delivered", "record %zu has an unreadable field and got status 0", e);
      if (mode == 3 && !before && kind < 2) { // (a torn last line may pass: only its lines are counted)
        size_t last = f.text.rfind('\n', f.recs[(size_t)w].end - 2) + 1;
        if (off <= last || (io && off + 1 < f.recs[(size_t)w].end))
          fail("torn-record-passed", "record %ld is not there entirely, passing over it got status 0", w);
      }
      if (mode != 3) {
        std::string df = nav_diff(g, f.recs[(size_t)w]);
        if (!df.empty())
          fail("wrong-data", "record %ld (%s) delivered with status 0: %s", w, before ? "undamaged" : "damaged", df.c_str());
      }
      cur = (size_t)w + 1;
    } else {
      if (before)
        fail("record-lost", "record %ld lies before the damage but got status %d", w, st);
      if (io && d.eio_hits && st == -1)
        fail("io-error-as-eof", "an I/O error was reported as end of file");
      if (kind == 3 && st == -1 && w == (long)e)
        fail("unreadable-as-eof", "record %zu has an unreadable field, reported as end of file", e);
      if (kind == 4 && st > 0 && again < 12) {
        again++;
        continue;
      }
      break;
    }
  }
  // whatever follows the failure must terminate, too
  int more = (int)range(0, 6);
  for (int k = 0; k < more; k++) {
    NavDataFrame g;
    NavigationRnx::pos_type pos;
    int q;
    switch (pick(5)) {
    case 0: n.read(g); break;
    case 1: n.peek(q); break;
    case 2: n.ignore(); break;
    case 3: n.find(pos, g, s, p); break;
    default: n.find_valid(t, pos, g, one_of<char>({'G', 'R', 'E', 'C', 'S', 'J', 'I'}), p); break;
    }
  }
  // faults stop: a rewind restores the session
  if (io) {
    d.plan.eio_at = -1;
    n.rewind();
    for (size_t i = 0; i < N; i++) {
      NavDataFrame g;
      int q = n.read(g);
      if (q)
        fail("no-recovery", "after the I/O error has gone and rewind(): record %zu gives status %d", i, q);
      check_frame(g, f, i, "after rewind");
    }
    NavDataFrame g;
    if (n.read(g) != -1)
      fail("end-of-file", "no -1 after the last record");
  }
}
SIM_PROP(C06, c06);
