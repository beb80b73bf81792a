// C13-C15: the life of readers: construction, hand-over, coexistence.
#include "sess.hpp"
using namespace sim;
using namespace gen;

// ------------------------------------------------------------------- C13
/// last byte of the header's end marker: a header cut before it is not whole
static size_t marker_end(const Content &c) {
  size_t p;
  switch (c.kind) {
  case 0:
  case 1:
  case 3: p = c.text.rfind("END OF HEADER", c.eoh); return p + 13;
  case 2: return c.eoh; // told by the first line that is not a header line
  default: p = c.text.rfind("------>", c.eoh); return p + 7;
  }
}
struct Decisive {
  size_t at;
  std::string put;
  const char *what;
};
/// places of the header the file cannot be read without, with bytes that cannot
/// be understood in their place
static std::vector<Decisive> decisive(const Content &c, Sub &r) {
  std::vector<Decisive> v;
  struct Line {
    size_t at;
    std::string s;
    bool label(const char *l) const { return s.size() > 60 && !s.compare(60, std::strlen(l), l); }
  };
  std::vector<Line> ls;
  for (size_t i = 0; i < c.eoh;) {
    size_t j = c.text.find('\n', i);
    ls.push_back({i, c.text.substr(i, j - i)});
    i = j + 1;
  }
  auto any = [&](const Line &l, size_t from, size_t n, const char *what) { // one byte of n
    size_t p = from + r.below(n);
    if (p < l.s.size())
      v.push_back({l.at + p, "~", what});
  };
  if (c.kind == 0 || c.kind == 1 || c.kind == 3) {
    v.push_back({0, r.chance(1, 2) ? "  x.xx   " : "         ", "version"});
    if (c.kind != 3)
      v.push_back({20, r.chance(1, 2) ? "M" : c.kind ? "O" : "N", "file type"});
    else
      v.push_back({ls[1].at, r.chance(1, 2) ? "R" : "?", "PCV type"});
    v.push_back({c.kind == 3 ? 20u : 40u, r.chance(1, 2) ? "Z" : "?", "satellite system"});
    for (int i = 0; i < 3; i++)
      any(ls.back(), 60, 13, "end marker");
  }
  if (c.kind == 0) {
    int more = 0;
    for (auto &l : ls) {
      if (l.label("APPROX POSITION XYZ") || l.label("ANTENNA: DELTA H/E/N"))
        v.push_back({l.at + 14 * r.below(3), r.chance(1, 2) ? " unreadable   " : "              ", "coordinates"});
      if (l.label("RCV CLOCK OFFS APPL"))
        v.push_back({l.at + 5, "x", "receiver clock offset flag"});
      if (l.label("TIME OF FIRST OBS"))
        v.push_back({l.at + (r.chance(1, 5) ? 0 : 6 * r.range(1, 4)), r.chance(1, 2) ? "  xx  " : "      ", "time of first observation"});
      if (l.label("SYS / # / OBS TYPES")) {
        if (more > 0)
          any(l, 60, 19, "label of a continuation line");
        else {
          v.push_back({l.at, "Z", "satellite system of observation types"});
          for (auto &o : c.obs.types)
            if (o.first != l.s[0] && r.chance(1, 2)) {
              v.push_back({l.at, std::string(1, o.first), "satellite system of observation types (twice)"});
              break;
            }
          v.push_back({l.at + 3, r.chance(1, 2) ? " xx" : "   ", "number of observation types"});
          more = std::atoi(l.s.c_str() + 3);
        }
        v.push_back({l.at + 7 + 4 * r.below((u64)std::min(13, more)), "?", "observation type"});
        more -= 13;
      }
    }
  } else if (c.kind == 2) {
    v.push_back({0, "*", "first line"});
    v.push_back({1, r.chance(1, 2) ? "x" : "b", "version"});
    v.push_back({3, r.chance(1, 2) ? "xxxx" : "    ", "year"});
    v.push_back({32, r.chance(1, 2) ? " unread" : "       ", "number of epochs"});
    v.push_back({r.chance(1, 2) ? 14u : 17u, r.chance(1, 2) ? "xx" : "  ", "hour or minute"});
    v.push_back({r.chance(1, 2) ? 8u : 11u, r.chance(1, 2) ? "xx" : "  ", "month or day"});
    v.push_back({ls[1].at + 24, r.chance(1, 2) ? "    unread.ab " : "              ", "interval"});
    any(ls[1], 0, 2, "second line");
    v.push_back({ls[1].at + 3, r.chance(1, 2) ? "9999" : "    ", "GPS week"});
    v.push_back({ls[2].at + 3, r.chance(1, 2) ? " xx" : "   ", "number of satellites"});
    v.push_back({ls[1].at + 39, r.chance(1, 2) ? "99999" : "     ", "modified Julian day"});
    for (size_t i = 2; i < ls.size(); i++)
      if (ls[i].s[0] == '+')
        any(ls[i], 0, 1, "satellite line");
      else if (ls[i].s[0] == '%')
        any(ls[i], 0, 2, "% line");
  } else if (c.kind == 4) {
    any(ls[0], 0, 59, "first line");
    bool part2 = false;
    for (auto &l : ls) {
      if (!l.s.compare(0, 24, "PART 2: ON-BOARD SENSORS"))
        any(l, 0, 24, "PART 2 line"), part2 = true;
      else if (part2 && l.s[0] != '-' && !l.s.empty())
        any(l, 0, 130, "column descriptions");
    }
  }
  return v;
}
/// the file with a header of a thousand lines or more
static std::string lengthened(const Content &c, int n, bool whole) {
  size_t first = c.text.find('\n') + 1;
  std::string line, text = c.text;
  size_t at = c.text.rfind('\n', c.eoh - 2) + 1; // before the end marker
  switch (c.kind) {
  case 0:
  case 1:
  case 3: line = padded("just another line of the header", 60) + "COMMENT\n"; break;
  case 2: line = "/* just another line of the header\n", at = c.eoh; break;
  default: line = "just another line of part 1\n", at = c.text.find("PART 2: ON-BOARD");
  }
  if (at == std::string::npos || at < first)
    harness_error("where does the header end?");
  std::string more;
  for (int i = 0; i < n; i++)
    more += line;
  text.insert(at, more);
  if (!whole) // cut before the marker (SP3 has none)
    text.resize(at + more.size());
  return text;
}
#ifdef DEBUG
/// what print_members() writes behind a title, without blanks around it; the
/// title itself if it writes no such thing
static std::string member(const std::string &s, const char *title) {
  size_t p = s.find(std::string("\n") + title), q;
  if (p == std::string::npos || (q = s.find(':', p)) == std::string::npos)
    return title;
  return trimmed(s.substr(q + 1, s.find('\n', q) - q - 1));
}
static std::string trimmed_left(std::string s) {
  s.erase(0, s.find_first_not_of(' '));
  return trimmed(s);
}
/// the header facts that only print_members() shows
static void check_members(const Content &c, Session &s) {
  std::ostringstream os;
  auto *was = std::cout.rdbuf(os.rdbuf());
  if (c.kind == 0)
    s.obs.rd->print_members();
  else if (c.kind == 2)
    s.sp3.rd->print_members();
  std::cout.rdbuf(was);
  std::string t = os.str();
  auto same = [&](const char *title, const std::string &want) {
    std::string g = member(t, title);
    if (g != title && trimmed_left(g) != trimmed_left(want))
      fail("header", "%s: '%s', the file has '%s'", title, g.c_str(), want.c_str());
  };
  auto near = [&](const char *title, std::vector<double> want) {
    std::string g = member(t, title);
    const char *p = g.c_str();
    if (g == title)
      return;
    for (double w : want) {
      char *e;
      double x = std::strtod(p, &e);
      if (e == p || std::fabs(x - w) > 1e-5 * std::fabs(w) + 1e-9)
        fail("header", "%s: '%s', the file has %.4f", title, g.c_str(), w);
      p = e + std::strspn(e, ", ");
    }
  };
  if (c.kind == 0) {
    const ObsFile &f = c.obs;
    near("Version", {std::strtod(f.text.c_str(), nullptr)});
    same("Satellite Sys", f.text.substr(40, 1));
    same("Marker Name", f.marker);
    same("Marker Number", f.number);
    same("Receiver Sn", f.rcvr_nr);
    same("Receiver Type", f.rcvr);
    near("Approx. Pos.", {f.xyz[0], f.xyz[1], f.xyz[2]});
    near("Eccentricity", {0.0083, 0, -1.25});
    same("Rcv Clk Off", f.clk ? "Yes" : "No");
    std::string a = member(t, "Antenna Type");
    if (a != "Antenna Type" && a.substr(0, 20) != f.antenna)
      fail("header", "antenna: '%s', the file has '%s'", a.c_str(), f.antenna.c_str());
    for (auto &[sys, codes] : f.types) {
      std::string l = std::string("\n") + sys;
      for (auto &k : codes)
        l += " " + k;
      l += "\n";
      if (t.find(" C") != std::string::npos && (t + "\n").find(l) == std::string::npos && (t + "\n").find(l.substr(0, 6)) != std::string::npos)
        fail("header", "observation types of %c differ", sys);
    }
  } else if (c.kind == 2) {
    same("Version", std::string(1, c.sp3.version));
    near("# Epochs", {(double)c.sp3.epochs.size()});
    same("Coordinate S", c.sp3.coord);
    same("Orbit Type", c.sp3.orbit);
    same("Agency", c.sp3.agency);
    same("Time System", c.sp3.time);
    near("Interval", {(double)c.sp3.interval_us / 1e6});
  }
}
#endif
static void c13() {
  int kind = (int)pick(5);
  bool earlier = chance(1, 2);
  Content c = make_content(kind);
  size_t mark = marker_end(c);
  std::string text = c.text;
  int fk = weighted({2, 2, 4, 4, debug_flavour ? 0u : 3u, 1, 4, 1});
  const char *FK[] = {"none", "open failure", "cut header", "I/O error in the header", "flipped bytes in the header", "lseek failure", "unreadable header field", "endless header"};
  size_t off = 0;
  if (fk == 2 || fk == 3) {
    switch (weighted({3, 2, 2})) {
    case 0: off = pick(mark); break;
    case 1: off = mark - 1 - pick(std::min<size_t>(mark, 90)); break;
    default: { // around the end of a line
      size_t nl = text.find('\n', pick(mark));
      off = std::min(mark - 1, nl + pick(2));
    }
    }
  }
  if (fk == 2) {
    text.resize(off);
    fault("truncation");
  } else if (fk == 4) {
    Sub r = sub();
    int n = weighted({3, 2, 2}) + 1;
    for (int i = 0; i < n; i++) {
      size_t p = r.below(mark);
      static const char C[] = " 0123456789-+.*GRECJSI#>\n\0\xff";
      text[p] = chance(1, 2) ? (char)(text[p] ^ (1 << r.below(8))) : C[r.below(sizeof C - 1)];
      fault("flipped_byte");
    }
  }
  const char *what = "";
  if (fk == 6) {
    Sub r = sub();
    auto v = decisive(c, r);
    auto &x = v[r.below(v.size())];
    off = x.at;
    what = x.what;
    text.replace(x.at, x.put.size(), x.put);
    fault("unreadable_field");
  }
  bool whole = true;
  if (fk == 7) {
    int n = (int)range(960, 1300);
    whole = chance(1, 2);
    text = lengthened(c, n, whole);
    off = (size_t)n;
    fault("long_header");
  }
  File &good = disk("/sim/good", c.text);
  benign_io(good);
  File &d = disk("/sim/bad", text);
  benign_io(d);
  bool missing = false;
  if (fk == 1) {
    if (chance(1, 3))
      missing = true;
    else {
      d.plan.open_fail = true;
      d.plan.err = one_of<int>({EMFILE, EACCES, EIO, EINTR});
    }
  } else if (fk == 3) {
    d.plan.eio_at = (long)off;
    d.plan.eio_count = one_of<int>({-1, 1, 2});
  } else if (fk == 5)
    d.plan.seek_fail = one_of<int>({1, 2, -1});
  g_budget_scale = 4 * (c.text.size() + (fk == 7 ? text.size() : 0));
  ambient_conditions();
  block("header as stored", text.substr(0, std::min(text.size(), mark + 200)));
  ev("%s, %s %s at %zu of %zu", KIND[kind], FK[fk], what, off, mark);
  nontrivial();
  if (earlier) { // another file of the kind was read just before
    Session s;
    try {
      s.open(c, "/sim/good");
    } catch (std::exception &e) {
      fail("valid-file-rejected", "%s threw on a valid file: %s", KIND[kind], e.what());
    }
    s.step(0);
    s.close();
  }
  if (open_files())
    fail("descriptor-leak", "%d descriptors open after closing the reader", open_files());
  bool threw = false;
  bool reset = kind == 3 && chance(1, 3);
  std::unique_ptr<Antex> atx;
  Session s;
  const char *path = missing ? "/sim/missing" : "/sim/bad";
  const Plan plan = d.plan;
  const u64 hits = d.eio_hits;
  long live = live_allocs();
  try {
    if (reset) {
      atx = std::make_unique<Antex>();
      if (chance(1, 2))
        api("reset_to_file", [&] { atx->reset_to_file("/sim/good"); });
      api("reset_to_file", [&] { atx->reset_to_file(path); });
    } else
      s.open(c, path);
  } catch (std::exception &) {
    threw = true;
  } catch (...) {
    fail("foreign-exception", "%s threw something that is no std::exception", KIND[kind]);
  }
  ev("-> %s", threw ? "threw" : "constructed");
  bool must_throw = fk == 1 || fk == 2 || (fk == 3 && d.eio_hits > hits) || fk == 6 || (fk == 7 && !whole);
  if ((fk == 0 || (fk == 7 && whole)) && threw)
    fail("valid-file-rejected", "%s threw on a valid file", KIND[kind]);
  if (must_throw && !threw)
    fail("bad-file-accepted", "%s was constructed: %s %s at byte %zu, end marker ends at %zu", KIND[kind], FK[fk], what, off, mark);
  if (fk == 3 && d.eio_hits == hits)
    fail("bad-file-accepted", "%s did not read byte %zu of its header", KIND[kind], off);
  if (threw && !reset && live_allocs() != live) // something kept once and for all is no leak
    for (int round = 0; round < 3; round++) {
      d.plan = plan;
      live = live_allocs();
      try {
        s.open(c, path);
        break;
      } catch (std::exception &) {
      }
      if (live_allocs() == live)
        break;
      if (round == 2)
        fail("memory-leak", "%s threw and left %ld allocations", KIND[kind], live_allocs() - live);
    }
  if (threw && open_files())
    fail("descriptor-leak", "%s threw and left %d descriptors open", KIND[kind], open_files());
  if (!threw) { // usable, or at least harmless
    if (reset) {
      s.c = &c;
      s.atx.rd = std::move(atx);
    }
#ifdef DEBUG
    if (fk == 0)
      check_members(c, s);
#endif
    for (int i = 0; i < 4; i++)
      s.step((u64)i * 16);
    if (fk == 0 || (fk == 7 && whole)) {
      Session g;
      g.open(c, "/sim/good");
      Session h;
      h.open(c, "/sim/bad"); // (which is good)
      for (int i = 0; i < 4; i++)
        if (g.step((u64)i * 16) != h.step((u64)i * 16))
          fail("construction-differs", "%s: two readers of the same bytes differ", KIND[kind]);
      g.close();
      h.close();
    }
  } else if (reset) {
    s.c = &c;
    s.atx.rd = std::move(atx);
    for (int i = 0; i < 3; i++) { // nothing is open: an error, not a crash
      AtxQuery q = c.aq[(size_t)i];
      if (s.atx.ask(q) <= 0)
        fail("phantom", "a query succeeded after reset_to_file() failed");
    }
    try {
      api("reset_to_file", [&] { s.atx.rd->reset_to_file("/sim/good"); });
    } catch (std::exception &e) {
      fail("valid-file-rejected", "reset_to_file() threw on a valid file after one that failed: %s", e.what());
    }
    AtxQuery q = c.aq[0];
    int st = s.atx.ask(q);
    AtxAnswer w = antex_model(c.atx, normal(q));
    if ((st <= 0) != (w.st == 0))
      fail("not-recovered", "query after a repeated reset_to_file(): status %d", st);
    probe("reset_after_failed_reset");
  }
  s.close();
  if (open_files())
    fail("descriptor-leak", "%d descriptors open at the end", open_files());
  // and afterwards everything works
  Session e;
  try {
    e.open(c, "/sim/good");
  } catch (std::exception &x) {
    fail("valid-file-rejected", "%s threw on a valid file after a failure: %s", KIND[kind], x.what());
  }
  e.step(0);
}
SIM_PROP(C13, c13);

// ------------------------------------------------------------------- C14
static void c14() {
  int kind = (int)pick(5);
  Content c = make_content(kind), other = make_content(kind);
  auto store = [&] {
    disk("/sim/a", c.text);
    disk("/sim/b", other.text);
  };
  store();
  benign_io(disk("/sim/a"));
  Plan plan = disk("/sim/a").plan;
  g_budget_scale = 2 * (c.text.size() + other.text.size());
  int n = (int)range(1, 16);
  std::vector<u64> ops, moves;
  for (int i = 0; i < n; i++) {
    ops.push_back(pick(16 * 4096));
    moves.push_back(chance(1, 3) ? 1 + pick(12) : 0);
  }
  int gone = weighted({3, 1, 1}); // the name is removed, or given to another file, while the reader has it open
  size_t gone_at = pick((u64)n);
  block("file", c.text);
  ambient_conditions();
  std::vector<std::string> want;
  ev("%s, %d calls", KIND[kind], n);
  {
    Session s;
    s.open(c, "/sim/a");
    for (auto o : ops)
      want.push_back(s.step(o));
    s.close();
  }
  for (int round = 0; round < 3; round++) { // again only if memory is kept
    if (round) {
      disk_remove("/sim/a");
      store();
    }
    disk("/sim/a").plan = plan;
    long files = open_files(), live = live_allocs();
    {
      Session s;
      s.open(c, "/sim/a");
      for (size_t i = 0; i < ops.size(); i++) {
        if (gone && i == gone_at) {
          long l0 = live_allocs();
          disk_remove("/sim/a");
          if (gone == 2)
            disk("/sim/a", other.text);
          fault(gone == 2 ? "file_replaced" : "file_removed");
          note("the name of the file is %s", gone == 2 ? "given to another file" : "removed");
          live += live_allocs() - l0;
        }
        if (moves[i]) {
          unsigned how = (unsigned)((moves[i] - 1) % 6);
          if (!round)
            ev("move, way %u", how);
          s.move(how, "/sim/b");
          if (moves[i] > 6)
            s.drop_husks();
          nontrivial();
        }
        std::string got = s.step(ops[i]);
        if (!round)
          ev("call %zu: %s", i, got.substr(0, 60).c_str());
        if (got != want[i])
          fail("moved-session-differs", "%s, call %zu after a move: '%.150s', unmoved session: '%.150s'", KIND[kind], i, got.c_str(), want[i].c_str());
      }
      s.close();
    }
    if (open_files() != files)
      fail("descriptor-leak", "%d descriptors open after all readers are gone", open_files());
    if (live_allocs() == live)
      break;
    if (round == 2)
      fail("memory-leak", "%ld allocations left after all readers are gone", live_allocs() - live);
  }
}
SIM_PROP(C14, c14);

// ------------------------------------------------------------------- C15
static void c15() {
  int nt = (int)range(2, 4);
  std::vector<Content> cs;
  std::vector<std::string> paths;
  std::vector<std::vector<u64>> ops;
  std::vector<Plan> plans;
  size_t total = 0;
  for (int t = 0; t < nt; t++) {
    bool same = t && chance(1, 3); // another reader of a file that is in use
    if (same) {
      size_t k = pick((u64)t);
      cs.push_back(cs[k]);
      paths.push_back(paths[k]);
    } else {
      int kind = t && chance(1, 2) ? cs[0].kind : (int)pick(5);
      cs.push_back(make_content(kind));
      paths.push_back(fmt("/sim/file%d", t));
      disk(paths.back(), cs.back().text);
      benign_io(disk(paths.back()));
    }
    total += cs.back().text.size();
    std::vector<u64> o;
    int n = (int)range(1, 10);
    for (int i = 0; i < n; i++)
      o.push_back(pick(16 * 4096));
    ops.push_back(o);
  }
  // a fault of one reader's file must not be felt by the others
  for (int t = 0; t < nt; t++) {
    bool shared = false;
    for (int u = 0; u < nt; u++)
      shared |= u != t && paths[(size_t)u] == paths[(size_t)t];
    File &d = disk(paths[(size_t)t]);
    if (!shared && chance(1, 4)) {
      d.plan.eio_at = (long)(cs[(size_t)t].eoh + 1 + pick(d.data.size() - cs[(size_t)t].eoh));
      d.plan.eio_count = (int)range(1, 2);
    }
  }
  for (int t = 0; t < nt; t++)
    plans.push_back(disk(paths[(size_t)t]).plan);
  g_budget_scale = 4 * total;
  ambient_conditions();
  for (int t = 0; t < nt; t++)
    note("task %d: %s on %s, %zu calls", t, KIND[cs[(size_t)t].kind], paths[(size_t)t].c_str(), ops[(size_t)t].size());
  for (auto &c : cs)
    block("file", c.text);
  auto session = [&](size_t t, std::vector<std::string> &log) {
    Session s;
    try {
      s.open(cs[t], paths[t].c_str());
    } catch (std::exception &e) {
      log.push_back("threw");
      return;
    }
    for (auto o : ops[t])
      log.push_back(s.step(o));
    s.close();
  };
  std::vector<std::vector<std::string>> solo((size_t)nt), got((size_t)nt);
  for (size_t t = 0; t < (size_t)nt; t++) {
    disk(paths[t]).plan = plans[t];
    session(t, solo[t]);
  }
  for (size_t t = 0; t < (size_t)nt; t++)
    disk(paths[t]).plan = plans[t];
  std::vector<std::function<void()>> fns;
  for (size_t t = 0; t < (size_t)nt; t++)
    fns.push_back([&, t] { session(t, got[t]); });
  ev("%d tasks", nt);
  run_tasks(fns);
  ev("switches %llu", (unsigned long long)task_switches());
  probe("task_switches", task_switches());
  if (task_switches() > (u64)nt)
    nontrivial();
  for (size_t t = 0; t < (size_t)nt; t++)
    for (size_t i = 0; i < std::max(solo[t].size(), got[t].size()); i++) {
      std::string a = i < solo[t].size() ? solo[t][i] : "nothing", b = i < got[t].size() ? got[t][i] : "nothing";
      if (a != b)
        fail("disturbed", "task %zu (%s), call %zu: '%.150s', alone: '%.150s'", t, KIND[cs[t].kind], i, b.c_str(), a.c_str());
    }
}
SIM_PROP(C15, c15);
