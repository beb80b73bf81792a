// C09-C11: ANTEX lookups.
#include "gen_antex.hpp"
using namespace sim;
using namespace gen;
static const char *P = "/sim/igs.atx";

static void lookups(bool receivers) {
  AtxFile f = make_antex(true);
  File &d = disk(P, f.text);
  benign_io(d);
  g_budget_scale = f.text.size();
  ambient_conditions();
  block("file", f.text);
  AtxSession s;
  s.open(P, chance(1, 4));
  int n = history(1, 12, 300);
  for (int k = 0; k < n; k++) {
    // the other kind of query now and then, only to build a history
    bool rec = chance(1, 6) ? !receivers : receivers;
    AtxQuery q = gen_antex_query(f, rec ? 2 : (int)pick(2));
    AtxAnswer w = antex_model(f, normal(q));
    int st = s.ask(q);
    if (q.kind < 2)
      simtime(86400);
    if (w.st == 0) {
      const AtxEntry &e = f.ents[(size_t)w.ent];
      if (st)
        fail("not-found", "query %d: status %d, but the file has it as entry %ld", k, st, w.ent);
      std::string df = s.diff(q, e);
      if (!df.empty())
        fail("wrong-data", "query %d (entry %ld): %s", k, w.ent, df.c_str());
      if ((q.kind == 2) == receivers)
        nontrivial();
      if (q.kind < 2 && (q.t == e.from || q.t == e.until))
        probe("asked_at_validity_boundary");
      if (q.kind == 2 && !e.generic())
        probe("exact_serial_found");
    } else if (st <= 0) {
      fail("phantom", "query %d: status %d, but the file has no such entry", k, st);
    } else
      probe("asked_for_something_absent");
  }
}
static void c09() { lookups(false); }
static void c10() { lookups(true); }
SIM_PROP(C09, c09);
SIM_PROP(C10, c10);

// ------------------------------------------------------------------- C11
/// damage one field of an entry beyond recognition; true: who or when it is
/// for is no longer known, false: its offsets are not
static bool make_unreadable(std::string &text, const AtxEntry &e, Sub &r) {
  struct Field {
    size_t at;
    std::string put;
    const char *what;
    bool id;
  };
  std::vector<Field> v;
  bool rms = false;
  for (size_t l = e.begin; l < e.end; l = text.find('\n', l) + 1) {
    std::string label = text.substr(l + 60, 20);
    auto is = [&](const char *s) { return !label.compare(0, std::strlen(s), s) && text.find('\n', l) >= l + 60 + std::strlen(s); };
    if (is("START OF FREQ RMS"))
      rms = true;
    if (is("END OF FREQ RMS"))
      rms = false;
    if (rms)
      continue;
    if (is("TYPE / SERIAL NO") && e.sat && e.sys != ' ') {
      v.push_back({l + 20, r.chance(1, 2) ? "?" : "Z", "satellite system", true});
      v.push_back({l + 21, r.chance(1, 2) ? "xx" : "  ", "satellite number", true});
      if (e.svn >= 0)
        v.push_back({l + 40, r.chance(1, 2) ? std::string(1, e.sys) + "xxx" : std::string(e.sys == 'G' ? "R" : "G"), "vehicle number", true});
    } else if (is("VALID FROM") || is("VALID UNTIL")) {
      static const int at[] = {2, 10, 16, 22, 28, 30};
      static const char *put[] = {"xxxx", "xx", "xx", "xx", "xx", "  unreadable "};
      int k = (int)r.below(6);
      v.push_back({l + (size_t)at[k], put[k], "validity", true});
      if (r.chance(1, 2)) // nor is a blank one to be read from its neighbour
        v.back().put.assign(k ? k < 5 ? 2 : 13 : 4, ' ');
      else if (is("VALID FROM") && r.chance(1, 3))
        v.back() = {l + 60 + r.below(10), "~", "label of the validity", true};
    } else if (is("# OF FREQUENCIES"))
      v.push_back({l, r.chance(1, 2) ? "   xxx" : "      ", "number of frequencies", false});
    else if (is("START OF FREQUENCY")) {
      v.push_back({l + 3, r.chance(1, 2) ? "?" : "Z", "system of a frequency", false});
      v.push_back({l + 4, r.chance(1, 2) ? "xx" : "  ", "number of a frequency", false});
    } else if (is("NORTH / EAST / UP"))
      v.push_back({l + 10 * r.below(3), r.chance(1, 2) ? " unreadab." : "          ", "offset", false});
  }
  const Field &x = v[r.below(v.size())];
  text.replace(x.at, x.put.size(), x.put);
  note("unreadable at byte %zu: %s (\"%s\")", x.at, x.what, x.put.c_str());
  return x.id;
}
/// a receiver query that one entry answers exactly, behind an entry of the
/// model in general (if there is none, any query); the latter's index
static long aim(const AtxFile &f, AtxQuery &q) {
  size_t at = pick(f.ents.size());
  for (size_t k = 0; k < f.ents.size(); k++) {
    size_t i = (at + k) % f.ents.size();
    auto &e = f.ents[i];
    if (e.sat || e.generic())
      continue;
    for (size_t g = 0; g < i; g++)
      if (!f.ents[g].sat && f.ents[g].generic() && f.ents[g].name == e.name) {
        q.kind = 2;
        q.name = e.name, q.serial = e.serial, q.has_serial = true;
        q.must = false;
        return (long)g;
      }
  }
  q = gen_antex_query(f);
  return -1;
}
static void c11() {
  AtxFile f = make_antex();
  std::string text = f.text;
  int kind = weighted({4, 3, debug_flavour ? 0u : 3u, 2}); // I/O errors, cut, flips, unreadable field
  size_t first = text.size(), bad = 0;
  bool bad_id = false;
  AtxQuery aimed;
  bool torn = false; // the file ends within an entry, and that is beyond doubt
  long gen = -1, exact = -1;
  if (kind < 2 && !f.ents.empty() && chance(1, 3)) {
    gen = aim(f, aimed);
    exact = antex_model(f, normal(aimed)).ent;
  }
  if (kind == 3) {
    Sub r = sub();
    AtxAnswer w = antex_model(f, normal(aimed = gen_antex_query(f)));
    bad = w.st == 0 ? (size_t)w.ent : pick(f.ents.size());
    bad_id = make_unreadable(text, f.ents[bad], r);
    fault("unreadable_field");
  } else if (kind == 1) {
    size_t e = pick(f.ents.size());
    if (gen >= 0)
      e = (size_t)range(gen + 1, exact);
    size_t b = f.ents[e].begin, en = f.ents[e].end;
    size_t off;
    switch (weighted({3, 2, 2})) {
    case 0: off = b + pick(en - b); break;
    case 1: { // at the end of a line (or just before or after it)
      size_t nl = text.find('\n', b + pick(en - b));
      off = nl + pick(3);
      off -= 1;
      break;
    }
    default: off = en - std::min(en - b, pick(4));
    }
    first = std::max(f.eoh, std::min(off, text.size()));
    text.resize(first);
    for (auto &x : f.ents)
      torn |= first > x.begin + 81 && first + 21 < x.end;
    fault("truncation");
  } else if (kind == 2) {
    int n = weighted({3, 2, 1}) + 1;
    Sub r = sub();
    for (int i = 0; i < n; i++) {
      size_t p;
      if (chance(1, 2)) // aim at the labels and the lines that are read as numbers
        p = f.ents[pick(f.ents.size())].begin + r.below(81 * 10);
      else
        p = f.eoh + r.below(text.size() - f.eoh);
      p = std::min(p, text.size() - 1);
      static const char C[] = " 0123456789-+.*GRECJSI\n\0\xff";
      text[p] = chance(1, 2) ? (char)(text[p] ^ (1 << r.below(8))) : C[r.below(sizeof C - 1)];
      first = std::min(first, p);
      fault("flipped_byte");
    }
  }
  File &d = disk(P, text);
  benign_io(d);
  g_budget_scale = text.size() * 4;
  ambient_conditions();
  block("file as stored", text);
  AtxSession s;
  s.open(P);
  nontrivial();
  int n = history(1, 10, 120);
  for (int k = 0; k < n; k++) {
    if (kind == 0) {
      d.plan.eio_at = -1;
      d.plan.seek_fail = 0;
      switch (weighted({3, 2, 1})) {
      case 0:
        d.plan.eio_at = (long)(f.eoh + pick(text.size() - f.eoh));
        if (gen >= 0 && k % 3 == 0) // between the two entries
          d.plan.eio_at = (long)(f.ents[(size_t)gen].end + pick(f.ents[(size_t)exact].end - f.ents[(size_t)gen].end));
        d.plan.eio_count = (int)range(1, 2);
        ev("arm EIO at %ld", d.plan.eio_at);
        break;
      case 1: ev("no fault"); break;
      default:
        d.plan.seek_fail = 1;
        ev("arm lseek failure");
      }
    }
    AtxQuery q = (kind == 3 || gen >= 0) && k % 3 == 0 ? aimed : gen_antex_query(f);
    AtxAnswer w = antex_model(f, normal(q));
    u64 hits = d.eio_hits + d.seek_fails;
    int st = s.ask(q);
    if (kind == 3) {
      bool maybe = false; // an error will do, too
      if (w.st == 0 && w.ent == (long)bad) {
        probe("query_for_the_unreadable_entry");
        if (bad_id) {
          // another entry may answer instead
          AtxFile g = f;
          g.ents[bad].prn = -1;
          w = antex_model(g, normal(q));
          maybe = true;
        } else if (q.kind)
          w.st = 1;
      }
      if (w.st && st <= 0)
        fail("unreadable-delivered", "query %d: status %d, but the entry (%ld) has an unreadable field", k, st, w.ent);
      if (!w.st) {
        if (st > 0 && !maybe)
          fail("not-found", "query %d: status %d, but entry %ld is not damaged", k, st, w.ent);
        if (st <= 0) {
          std::string df = s.diff(q, f.ents[(size_t)w.ent]);
          if (!df.empty())
            fail("wrong-data", "query %d: success, but %s", k, df.c_str());
        }
      }
      continue;
    }
    bool hit = d.eio_hits + d.seek_fails > hits;
    // the whole answer lies before the damage, and the search stops there
    bool decided = w.st == 0 && f.ents[(size_t)w.ent].end <= first &&
                   (q.kind < 2 || (!f.ents[(size_t)w.ent].generic()));
    if (kind == 0) {
      if (!hit)
        decided = w.st == 0;
      else {
        decided = false;
        probe("query_hit_by_a_failed_read_or_seek");
      }
    }
    if (decided && st)
      fail("not-found", "query %d: status %d, but entry %ld lies before the damage (or no fault happened)", k, st, w.ent);
    if (st <= 0 && (kind != 2 || decided)) {
      // success: the data must be those of a true answer
      std::string df = "there is none";
      bool ok = false;
      for (size_t i = 0; i < f.ents.size() && !ok; i++) {
        auto &e = f.ents[i];
        AtxQuery nq = normal(q);
        bool match = q.kind < 2 ? (long)i == w.ent
                                : !e.sat && e.name == nq.name &&
                                      (e.generic() ? !q.must && ((kind == 1 && !torn) || (long)i == w.ent)
                                                   : q.has_serial && trimmed(e.serial) == trimmed(q.serial));
        if (!match)
          continue;
        df = s.diff(q, e);
        ok = df.empty() && e.begin < first;
      }
      if (!ok)
        fail(df == "there is none" ? "phantom" : "wrong-data", "query %d: success, but the file's answer (entry %ld) differs: %s", k, w.ent, df.c_str());
    }
  }
  if (kind == 0) { // the faults stop: everything works again
    d.plan.eio_at = -1;
    d.plan.seek_fail = 0;
    ev("faults stop");
    for (int k = 0; k < 2; k++) {
      AtxQuery q = gen_antex_query(f);
      AtxAnswer w = antex_model(f, normal(q));
      int st = s.ask(q);
      if ((st <= 0) != (w.st == 0))
        fail("not-recovered", "after the faults stopped: status %d, entry %ld expected", st, w.ent);
      if (w.st == 0) {
        std::string df = s.diff(q, f.ents[(size_t)w.ent]);
        if (!df.empty())
          fail("not-recovered", "after the faults stopped: %s", df.c_str());
      }
    }
  }
}
SIM_PROP(C11, c11);
