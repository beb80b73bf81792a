// C12: Bernese satellite file.
#include "gen_bern.hpp"
using namespace sim;
using namespace gen;
static const char *P = "/sim/SATELLIT.I14";

/// damage one field of a record beyond recognition
static std::string make_unreadable(std::string &text, const BernRec &e, Sub &r) {
  struct Field {
    size_t at;
    std::string put;
    const char *what;
  };
  std::vector<Field> v = {{0, "xxx", "PRN"}, {28, "xxx", "SVN"}, {193, "  xx", "frequency channel"}, {193, "    ", "frequency channel"}};
  for (size_t s : {41, 62}) {
    if (s == 62 && e.until < 0)
      break;
    static const int at[] = {0, 5, 8, 11, 14, 17};
    size_t k = r.below(6);
    v.push_back({s + (size_t)at[k], k ? "xx" : "xxxx", s == 41 ? "start" : "end"});
    if (r.chance(1, 2)) // nor is a blank one to be read from its neighbour
      v.back().put.assign(v.back().put.size(), ' ');
  }
  v.push_back({0, "   ", "PRN"});
  v.push_back({28, "   ", "SVN"});
  const Field &x = v[r.below(v.size())];
  text.replace(e.begin + x.at, x.put.size(), x.put);
  return fmt("%s (\"%s\")", x.what, x.put.c_str());
}
static void c12() {
  BernFile f = make_bern();
  std::string text = f.text;
  int mode = weighted({3, 4, 3, 2}); // none, I/O errors, cut, unreadable field
  size_t first = text.size();
  long bad = -1; // record with the unreadable field
  BernQuery aimed;
  if (mode == 3) {
    bad = bern_model(f, aimed = gen_bern_query(f));
    if (bad < 0)
      bad = (long)pick(f.recs.size());
    const BernRec &e = f.recs[(size_t)bad];
    if (e.type == "MW") {
      Sub r = sub();
      std::string what = make_unreadable(text, e, r);
      note("unreadable in record %ld: %s", bad, what.c_str());
      fault("unreadable_field");
    } else
      bad = -1; // no field of it matters
  }
  if (mode == 2) {
    size_t off;
    auto &e = f.recs[pick(f.recs.size())];
    switch (weighted({3, 2, 2})) {
    case 0: off = f.eoh + pick(text.size() - f.eoh); break;
    case 1: off = e.end - std::min<size_t>(e.end - e.begin, pick(40)); break;
    default: off = e.begin + pick(e.end - e.begin);
    }
    first = std::min(text.size(), std::max(off, f.eoh));
    text.resize(first);
    fault("truncation");
  }
  File &d = disk(P, text);
  benign_io(d);
  g_budget_scale = text.size();
  ambient_conditions();
  block("file as stored", text);
  BernSession s;
  s.open(P);
  int n = history(1, 12, 300);
  for (int k = 0; k < n; k++) {
    if (mode == 1) {
      d.plan.eio_at = -1;
      d.plan.seek_fail = 0;
      switch (weighted({3, 3, 1})) {
      case 0: ev("no fault"); break;
      case 1:
        d.plan.eio_at = (long)(f.eoh + pick(text.size() - f.eoh));
        d.plan.eio_count = (int)range(1, 2);
        ev("arm EIO at %ld", d.plan.eio_at);
        break;
      default:
        d.plan.seek_fail = 1;
        ev("arm lseek failure");
      }
    }
    BernQuery q = bad >= 0 && k % 3 == 0 ? aimed : gen_bern_query(f);
    long w = bern_model(f, q);
    u64 hits = d.eio_hits + d.seek_fails;
    int st = s.ask(q);
    simtime(86400);
    if (bad >= 0 && (w < 0 || w >= bad)) { // the search comes across the record
      nontrivial();
      if (w == bad && st <= 0)
        fail("unreadable-delivered", "query %d: status %d, but the record (%ld) has an unreadable field", k, st, w);
      if (w < 0 && !st)
        fail("phantom", "query %d: success, but no record is valid", k);
      if (!st) {
        std::string df = s.diff(f.recs[(size_t)w]);
        if (!df.empty())
          fail("wrong-data", "query %d (record %ld): %s", k, w, df.c_str());
      }
      continue;
    }
    bool hit = d.eio_hits + d.seek_fails > hits;
    bool before = w >= 0 && f.recs[(size_t)w].end <= first;
    if (st == 0) {
      if (w < 0)
        fail("phantom", "query %d: success, but no record is valid", k);
      std::string df = s.diff(f.recs[(size_t)w]);
      if (!df.empty())
        fail("wrong-data", "query %d (record %ld): %s", k, w, df.c_str());
      if (!before)
        fail("torn-record", "query %d: success from record %ld, which is cut off", k, w);
      nontrivial();
      if (q.t == f.recs[(size_t)w].from)
        probe("asked_at_start_of_validity");
    } else if (hit) {
      probe("query_hit_by_a_failed_read_or_seek");
      if (st < 0)
        fail("io-error-as-absent", "query %d: a failed read was reported as an absent satellite", k);
    } else if (before)
      fail("not-found", "query %d: status %d, but record %ld is valid", k, st, w);
    else if (mode != 2 && st != -1)
      fail("wrong-status", "query %d: status %d for an absent satellite", k, st);
    else if (w >= 0 || st == -1)
      nontrivial();
  }
  if (mode == 1) {
    d.plan.eio_at = -1;
    d.plan.seek_fail = 0;
    ev("faults stop");
    for (int k = 0; k < 2; k++) {
      BernQuery q = gen_bern_query(f);
      long w = bern_model(f, q);
      int st = s.ask(q);
      if (st != (w >= 0 ? 0 : -1))
        fail("not-recovered", "after the faults stopped: status %d, record %ld expected", st, w);
      if (st == 0) {
        std::string df = s.diff(f.recs[(size_t)w]);
        if (!df.empty())
          fail("not-recovered", "after the faults stopped: %s", df.c_str());
      }
    }
  }
}
SIM_PROP(C12, c12);
