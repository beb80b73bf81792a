// Reference model of a Bernese SATELLIT file, its generator, the lookup.
#pragma once
#include "bern_utils.hpp"
#include "common.hpp"
#include "gen_antex.hpp"

namespace gen {
using ngpt::BernSatellit;
struct BernRec {
  std::string type;
  int prn{1}, svn{1}, chan{0};
  long from{0}, until{-1};
  size_t begin{0}, end{0};
  bool covers(long t) const { return t >= from && (until < 0 || t < until); }
};
struct BernFile {
  std::vector<BernRec> recs;
  std::string text;
  size_t eoh{0}, part3{0};
};
inline BernFile make_bern() {
  using namespace sim;
  BernFile f;
  Sub r = sub();
  bool q = r.quiet(), pad = r.chance(1, 2);
  auto L = [&](std::string s) {
    if (pad && s.size() < 130)
      s.resize(130, ' ');
    f.text += s + "\n";
  };
  L("SATELLITE-SPECIFIC INFO FOR GPS/GLONASS/GEO/LEO/SLR, BSW5.2        14-FEB-19 10:05");
  f.text += "--------------------------------------------------------------------------------\n\n";
  L("MODEL: I14        LAST MODIFIED: 14-FEB-2019");
  f.text += "\n";
  L("PART 1: PHYSICAL SATELLITE PARAMETERS AND PARAMETERS FOR ORBIT MODELING");
  f.text += "-----------------------------------------------------------------------\n";
  int np = q ? 0 : (int)r.below(12);
  if (!q && r.chance(1, 60))
    np = (int)r.range(100, 2500), probe("long_header");
  for (int i = np; i > 0; i--) {
    // looks like a record of part 2, but is none
    std::string s = fmt("%3d  MW    BLOCK            %03d       0  1990 01 01 00 00 00                       0.0000", (int)r.range(101, 124), (int)r.range(700, 720));
    s.resize(193, ' ');
    f.text += s + fmt("%4d\n", 99);
  }
  f.text += "\n";
  L("PART 2: ON-BOARD SENSORS");
  f.text += "------------------------\n";
  L("                                              START TIME           END TIME                 SENSOR OFFSETS (M)       SENSOR BORESIGHT VECTOR (U) SENSOR AZIMUTH VECTOR (N)");
  L("PRN  TYPE  SENSOR NAME______SVN  NUMBER  YYYY MM DD HH MM SS  YYYY MM DD HH MM SS         DX        DY        DZ         X       Y       Z          X       Y       Z      ANTEX SENSOR NAME___  IFRQ  SIGNAL LIST___________------>");
  f.text += "\n";
  f.eoh = f.text.size();
  int n = (int)range(1, 12);
  if (chance(1, 60))
    n = (int)range(100, chance(1, 3) ? 2500 : 900), probe("long_bernese_file");
  std::vector<std::string> lines;
  long base = mjd_of(2003, 1, 1) * 86400L;
  std::map<int, long> last;
  auto when = [&](long t) {
    Stamp s = from_abs(t);
    return fmt("%04d %02d %02d %02d %02d %02d", s.y, s.mo, s.d, s.h, s.mi, (int)s.sec);
  };
  for (int i = 0; i < n; i++) {
    BernRec e;
    e.type = weighted({4, 1}) == 0 ? "MW" : one_of<const char *>({"SLR", "CAM", "LRR", "ML", "W", "MX", "XW"});
    e.svn = (int)range(0, 3) * 7 + 701;
    if (chance(1, 8))
      e.svn = (int)range(1, 60);
    e.prn = (int)range(1, 24) + 100;
    e.chan = (int)range(0, 13) - 7;
    long &t = last.emplace(e.svn, base).first->second;
    e.from = t + one_of<long>({0, 1, 86400, 86400L * 365});
    long len = one_of<long>({86400L * 100, 1, 86399, 86400L * 1500});
    bool open = chance(1, n > 900 ? 900 : 3); // (an open one hides the later ones)
    e.until = open ? -1 : e.from + len;
    if (e.type == "MW") // other sensors of a vehicle are on board at the same time
      t = e.from + len;
    std::string s = fmt("%3d  %-4s  %-17s%03d%8d  ", e.prn, e.type.c_str(), e.svn > 700 ? "GLONASS-M" : "BLOCK IIF", e.svn, q ? 0 : (int)r.below(3));
    if (e.type != "MW" && r.chance(1, 4))
      s.replace(28, 3, "   "); // no SVN
    s += when(e.from) + "  " + (e.until >= 0 ? when(e.until) : std::string(19, ' '));
    s += fmt("  %10.4f%10.4f%10.4f  %8.4f%8.4f%8.4f  %8.4f%8.4f%8.4f", r.unit(), -r.unit(), 2., 0., 0., 1., 1., 0., 0.);
    s.resize(163, ' ');
    s = padded(s, 170) + padded(e.svn > 700 ? "GLONASS-M" : "BLOCK IIF", 20);
    s.resize(193, ' ');
    s += fmt("%4d", e.chan);
    if (!q && r.chance(3, 4))
      s += "  L1   L2   C1   P2";
    lines.push_back(s + "\n");
    f.recs.push_back(e);
  }
  // neither by vehicle nor by time need the records be sorted
  if (Sub o = sub(); !o.quiet())
    for (size_t i = lines.size(); i > 1; i--) {
      size_t k = o.below(i);
      std::swap(lines[i - 1], lines[k]);
      std::swap(f.recs[i - 1], f.recs[k]);
    }
  for (size_t i = 0; i < lines.size(); i++) {
    f.recs[i].begin = f.text.size();
    f.text += lines[i];
    f.recs[i].end = f.text.size();
  }
  f.part3 = f.text.size();
  f.text += "\n\n";
  L("PART 3: SATELLITE GROUPS");
  f.text += "------------------------\n";
  { // must not be found
    std::string s = "  1  MW    GLONASS-M        701       0  1990 01 01 00 00 00";
    s.resize(193, ' ');
    f.text += s + "  88\n";
  }
  return f;
}
struct BernQuery {
  int svn{701};
  long t{0};
};
inline long bern_model(const BernFile &f, const BernQuery &q) {
  for (size_t i = 0; i < f.recs.size(); i++)
    if (f.recs[i].type == "MW" && f.recs[i].svn == q.svn && f.recs[i].covers(q.t))
      return (long)i;
  return -1;
}
inline BernQuery gen_bern_query(const BernFile &f) {
  using namespace sim;
  BernQuery q;
  auto &e = f.recs[pick(f.recs.size())];
  q.svn = e.svn;
  if (chance(1, 8))
    q.svn = (int)range(0, 3) * 7 + 700;
  switch (weighted({3, 3, 3, 1})) {
  case 0: q.t = e.from + (e.until > 0 ? (e.until - e.from) / 2 : 86400); break;
  case 1: q.t = e.from + range(-1, 1); break;
  case 2: q.t = (e.until >= 0 ? e.until : e.from) + range(-1, 1); break;
  default: q.t = e.from + (long)pick(20000) * 86400 - 86400L * 4000;
  }
  return q;
}
struct BernSession {
  std::unique_ptr<BernSatellit> rd;
  int chan{0}, prn{0};
  void open(const char *path) {
    try {
      rd = sim::api("BernSatellit", [&] { return std::make_unique<BernSatellit>(path); });
    } catch (std::exception &e) {
      sim::fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
    }
  }
  int ask(const BernQuery &q) {
    chan = 77, prn = 777;
    int st;
    try {
      st = sim::api("get_frequency_channel", [&] { return rd->get_frequency_channel(q.svn, sec_at(q.t), chan, prn); });
    } catch (std::exception &e) {
      st = 1000; // reported, by an exception
    }
    sim::ev("channel of %d at %ld -> %d %d %d", q.svn, q.t, st, st ? 0 : chan, st ? 0 : prn);
    return st;
  }
  std::string diff(const BernRec &e) const {
    if (chan != e.chan || prn != e.prn)
      return sim::fmt("channel %d PRN %d, file has %d and %d", chan, prn, e.chan, e.prn);
    return "";
  }
};
} // namespace gen
