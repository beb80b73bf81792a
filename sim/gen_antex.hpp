// Reference model of an ANTEX 1.3/1.4 file, its generator, the lookups.
#pragma once
#include "antex.hpp"
#include "common.hpp"
#include <sstream>

namespace gen {
using ngpt::Antex;
using ngpt::ReceiverAntenna;
using sec_t = ngpt::datetime<ngpt::seconds>;

struct AtxFreq {
  char sys{'G'};
  int band{1};
  double v[3];
};
struct AtxEntry {
  bool sat{false};
  std::string name;   // 20 characters
  std::string serial; // 20 characters (receiver) or the satellite code
  char sys{' '};      // ' ': all satellites of the type
  int prn{0}, svn{-1};
  std::string cospar; // trimmed
  long from{0}, until{-1}; // seconds since MJD 0; until -1: for ever
  std::vector<AtxFreq> freqs;
  size_t begin{0}, end{0}, head_end{0}; // head_end: after TYPE / SERIAL NO
  bool covers(long t) const { return from <= t && (until < 0 || t <= until); }
  bool generic() const { return serial.find_first_not_of(' ') == std::string::npos; }
};
struct AtxFile {
  std::vector<AtxEntry> ents;
  std::string text;
  size_t eoh{0};
};
inline std::string trimmed(std::string s) {
  while (!s.empty() && s.back() == ' ')
    s.pop_back();
  return s;
}
inline sec_t sec_at(long s) {
  long d = ngpt::shim::fdiv(s, 86400);
  return sec_t(ngpt::modified_julian_day(d), ngpt::seconds(s - d * 86400));
}

inline AtxFile make_antex(bool large = false) {
  using namespace sim;
  AtxFile f;
  Sub r = sub();
  bool q = r.quiet();
  bool pad = r.chance(1, 2);
  auto L = [&](std::string s, const char *label) {
    s.resize(60, ' ');
    s += label;
    if (pad)
      s.resize(80, ' ');
    f.text += s + "\n";
  };
  L(fmt("%8.1f            %c", q || r.chance(3, 4) ? 1.4 : 1.3, "MGR"[q ? 0 : r.below(3)]), "ANTEX VERSION / SYST");
  L("A", "PCV TYPE / REFANT");
  int nc = q ? 0 : (int)r.below(6);
  if (!q && r.chance(1, 40))
    nc = (int)r.range(50, r.chance(1, 6) ? 2500 : 900), probe("long_header");
  for (int i = 0; i < nc; i++)
    L("comment START OF ANTENNA", "COMMENT");
  L("", "END OF HEADER");
  f.eoh = f.text.size();

  // ---------------------------------------------------------- who is in it
  static const char *SATTYPE[] = {"BLOCK IIA", "BLOCK IIR-B", "GLONASS-M", "GALILEO-2", "BEIDOU-3M-CAST", "QZSS 2G", "BLOCK VERY LONG NAME"};
  static const char *MODEL[] = {"TRM29659.00", "TRM29659.01", "LEIAR25.R3", "LEIAR25.R4", "AOAD/M_T", "ASH701945E_M", "JAVRINGANT_DM12"};
  static const char *RADOME[] = {"NONE", "SCIS", "LEIT", "SCIT"};
  static const char *SERIAL[] = {"", "12345", "123456", "1234", "CR5200131", "00000000000000000001", "00000000000000000002", "A B", "12346"};
  int ns = (int)range(1, 7), nr = (int)range(0, 7);
  bool many = large && chance(1, 15); // more than anybody keeps in mind
  if (many)
    ns = (int)range(20, 120), nr = (int)range(20, 80), probe("many_antennas");
  std::vector<AtxEntry> ents;
  long base = mjd_of(1995, 1, 1) * 86400L;
  for (int i = 0; i < ns; i++) { // one satellite, all its generations
    char sys = "GRECJGRECSI"[pick(11)];
    int prn = (int)pick(many ? 36 : 4) + 1;
    bool dup = false;
    for (auto &e : ents)
      dup |= e.sys == sys && e.prn == prn;
    if (dup)
      continue;
    int gens = (int)range(1, 4);
    long t = base + (long)pick(200) * 86400L * 37;
    for (int g = 0; g < gens; g++) {
      AtxEntry e;
      e.sat = true;
      e.name = padded(SATTYPE[q ? 0 : r.below(7)], 20);
      e.sys = sys, e.prn = prn;
      if (!q && !r.chance(1, 4))
        e.svn = (int)r.range(1, 999);
      if (!q && !r.chance(1, 4))
        e.cospar = fmt("%04d-%03d%s", (int)r.range(1978, 2026), (int)r.range(1, 120), r.chance(1, 5) ? "AB" : r.chance(1, 2) ? "A" : "Z");
      e.from = t;
      long len = one_of<long>({86400, 86400L * 1000, 1, 43200, 0, 86400L * 30 + 7});
      bool open = g + 1 == gens && !chance(1, 3);
      e.until = open ? -1 : t + len;
      t += len + one_of<long>({1, 86400, 0, 86400L * 100}); // 0: touching generations
      ents.push_back(e);
    }
  }
  if (chance(1, 4)) { // all representatives of a type
    AtxEntry e;
    e.sat = true;
    e.name = padded("BLOCK IIA", 20);
    e.from = base;
    ents.push_back(e);
  }
  for (int i = 0; i < nr; i++) {
    AtxEntry e;
    std::string m = MODEL[pick(7)];
    e.name = padded(padded(m, 16) + RADOME[pick(4)], 20);
    e.serial = padded(SERIAL[pick(9)], 20);
    bool dup = false;
    for (auto &o : ents)
      dup |= !o.sat && o.name == e.name && o.serial == e.serial;
    if (!dup)
      ents.push_back(e);
  }
  if (large && chance(1, 250)) { // as large as the files in use; all others asked for lie among them
    int n = one_of<int>({550, 1100, 2300});
    for (int i = 0; i < n; i++) {
      AtxEntry e;
      e.name = padded(padded(fmt("MODEL%05d", i), 16) + RADOME[0], 20);
      e.serial = padded(i % 3 ? "" : fmt("%d", i), 20);
      ents.insert(ents.begin() + (i % 2 ? (long)ents.size() - 1 : 0), e);
    }
    probe("large_file");
  }
  if (chance(1, 2)) // any order: one recorded choice seeds the shuffle
    if (Sub sh = sub(); !sh.quiet())
      for (size_t i = ents.size(); i > 1; i--)
        std::swap(ents[i - 1], ents[sh.below(i)]);
  // one entry of very many lines: a fine grid, or a long story
  const AtxEntry *vast = large && !q && !many && chance(1, 150) ? &ents[pick(ents.size())] : nullptr;
  bool grid = vast && chance(2, 3);
  if (vast)
    probe("vast_entry");
  // ---------------------------------------------------------------- blocks
  auto when = [&](long t, bool end) {
    Stamp s = from_abs(t);
    // 59.9999999: the usual way to write the end of a validity
    bool nines = end && s.sec == 59 && r.chance(1, 2);
    return fmt("%6d%6d%6d%6d%6d%13.7f", s.y, s.mo, s.d, s.h, s.mi, nines ? 59.9999999 : s.sec);
  };
  for (auto &e : ents) {
    if (e.until >= 0 && !q && r.chance(1, 2))
      ; // keep
    e.begin = f.text.size();
    L("", "START OF ANTENNA");
    std::string id = e.name;
    if (!e.sat && !q && id.substr(16) == "NONE" && r.chance(1, 8)) { // the same antenna
      id = padded(id.substr(0, 16), 20);
      probe("blank_radome");
    }
    if (e.sat) {
      id += e.sys == ' ' ? padded("", 20) : padded(fmt("%c%02d", e.sys, e.prn), 20);
      id += e.svn >= 0 ? padded(fmt("%c%03d", e.sys, e.svn), 10) : padded("", 10);
      id += padded(e.cospar, 10);
    } else
      id += padded(e.serial, 20);
    L(id, "TYPE / SERIAL NO");
    e.head_end = f.text.size();
    L("ROBOT               Geo++ GmbH               3    25-JAN-11", "METH / BY / # / DATE");
    double dazi = q ? 0 : r.chance(1, 5) ? (r.chance(1, 2) ? 90 : 30) : 0;
    double zen2 = e.sat ? 14 : 90, dzen = q || r.chance(1, 2) ? (e.sat ? 7 : 30) : e.sat ? 1 : 5;
    if (!q && r.chance(1, 10))
      zen2 = 20, dzen = .5; // 41 values
    if (&e == vast && grid)
      dazi = r.chance(1, 2) ? .5 : 1, dzen = zen2 / 2;
    L(fmt("%8.1f", dazi), "DAZI");
    L(fmt("  %6.1f%6.1f%6.1f", 0., zen2, dzen), "ZEN1 / ZEN2 / DZEN");
    int nf = &e == vast && grid ? (int)r.range(8, 16) : q || f.text.size() > 300000 ? 1 : (int)(r.chance(1, 25) ? r.range(6, 32) : r.range(1, 5));
    if (nf > 5)
      probe("many_frequencies");
    L(fmt("%6d", nf), "# OF FREQUENCIES");
    if (e.sat) {
      L(when(e.from, false), "VALID FROM");
      if (e.until >= 0)
        L(when(e.until, true), "VALID UNTIL");
    }
    if (r.chance(1, 2))
      L("IGS14_2163", "SINEX CODE");
    for (int k = &e == vast && !grid ? (int)r.range(4000, 6000) : q ? 0 : r.chance(1, 20) ? (int)r.below(80) : (int)r.below(3); k > 0; k--)
      L("some words, e.g. START OF FREQUENCY", "COMMENT");
    int nv = (int)std::lround(zen2 / dzen) + 1;
    auto pattern = [&] {
      std::string s = "   NOAZI";
      for (int k = 0; k < nv; k++)
        s += fmt("%8.2f", q ? 0 : (r.unit() - .5) * 30);
      f.text += s + "\n";
      for (double a = 0; dazi > 0 && a <= 360.01; a += dazi) {
        s = fmt("%8.1f", a);
        for (int k = 0; k < nv; k++)
          s += fmt("%8.2f", q ? 0 : (r.unit() - .5) * 30);
        f.text += s + "\n";
      }
    };
    bool rms_each = !q && r.chance(1, 4), rms_end = !q && !rms_each && r.chance(1, 4);
    auto rms = [&](const AtxFreq &fr) {
      L(fmt("   %c%02d", fr.sys, fr.band), "START OF FREQ RMS");
      L(fmt("%10.2f%10.2f%10.2f", r.unit(), r.unit(), r.unit()), "NORTH / EAST / UP");
      pattern();
      L(fmt("   %c%02d", fr.sys, fr.band), "END OF FREQ RMS");
    };
    for (int k = 0; k < nf; k++) {
      AtxFreq fr;
      if (!q) {
        fr.sys = e.sat && e.sys != ' ' ? e.sys : "GRECJS"[r.below(6)];
        fr.band = (int)r.range(1, 9);
      }
      L(fmt("   %c%02d", fr.sys, fr.band), "START OF FREQUENCY");
      std::string s;
      for (int c = 0; c < 3; c++) {
        double x = q ? 0 : r.chance(1, 10) ? (r.unit() - .5) * 199999. : (r.unit() - .5) * 5000;
        std::string a = fmt("%10.2f", x);
        fr.v[c] = std::strtod(a.c_str(), nullptr);
        s += a;
      }
      L(s, "NORTH / EAST / UP");
      pattern();
      L(fmt("   %c%02d", fr.sys, fr.band), "END OF FREQUENCY");
      if (rms_each)
        rms(fr);
      e.freqs.push_back(fr);
    }
    if (rms_end)
      for (auto &fr : e.freqs)
        rms(fr);
    L("", "END OF ANTENNA");
    e.end = f.text.size();
  }
  f.ents = ents;
  return f;
}

// ------------------------------------------------------------------ lookups
struct AtxQuery {
  int kind{0}; // 0 satellite info, 1 satellite offsets, 2 receiver offsets
  char sys{'G'};
  int prn{1};
  long t{0};
  bool want_sv{true}, must{false};
  std::string name, serial; // as the user writes them
  bool has_serial{false};
};
struct AtxAnswer {
  int st{0};
  long ent{-1};
};
inline AtxAnswer antex_model(const AtxFile &f, const AtxQuery &q) {
  if (q.kind < 2) {
    for (size_t i = 0; i < f.ents.size(); i++) {
      auto &e = f.ents[i];
      if (e.sat && e.sys == q.sys && e.prn == q.prn && e.covers(q.t))
        return {0, (long)i};
    }
    return {1, -1};
  }
  long best = -1;
  for (size_t i = 0; i < f.ents.size(); i++) {
    auto &e = f.ents[i];
    if (e.sat || e.name != padded(q.name, 20))
      continue;
    if (q.has_serial && trimmed(e.serial) == trimmed(q.serial) && !e.generic())
      return {0, (long)i};
    if (e.generic())
      best = (long)i;
  }
  if (best < 0 || q.must)
    return {1, best};
  return {0, best};
}
inline AtxQuery gen_antex_query(const AtxFile &f, int kind = -1) {
  using namespace sim;
  AtxQuery q;
  q.kind = kind >= 0 ? kind : (int)pick(3);
  size_t i = f.ents.empty() ? 0 : pick(f.ents.size());
  if (q.kind < 2) {
    const AtxEntry *e = nullptr;
    for (size_t k = 0; k < f.ents.size(); k++) {
      auto &c = f.ents[(i + k) % f.ents.size()];
      if (c.sat && c.sys != ' ') {
        e = &c;
        break;
      }
    }
    if (e) {
      q.sys = e->sys, q.prn = e->prn;
      if (chance(1, 8))
        q.prn = (int)range(1, 5);
      if (chance(1, 8))
        q.sys = one_of<char>({'G', 'R', 'E', 'C', 'J', 'S', 'I'});
      switch (weighted({3, 3, 3, 2, 1})) {
      case 0: q.t = e->from + (e->until >= 0 ? (e->until - e->from) / 2 : 86400); break;
      case 1: q.t = e->from + range(-1, 1); break;
      case 2: q.t = (e->until >= 0 ? e->until : e->from) + range(-1, 1); break;
      case 3: q.t = e->from + (long)pick(30000) * 3600 - 3600 * 1000; break;
      default: q.t = mjd_of(2100, 1, 1) * 86400L;
      }
    }
    q.want_sv = !chance(1, 3);
  } else {
    for (size_t k = 0; k < f.ents.size(); k++) {
      auto &c = f.ents[(i + k) % f.ents.size()];
      if (!c.sat) {
        q.name = c.name;
        q.serial = c.serial;
        q.has_serial = !c.generic();
        break;
      }
    }
    if (q.name.empty() || chance(1, 6)) {
      q.name = padded(one_of<const char *>({"TRM29659.00", "LEIAR25.R3", "JAVRINGANT_DM12", "UNKNOWN"}), 16) +
               one_of<const char *>({"NONE", "SCIS", "LEIT"});
    }
    switch (weighted({4, 2, 2})) {
    case 0: break;
    case 1: q.has_serial = false; break;
    default:
      q.has_serial = true;
      q.serial = one_of<const char *>({"12345", "1234", "123456", "00000000000000000001", "CR5200132", "A  B"});
    }
    if (q.has_serial && chance(1, 2))
      q.serial = trimmed(q.serial);
    if (q.name.substr(16) == "NONE" && chance(1, 3)) // no radome means NONE
      q.name = chance(1, 2) ? trimmed(q.name.substr(0, 16)) : padded(q.name.substr(0, 16), 20);
    q.must = chance(1, 4);
  }
  return q;
}
/// the model name as the comparison rules read it (no radome: NONE)
inline AtxQuery normal(AtxQuery q) {
  if (q.kind == 2 && (q.name.size() < 20 || q.name.substr(16) == "    "))
    q.name = padded(q.name, 16) + "NONE";
  return q;
}

struct AtxSession {
  std::unique_ptr<Antex> rd;
  ngpt::Satellite sv;
  ngpt::AntennaPcoList pco;
  void open(const char *path, bool by_reset = false) {
    try {
      if (by_reset) {
        rd = std::make_unique<Antex>();
        sim::api("reset_to_file", [&] { rd->reset_to_file(path); });
      } else
        rd = sim::api("Antex", [&] { return std::make_unique<Antex>(path); });
    } catch (std::exception &e) {
      sim::fail("valid-file-rejected", "constructor threw on a valid file: %s", e.what());
    }
  }
  int ask(const AtxQuery &q) {
    int st;
    auto ss = ngpt::SATELLITE_SYSTEM::mixed;
    if (q.kind < 2)
      ss = ngpt::char_to_satsys(q.sys);
    if (q.kind == 0) {
      sv = ngpt::Satellite();
      st = sim::api("get_satellite_info", [&] { return rd->get_satellite_info(q.prn, ss, sec_at(q.t), sv); });
      sim::ev("info %c%02d at %ld -> %s", q.sys, q.prn, q.t, st ? "no" : "yes");
    } else if (q.kind == 1) {
      sv = ngpt::Satellite();
      st = sim::api("get_antenna_pco", [&] { return rd->get_antenna_pco(q.prn, ss, sec_at(q.t), pco, q.want_sv ? &sv : nullptr); });
      sim::ev("pco %c%02d at %ld -> %s", q.sys, q.prn, q.t, st ? "no" : "yes");
    } else {
      ReceiverAntenna a(q.name);
      if (q.has_serial)
        a.set_serial_nr(q.serial.c_str());
      st = sim::api("get_antenna_pco", [&] { return rd->get_antenna_pco(a, pco, q.must); });
      sim::ev("pco %s|%s%s -> %s", q.name.c_str(), q.has_serial ? q.serial.c_str() : "-", q.must ? " (serial demanded)" : "", st ? "no" : "yes");
    }
    return st;
  }
  /// what is wrong with a successful answer if the entry is the right one
  std::string diff(const AtxQuery &q, const AtxEntry &e) {
    using sim::fmt;
    if (q.kind == 0 || (q.kind == 1 && q.want_sv)) {
      if (sv.system() != ngpt::char_to_satsys(e.sys) || sv.prn() != e.prn)
        return fmt("satellite is not %c%02d", e.sys, e.prn);
      if (sv.svn() != e.svn)
        return fmt("SVN is %d, file has %d", sv.svn(), e.svn);
      std::string c = trimmed(std::string(sv.cospar(), strnlen(sv.cospar(), 16)));
      if (c != e.cospar)
        return fmt("COSPAR id is '%s', file has '%s'", c.c_str(), e.cospar.c_str());
      std::string a = trimmed(sv.antenna().to_string());
      if (a != trimmed(e.name))
        return fmt("antenna is '%s', file has '%s'", a.c_str(), e.name.c_str());
    }
    if (q.kind == 0)
      return "";
    auto &v = pco.__vecref__();
    if (v.size() != e.freqs.size())
      return fmt("%zu frequencies, file has %zu", v.size(), e.freqs.size());
#ifdef DEBUG
    for (size_t i = 0; i < v.size(); i++) {
      std::ostringstream os;
      os.precision(17);
      v[i].dummy_print(os);
      std::string s = os.str();
      auto &w = e.freqs[i];
      double x[3];
      char sy;
      size_t b = s.find(']');
      if (b == std::string::npos || sscanf(s.c_str(), "%c", &sy) != 1 || sscanf(s.c_str() + b + 1, "%lf, %lf, %lf", x, x + 1, x + 2) != 3)
        return "cannot read: " + s;
      size_t dg = s.substr(0, b).find_first_of("0123456789");
      if (sy != w.sys || dg == std::string::npos || s[dg] - '0' != w.band)
        return fmt("frequency %zu is %s, file has %c%02d", i, s.c_str(), w.sys, w.band);
      for (int k = 0; k < 3; k++)
        if (x[k] != w.v[k])
          return fmt("%c%02d offset %d is %.10g, file has %.10g", w.sys, w.band, k, x[k], w.v[k]);
    }
#endif
    return "";
  }
};
} // namespace gen
