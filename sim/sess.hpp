// One interface over the sessions of all five readers: the file, the calls and
// a digest of everything a call delivers.
#pragma once
#include "gen_antex.hpp"
#include "gen_bern.hpp"
#include "gen_nav.hpp"
#include "gen_obs.hpp"
#include "gen_sp3.hpp"
#include <type_traits>

namespace gen {
struct Content { // one generated file, kind 0..4
  int kind{0};
  ObsFile obs;
  ObsReq req[2];
  NavFile nav;
  Sp3File sp3;
  AtxFile atx;
  std::vector<AtxQuery> aq;
  BernFile bern;
  std::vector<BernQuery> bq;
  std::string text;
  size_t eoh{0};
};
inline Content make_content(int kind) {
  Content c;
  c.kind = kind;
  switch (kind) {
  case 0:
    c.obs = make_obs();
    c.req[0] = make_req(c.obs);
    c.req[1] = make_req(c.obs);
    c.text = c.obs.text, c.eoh = c.obs.eoh;
    break;
  case 1: c.nav = make_nav(); c.text = c.nav.text, c.eoh = c.nav.eoh; break;
  case 2: c.sp3 = make_sp3(); c.text = c.sp3.text, c.eoh = c.sp3.eoh; break;
  case 3:
    c.atx = make_antex();
    c.text = c.atx.text, c.eoh = c.atx.eoh;
    for (int i = 0; i < 4; i++)
      c.aq.push_back(gen_antex_query(c.atx));
    break;
  default:
    c.bern = make_bern();
    c.text = c.bern.text, c.eoh = c.bern.eoh;
    for (int i = 0; i < 4; i++)
      c.bq.push_back(gen_bern_query(c.bern));
  }
  return c;
}
static const char *const KIND[] = {"ObservationRnx", "NavigationRnx", "Sp3c", "Antex", "BernSatellit"};

/// hand a reader over: the ways C++ offers
template <class R> void hand_over(std::unique_ptr<R> &rd, std::vector<std::unique_ptr<R>> &husks, unsigned how, const char *spare) {
  using sim::api;
  switch (how) {
  case 0: { // move construct, destroy the husk at once
    auto n = api("move construct", [&] { return std::make_unique<R>(std::move(*rd)); });
    api("destroy husk", [&] { rd.reset(); });
    rd = std::move(n);
    break;
  }
  case 1: { // the husk outlives the session's new owner for a while
    auto n = api("move construct", [&] { return std::make_unique<R>(std::move(*rd)); });
    husks.push_back(std::move(rd));
    rd = std::move(n);
    break;
  }
  case 2: { // through a growing container
    api("through a vector", [&] {
      std::vector<R> v;
      v.push_back(std::move(*rd));
      v.reserve(v.capacity() + 1);
      v.push_back(R(spare));
      rd = std::make_unique<R>(std::move(v[0]));
    });
    break;
  }
  case 3: // assign over a reader that is in use
    if constexpr (std::is_move_assignable_v<R>) {
      auto n = api("open another", [&] { return std::make_unique<R>(spare); });
      api("move assign", [&] { *n = std::move(*rd); });
      husks.push_back(std::move(rd));
      rd = std::move(n);
    }
    break;
  case 4: // into a husk
    if constexpr (std::is_move_assignable_v<R>) {
      auto n = api("move construct", [&] { return std::make_unique<R>(std::move(*rd)); });
      api("move assign to the husk", [&] { *rd = std::move(*n); });
      husks.push_back(std::move(n));
    }
    break;
  default: // swap with another reader, twice
    if constexpr (std::is_move_assignable_v<R> && std::is_move_constructible_v<R>) {
      auto n = api("open another", [&] { return std::make_unique<R>(spare); });
      api("swap", [&] {
        R t(std::move(*rd));
        *rd = std::move(*n);
        *n = std::move(t);
      });
      husks.push_back(std::move(rd));
      rd = std::move(n);
    }
  }
}

struct Session {
  const Content *c{nullptr};
  ObsSession obs;
  std::unique_ptr<NavigationRnx> nav;
  NavDataFrame frame;
  Sp3Session sp3;
  AtxSession atx;
  BernSession bern;
  int cur_req{0};
  std::vector<std::unique_ptr<ngpt::ObservationRnx>> h0;
  std::vector<std::unique_ptr<NavigationRnx>> h1;
  std::vector<std::unique_ptr<Sp3c>> h2;
  std::vector<std::unique_ptr<Antex>> h3;
  std::vector<std::unique_ptr<BernSatellit>> h4;

  /// may throw what the constructor throws
  void open(const Content &k, const char *path) {
    c = &k;
    switch (c->kind) {
    case 0:
      sim::api("ObservationRnx", [&] { obs.rd = std::make_unique<ngpt::ObservationRnx>(path); });
      remap(0);
      break;
    case 1: nav = sim::api("NavigationRnx", [&] { return std::make_unique<NavigationRnx>(path); }); break;
    case 2:
      sp3.rd = sim::api("Sp3c", [&] { return std::make_unique<Sp3c>(path); });
      sp3.vec = sp3.rd->allocate_epoch_vector();
      break;
    case 3: atx.rd = sim::api("Antex", [&] { return std::make_unique<Antex>(path); }); break;
    default: bern.rd = sim::api("BernSatellit", [&] { return std::make_unique<BernSatellit>(path); });
    }
  }
  void remap(int k) {
    cur_req = k;
    auto in = c->req[k].in;
    obs.map = sim::api("set_read_map", [&] { return obs.rd->set_read_map(in, c->req[k].skip); });
    obs.vec = sim::api("initialize_epoch_vector", [&] { return obs.rd->initialize_epoch_vector(obs.map); });
  }
  void move(unsigned how, const char *spare) {
    switch (c->kind) {
    case 0: hand_over(obs.rd, h0, how, spare); break;
    case 1: hand_over(nav, h1, how, spare); break;
    case 2: hand_over(sp3.rd, h2, how, spare); break;
    case 3: hand_over(atx.rd, h3, how, spare); break;
    default: hand_over(bern.rd, h4, how, spare);
    }
  }
  void drop_husks() { h0.clear(), h1.clear(), h2.clear(), h3.clear(), h4.clear(); }
  void close() {
    obs.rd.reset(), nav.reset(), sp3.rd.reset(), atx.rd.reset(), bern.rd.reset();
    drop_husks();
  }
  std::string frame_digest() {
    std::string s = sim::fmt(" %d %d", (int)frame.system(), frame.prn());
    char sys = ngpt::satsys_to_char(frame.system());
    auto t = frame.toc();
    s += sim::fmt(" %ld %ld", (long)t.mjd().as_underlying_type(), (long)t.sec().as_underlying_type());
    for (int i = 0; i < nav_count(sys); i++)
      if (!nav_spare(sys, i))
        s += sim::fmt(" %a", frame.data(i));
    return s;
  }
  /// one call; what it delivered
  std::string step(sim::u64 op) {
    using sim::api;
    using sim::fmt;
    sim::u64 a = op / 16;
    op %= 16;
    switch (c->kind) {
    case 0: {
      if (op == 15) {
        remap((int)(a & 1));
        return fmt("map %zu", obs.map.size());
      }
      if (op == 14) {
        api("rewind", [&] { obs.rd->rewind(); });
        return "rewind";
      }
      if (op == 13)
        return fmt("header %a %a %a %d %d", obs.rd->x_approx(), obs.rd->y_approx(), obs.rd->z_approx(), obs.rd->max_obs(), (int)(obs.rd->time_of_first_obs().mjd().as_underlying_type() % 100000));
      int st = obs.read();
      std::string s = fmt("read %d", st);
      if (st == 0) {
        s += fmt(" %d %ld %a", obs.sats, (long)obs.mjd.as_underlying_type(), obs.sod);
        for (int i = 0; i < obs.sats && i < (int)obs.vec.size(); i++) {
          auto &v = obs.vec[(size_t)i];
          s += fmt(" %c%d", ngpt::satsys_to_char(v.first.system()), v.first.prn());
          auto it = obs.map.find(v.first.system());
          size_t n = it == obs.map.end() ? 0 : it->second.size();
          for (size_t k = 0; k < n && k < v.second.size(); k++)
            s += fmt(" %a", v.second[k]);
        }
      }
      return s;
    }
    case 1: {
      if (op < 8) {
        int st = api("read_next_record", [&] { return nav->read_next_record(frame); });
        return fmt("read %d", st) + (st ? "" : frame_digest());
      }
      if (op == 8) {
        int st = 0;
        auto s = api("peak_satsys", [&] { return nav->peak_satsys(st); });
        return fmt("peek %d %d", st, st ? 0 : (int)s);
      }
      if (op == 9) {
        int st = api("ignore_next_block", [&] { return nav->ignore_next_block(); });
        return fmt("ignore %d", st);
      }
      if (op == 14) {
        api("rewind", [&] { nav->rewind(); });
        return "rewind";
      }
      const auto &rs = c->nav.recs;
      if (rs.empty())
        return "";
      const NavRec &r = rs[a % rs.size()];
      NavigationRnx::pos_type pos;
      if (op == 10) {
        int st = api("find_next", [&] { return nav->find_next(pos, frame, sys_of(r.sys), r.prn); });
        return fmt("find %d", st) + (st ? "" : frame_digest());
      }
      auto t = ms_at((r.toc.abs() + (long)(a % 7000)) * 1000);
      if (op == 11 && std::strchr("GREC", r.sys)) {
        int st = api("find_next_valid", [&] { return nav->find_next_valid(t, pos, frame, sys_of(r.sys), r.prn); });
        return fmt("find valid %d", st) + (st ? "" : frame_digest());
      }
      return "";
    }
    case 2: {
      if (op == 14) {
        api("rewind", [&] { sp3.rd->rewind(); });
        return "rewind";
      }
      if (op == 13) {
        sp3.vec = api("allocate_epoch_vector", [&] { return sp3.rd->allocate_epoch_vector(); });
        return fmt("header %d %ld %zu", sp3.rd->num_sats(), (long)sp3.rd->interval().as_underlying_type(), sp3.vec.size());
      }
      sp3.n = -7;
      int st = api("get_next_epoch", [&] { return sp3.rd->get_next_epoch(sp3.t, sp3.vec, sp3.n); });
      std::string s = fmt("epoch %d", st);
      if (st <= 0) {
        s += fmt(" %d %ld %ld", sp3.n, (long)sp3.t.mjd().as_underlying_type(), (long)sp3.t.sec().as_underlying_type());
        for (int i = 0; i < sp3.n && i < (int)sp3.vec.size(); i++) {
          auto &g = sp3.vec[(size_t)i];
          s += fmt(" %d %d %a %a %a %a", (int)g.s_, g.prn_, g.vals_[0], g.vals_[1], g.vals_[2], g.vals_[3]);
        }
      }
      return s;
    }
    case 3: {
      const AtxQuery &q = c->aq[a % c->aq.size()];
      int st = atx.ask(q);
      std::string s = fmt("ask %d", st);
      if (st <= 0) {
        if (q.kind == 0 || (q.kind == 1 && q.want_sv))
          s += fmt(" %d %d %d %s %s", (int)atx.sv.system(), atx.sv.prn(), atx.sv.svn(), atx.sv.cospar(), atx.sv.antenna().to_string().c_str());
        if (q.kind) {
          s += fmt(" %zu", atx.pco.__vecref__().size());
#ifdef DEBUG
          std::ostringstream os;
          os.precision(17);
          for (auto &p : atx.pco.__vecref__())
            p.dummy_print(os);
          s += os.str();
#endif
        }
      }
      return s;
    }
    default: {
      const BernQuery &q = c->bq[a % c->bq.size()];
      int st = bern.ask(q);
      return fmt("channel %d %d %d", st, st ? 0 : bern.chan, st ? 0 : bern.prn);
    }
    }
  }
};
} // namespace gen
