// the simulation loop: every part of the network is a stand-in that notes what is asked of it, and when
#include "h.h"
#include "dta.h"
#include "multiclass.h"
#include "ults.h"
#include <cmath>
#include <fstream>
#include <map>
#include <sys/stat.h>

#define CK(c, ...) do { if (!(c)) FAILC (__VA_ARGS__); } while (0)
enum { REL, REL2, ROUTE, NODE, CLEAR, LINK, RECV, STAT, ATTR, POST };
static const char *NAME[] = { "release", "two-class release", "routing", "junction", "link entry", "link", "arrivals", "record", "link attributes", "end of record" };
struct Ev { int kind, obj, t, a; double r1, r2; long num, fin, enroute; size_t q, qc, qt; };
static std::vector<Ev> lg;
static MNM_Veh_Factory *vf;
static MNM_Routing *rt;
static Rng *R0;
static std::vector<MNM_Dlink *> LK;
static std::vector<MNM_Veh *> cars, trucks;
static void note (int kind, int obj, int t, int a = 0, double r1 = 0, double r2 = 0)
{
  lg.push_back ({ kind, obj, t, a, r1, r2, vf->m_num_veh, vf->m_finished, vf->m_enroute, 0, 0, 0 });
}
static void shuffle_queues ()
{
  for (auto *l : LK)
    if (R0->b ())
      {
        auto &q = l->m_finished_array;
        for (int k = R0->i (0, 3); k-- > 0;) q.push_back (R0->b () ? cars[R0->i (0, 9)] : trucks[R0->i (0, 9)]);
        for (int k = R0->i (0, 3); k-- > 0 && !q.empty ();) q.pop_front ();
      }
}
static bool can_arrive;
static long steps;
struct O : public MNM_Origin
{
  int id;
  O (int i) : MNM_Origin (i, 1, 1, 1), id (i) {}
  int release_one_interval (TInt t, MNM_Veh_Factory *f, TInt a, TFlt r) override
  {
    if (a < 0) return 0;
    CK (f == vf, "released into another vehicle register");
    int n = can_arrive ? R0->i (0, 2) : 0;
    vf->m_num_veh += n, vf->m_enroute += n;
    note (REL, id, t, a, r);
    return 0;
  }
  int release_one_interval_biclass (TInt t, MNM_Veh_Factory *f, TInt a, TFlt r, TFlt r2) override
  {
    if (a < 0) return 0;
    CK (f == vf, "released into another vehicle register");
    int n = can_arrive ? R0->i (0, 2) : 0;
    vf->m_num_veh += n, vf->m_enroute += n;
    note (REL2, id, t, a, r, r2);
    return 0;
  }
};
struct De : public MNM_Destination
{
  int id;
  De (int i) : MNM_Destination (i), id (i) {}
  int take (TInt t)
  {
    if (vf->m_enroute > 0 && R0->i (0, 3)) { vf->m_finished += 1, vf->m_enroute -= 1; }
    note (RECV, id, t);
    return 0;
  }
  int receive (TInt t) override { return take (t); }
  int receive (TInt t, MNM_Routing *r, MNM_Veh_Factory *f, bool) override { CK (r == rt && f == vf, "arrivals given another routing or vehicle register"); return take (t); }
};
struct N : public MNM_Dnode
{
  int id;
  N (int i) : MNM_Dnode (i, 1), id (i) {}
  int evolve (TInt t) override { note (NODE, id, t); shuffle_queues (); return 0; }
};
template <class B> struct Lk : public B
{
  template <class... A> Lk (A... a) : B (a...) {}
  int clear_incoming_array (TInt t) override
  {
    note (CLEAR, this->m_link_ID, t);
    auto &e = lg.back ();
    e.q = this->m_finished_array.size ();
    for (auto *v : this->m_finished_array) (v->get_class () == 0 ? e.qc : e.qt)++;
    return 0;
  }
  int evolve (TInt t) override
  {
    note (LINK, this->m_link_ID, t);
    if (R0->b ()) this->m_finished_array.push_back (cars[0]);
    return 0;
  }
};
struct L2 : public Lk<MNM_Dlink_Multiclass> { L2 (int i) : Lk<MNM_Dlink_Multiclass> (i, 1, 100., 10., 10.) {} };
struct L1 : public Lk<MNM_Dlink> { L1 (int i) : Lk<MNM_Dlink> (i, 1, 100., 10.) {} };
struct Rt : public MNM_Routing
{
  Rt (macposts::Graph &g) : MNM_Routing (g, nullptr, nullptr, nullptr) {}
  int update_routing (TInt t) override { CK (++steps < 3000, "the loading does not end"); note (ROUTE, 0, t); return 0; }
};
struct St : public MNM_Statistics
{
  St (std::string f, MNM_ConfReader *a, MNM_ConfReader *b) : MNM_Statistics (f, a, b, nullptr, nullptr, nullptr) {}
  int update_record (TInt t) override { note (STAT, 0, t); return 0; }
  int init_record () override { return 0; }
  int post_record () override { note (POST, 0, 0); return 0; }
};
struct LF1 : public MNM_Link_Factory { int update_link_attribute (TInt t, bool) override { note (ATTR, 0, t); return 0; } };
struct LF2 : public MNM_Link_Factory_Multiclass { int update_link_attribute (TInt t, bool) override { note (ATTR, 0, t); return 0; } };

static void run (Rng &r, const std::string &dir)
{
  R0 = &r;
  bool two = r.b ();
  const char *TY[] = { "Fixed", "Due", "Adaptive", "Hybrid", "Biclass_Hybrid" };
  int ty = r.i (0, 4), freq = r.i (1, 5), nint = r.i (1, 4), start = r.i (0, 2), total = r.b () ? r.i (1, 25) : -1;
  double ra = r.d (-0.5, 1.5), rb = r.d (-0.5, 1.5);
  if (two) { freq = r.i (1, 3), total = total > 0 ? 2 * total : total; }
  {
    std::ofstream f (dir + "/config.conf");
    f << "[DTA]\nunit_time = " << (two ? 60 / freq : 5) << "\nflow_scalar = 1\nassign_frq = " << freq << "\nstart_assign_interval = " << start << "\nmax_interval = " << nint
      << "\ntotal_interval = " << total << "\nrouting_type = " << TY[ty] << "\ninit_demand_split = 0\nev_label = 0\nev_label_car = 0\nev_label_truck = 0\nadaptive_ratio = " << ra << "\nadaptive_ratio_car = " << ra
      << "\nadaptive_ratio_truck = " << rb << "\n[STAT]\nrec_mode = LRn\nrec_mode_para = 5\nrec_folder = record\nrec_volume = 0\nrec_tt = 0\n";
  }
  g_case += std::string (two ? " two-class " : " ") + TY[ty] + " assign_frq " + std::to_string (freq) + " start " + std::to_string (start) + " max_interval " + std::to_string (nint) + " total_interval " + std::to_string (total);
  MNM_Dta *d = two ? new MNM_Dta_Multiclass (dir) : new MNM_Dta (dir);
  vf = d->m_veh_factory;
  CK (d->m_assign_freq == freq && d->m_total_assign_inter == nint && d->m_start_assign_interval == start, "configuration read wrong");
  d->m_statistics = new St (dir, d->m_config, new MNM_ConfReader (dir + "/config.conf", "STAT"));
  d->m_routing = rt = new Rt (d->m_graph);
  d->m_link_factory = two ? (MNM_Link_Factory *) new LF2 () : new LF1 ();
  int no = r.i (0, 3), nd = r.i (0, 3), nn = r.i (0, 5), nl = r.i (0, 5);
  can_arrive = nd > 0, steps = 0;
  LK.clear (), lg.clear (), cars.clear (), trucks.clear ();
  for (int i = 0; i < 10; ++i)
    {
      cars.push_back (two ? (MNM_Veh *) new MNM_Veh_Multiclass (i, 0, 0) : new MNM_Veh (i, 0));
      trucks.push_back (two ? (MNM_Veh *) new MNM_Veh_Multiclass (i, 1, 0) : new MNM_Veh (i, 0));
    }
  for (int i = 1; i <= no; ++i) d->m_od_factory->m_origin_map[i * 7] = new O (i);
  for (int i = 1; i <= nd; ++i) d->m_od_factory->m_destination_map[i * 5] = new De (i);
  for (int i = 1; i <= nn; ++i) d->m_node_factory->m_node_map[i * 3] = new N (i);
  std::map<int, bool> pq;
  for (int i = 1; i <= nl; ++i)
    {
      bool p = pq[i] = r.i (0, 2) == 0;
      MNM_Dlink *l;
      if (two) { auto *x = new L2 (i); x->m_link_type = p ? MNM_TYPE_PQ_MULTICLASS : r.b () ? MNM_TYPE_CTM_MULTICLASS : MNM_TYPE_LQ_MULTICLASS; x->MNM_Dlink::m_link_type = MNM_TYPE_CTM; l = x; }
      else { l = new L1 (i); l->m_link_type = p ? MNM_TYPE_PQ : r.b () ? MNM_TYPE_CTM : MNM_TYPE_LQ; }
      d->m_link_factory->m_link_map[i] = l;
      LK.push_back (l);
      d->m_queue_veh_map[i] = new std::deque<TInt> ();
      if (two)
        {
          ((MNM_Dta_Multiclass *) d)->m_queue_veh_map_car[i] = new std::deque<TInt> ();
          ((MNM_Dta_Multiclass *) d)->m_queue_veh_map_truck[i] = new std::deque<TInt> ();
        }
    }
  int n = 0;
  try { n = d->loading (false); } catch (std::exception &e) { FAILC ("error: %s", e.what ()); }
  CK (d->m_current_loading_interval == n, "time after the loading is %d, steps %d", (int) d->m_current_loading_interval, n);
  auto cl = [] (double x) { return x > 1 ? 1. : x < 0 ? 0. : x; };
  std::string base = g_case;
  size_t p = 0;
  long num = 0, fin = 0;
  for (int t = 0;; ++t)
    {
      int as = start + t / freq;
      bool done = total > 0 ? t >= total : t > 0 && num == fin;
      g_case = base + " step " + std::to_string (t);
      if (t == n)
        {
          CK (done && as >= nint, "the loading ended after %d steps: %s", n, done ? "demand left to release" : "not finished");
          break;
        }
      CK (!(done && as >= nint), "a step after the loading was finished");
      std::map<std::pair<int, int>, int> cnt;
      int ph = 0;
      long en = -1;
      std::map<int, Ev> qs;
      if (p == lg.size () || lg[p].kind == POST) FAILC ("step left out");
      for (; p < lg.size (); ++p)
        {
          auto &e = lg[p];
          if (e.kind == POST || (e.kind != STAT && e.t == t + 1)) break;
          if (e.kind == STAT && e.t == t + 1) break;
          if (e.kind == STAT && e.t == -1 && t == 0) { CK (ph == 0, "empty network recorded late"); continue; }
          CK (e.t == t, "%s of %d done for time %d", NAME[e.kind], e.obj, e.t);
          CK (++cnt[std::make_pair (e.kind, e.obj)] == 1, "%s of %d done twice", NAME[e.kind], e.obj);
          int k = e.kind == ATTR || e.kind == REL || e.kind == REL2 ? 0 : e.kind == ROUTE ? 1 : e.kind == NODE ? 2 : e.kind == CLEAR || e.kind == LINK ? 3 : 4;
          CK (e.kind == STAT ? ph >= 2 || nn + nl + nd == 0 || nl == 0 : k >= ph, "%s of %d out of order", NAME[e.kind], e.obj);
          if (e.kind != STAT) ph = k;
          if (e.kind == REL || e.kind == REL2)
            {
              CK (t % freq == 0 && e.a == as && as < nint, "demand of interval %d released at %d (assign_frq %d)", e.a, t, freq);
              CK ((e.kind == REL2) == (ty == 4), "wrong kind of release");
              double w = ty <= 1 ? 0 : ty == 2 ? 1 : cl (ra);
              CK (fabs (e.r1 - w) < 1e-5 && (ty != 4 || fabs (e.r2 - cl (rb)) < 1e-5), "share of adaptive vehicles %g %g, should be %g %g", e.r1, e.r2, w, cl (rb));
            }
          if (e.kind == CLEAR) qs[e.obj] = e;
          if (e.kind == LINK) CK (cnt[std::make_pair ((int) CLEAR, e.obj)] == 1, "link %d moves vehicles before it took in the new ones", e.obj);
          if (e.kind == STAT) for (auto *l : LK) CK (cnt[std::make_pair ((int) LINK, (int) l->m_link_ID)] == 1, "recorded before link %d moved", (int) l->m_link_ID);
          num = e.num, fin = e.fin, en = e.enroute;
        }
      if (t % freq == 0 && as < nint) for (int i = 1; i <= no; ++i) CK (cnt[std::make_pair (ty == 4 ? (int) REL2 : (int) REL, i)] == 1, "origin %d released nothing for interval %d", i, as);
      CK (cnt[std::make_pair ((int) ROUTE, 0)] == 1, "no routing");
      CK (cnt[std::make_pair ((int) ATTR, 0)] == 1, "link attributes not set");
      CK (cnt[std::make_pair ((int) STAT, 0)] == 1, "nothing recorded");
      for (int i = 1; i <= nn; ++i) CK (cnt[std::make_pair ((int) NODE, i)] == 1, "junction %d left out", i);
      for (int i = 1; i <= nl; ++i) CK (cnt[std::make_pair ((int) CLEAR, i)] == 1 && cnt[std::make_pair ((int) LINK, i)] == 1, "link %d left out", i);
      for (int i = 1; i <= nd; ++i) CK (cnt[std::make_pair ((int) RECV, i)] == 1, "destination %d left out", i);
      CK ((int) d->m_enroute_veh_num.size () == n && d->m_enroute_veh_num[t] == en, "vehicles under way noted as %d, are %ld", (int) d->m_enroute_veh_num[t], en);
      long tot = 0;
      for (auto &q : qs)
        {
          CK ((int) d->m_queue_veh_map[q.first]->size () == n && (*d->m_queue_veh_map[q.first])[t] == (int) q.second.q, "waiting at link %d noted as %d, are %d", q.first, (int) (*d->m_queue_veh_map[q.first])[t], (int) q.second.q);
          if (!pq[q.first]) tot += q.second.q;
          if (!two) continue;
          auto *m = (MNM_Dta_Multiclass *) d;
          CK ((int) m->m_queue_veh_map_car[q.first]->size () == n && (*m->m_queue_veh_map_car[q.first])[t] == (int) q.second.qc, "cars waiting at link %d noted wrong", q.first);
          CK ((int) m->m_queue_veh_map_truck[q.first]->size () == n && (*m->m_queue_veh_map_truck[q.first])[t] == (int) q.second.qt, "trucks waiting at link %d noted wrong", q.first);
        }
      CK ((int) d->m_queue_veh_num.size () == n && d->m_queue_veh_num[t] == tot, "waiting vehicles noted as %d, are %ld", (int) d->m_queue_veh_num[t], tot);
    }
  CK (p + 1 == lg.size () && lg[p].kind == POST, "record closed other than once at the end");
}

int main (int argc, char **argv)
{
  h_init ();
  std::cout.setstate (std::ios_base::failbit);
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  std::string dir = ".";      // the scratch directory the check runs this in
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      CASE ("case %ld", cs);
      run (r, dir);
    }
  return h_ok (cases);
}
