// two-class junctions and origin/destination connectors
#include "h.h"
#include "multiclass.h"
#include "ults.h"
#include <map>
#include <algorithm>

struct SLink : public MNM_Dlink_Pq_Multiclass
{
  double s;
  SLink (int id, double s_) : MNM_Dlink_Pq_Multiclass (TInt (id), 1, 100, 99, 99, 99, 99, 10, 10, 5, 1, 1), s (s_) { }
  TFlt get_link_supply () override { return TFlt (s); }
};
typedef std::vector<MNM_Veh *> VV;
typedef MNM_Veh_Multiclass MV;
static int cls (MNM_Veh *v) { return int (((MV *) v)->m_class); }
static VV vec (std::deque<MNM_Veh *> &d) { return VV (d.begin (), d.end ()); }
static double last (MNM_Cumulative_Curve *c) { return c->m_recorder.empty () ? 0. : double (c->m_recorder.back ().second); }

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Ults::set_random_state (seed + cs);
      srand (seed + cs);
      int nin = r.i (1, 4), nout = r.i (1, 4);
      double scalar = r.b () ? 1 : r.i (2, 12);
      bool cc = r.i (0, 3) != 0, tree = r.b ();
      int kind = prop == "C25" ? r.i (0, 2) : 0;   // junction / origin / destination
      if (prop == "C27") kind = r.i (0, 2);
      CASE ("case %ld kind=%d in=%d out=%d scalar=%g curves=%d tree=%d", cs, kind, nin, nout, scalar, cc, tree);
      std::vector<SLink *> in, out;
      std::vector<MNM_Path *> paths;
      for (int i = 0; i < nin; ++i) in.push_back (new SLink (i, r.d (0, 20)));
      for (int i = 0; i < nout; ++i) out.push_back (new SLink (100 + i, r.i (0, 3) == 0 ? 0 : r.i (0, 3) == 0 ? 1000 : r.d (0, 12)));
      { DLink_type_multiclass ty[] = { MNM_TYPE_CTM_MULTICLASS, MNM_TYPE_LQ_MULTICLASS, MNM_TYPE_PQ_MULTICLASS, MNM_TYPE_PQ_MULTICLASS };
        for (auto l : in) l->m_link_type = ty[r.i (0, 3)];
        for (auto l : out) l->m_link_type = ty[r.i (0, 3)]; }
      if (cc) for (auto l : in) { l->install_cumulative_curve_multiclass (); if (tree) l->install_cumulative_curve_tree_multiclass (); }
      if (cc) for (auto l : out) { l->install_cumulative_curve_multiclass (); if (tree) l->install_cumulative_curve_tree_multiclass (); }
      double conv = r.b () ? 1 : r.d (1, 3);
      MNM_Dnode_FWJ_Multiclass J (1, scalar, conv);
      MNM_DMOND_Multiclass O (2, scalar, conv);
      MNM_DMDND_Multiclass D (3, scalar, conv);
      for (auto l : in) { J.add_in_link (l); D.add_in_link (l); }
      for (auto l : out) { J.add_out_link (l); O.add_out_link (l); }
      if (kind == 0) J.prepare_loading ();
      VV all;
      int id = 0;
      std::string base = g_case;
      std::map<SLink *, double> nin0[2], nout0[2];
      for (int t = 0; t < r.i (1, 6); ++t)
        {
          g_case = base + " step " + std::to_string (t);
          auto mk = [&] (MNM_Dlink *nx) { auto v = new MV (TInt (++id), TInt (r.i (0, 2) == 0), TInt (t)); v->set_next_link (nx); v->m_assign_interval = r.i (0, 2); all.push_back (v); return v; };
          if (kind == 0) for (auto l : in) { int n = r.i (0, 10); for (int k = 0; k < n; ++k) { auto v = mk (out[r.i (0, nout - 1)]); v->set_current_link (l); l->m_finished_array.push_back (v); } }
          if (kind == 1) { int n = r.i (0, 15); for (int k = 0; k < n; ++k) O.m_in_veh_queue.push_back (mk (out[r.i (0, nout - 1)])); }
          if (kind == 2) for (auto l : in) { int n = r.i (0, 10); for (int k = 0; k < n; ++k) { auto v = mk (nullptr); v->set_current_link (l); l->m_finished_array.push_back (v); } }
          if (kind != 2) for (auto l : out) if (r.i (0, 2) == 0) l->s = r.b () ? r.d (0, 12) : r.i (0, 8);
          auto snap = [&] () { VV v; for (auto l : in) { for (auto x : l->m_finished_array) v.push_back (x); for (auto x : l->m_incoming_array) v.push_back (x); }
            for (auto l : out) { for (auto x : l->m_finished_array) v.push_back (x); for (auto x : l->m_incoming_array) v.push_back (x); }
            for (auto x : O.m_in_veh_queue) v.push_back (x); for (auto x : D.m_out_veh_queue) v.push_back (x); std::sort (v.begin (), v.end ()); return v; };
          VV b = snap ();
          std::map<SLink *, VV> fin, inc;
          for (auto l : in) { fin[l] = vec (l->m_finished_array); for (int c = 0; c < 2; ++c) { nin0[c][l] = cc ? last (c ? l->m_N_in_truck : l->m_N_in_car) : 0; nout0[c][l] = cc ? last (c ? l->m_N_out_truck : l->m_N_out_car) : 0; } }
          for (auto l : out) { inc[l] = vec (l->m_incoming_array); for (int c = 0; c < 2; ++c) { nin0[c][l] = cc ? last (c ? l->m_N_in_truck : l->m_N_in_car) : 0; nout0[c][l] = cc ? last (c ? l->m_N_out_truck : l->m_N_out_car) : 0; } }
          VV oq = vec (O.m_in_veh_queue), dq = vec (D.m_out_veh_queue);
          bool threw = false;
          try { if (kind == 0) J.evolve (t); if (kind == 1) O.evolve (t); if (kind == 2) D.evolve (t); }
          catch (std::exception &e) { threw = true; if (prop == "C28") FAILC ("exception: %s", e.what ()); }
          VV a = snap ();
          if (a != b) { if (prop != "C27" && !threw) FAILC ("set of vehicles changed: %zu -> %zu", b.size (), a.size ()); }
          if (threw) break;
          for (auto l : out)
            {
              VV n = vec (l->m_incoming_array);
              if (n.size () < inc[l].size () || !std::equal (inc[l].begin (), inc[l].end (), n.begin ())) { if (prop != "C27") FAILC ("entry queue of link %d changed other than by appending", int (l->m_link_ID)); break; }
              for (size_t k = inc[l].size (); k < n.size (); ++k)
                {
                  if (prop != "C27" && n[k]->get_next_link () != l) FAILC ("vehicle %d entered link %d which it did not choose", int (n[k]->m_veh_ID), int (l->m_link_ID));
                  if (prop != "C27" && n[k]->get_current_link () != l) FAILC ("vehicle %d entered link %d but is registered elsewhere", int (n[k]->m_veh_ID), int (l->m_link_ID));
                }
              int moved = n.size () - inc[l].size ();
              if (kind == 1 && (prop == "C28" || prop == "C25") && moved >= l->s * scalar + 1) FAILC ("link %d received %d vehicles from the origin, supply %g x scalar %g", int (l->m_link_ID), moved, l->s, scalar);
              if (kind == 1 && prop == "C25")
                {
                  int want = 0;
                  for (auto v : oq) want += v->get_next_link () == l;
                  if (want <= l->s * scalar && moved != want) FAILC ("origin: %d of %d waiting vehicles entered link %d although it had room", moved, want, int (l->m_link_ID));
                  // first come first served per link
                  VV f; for (auto v : oq) if (v->get_next_link () == l) f.push_back (v);
                  for (int k = 0; k < moved; ++k) if (n[inc[l].size () + k] != f[k]) FAILC ("origin: waiting vehicles for link %d entered out of order", int (l->m_link_ID));
                }
              if (prop == "C25" && kind == 0)
                for (auto il : in)
                  {   // FIFO per movement
                    VV f, g;
                    for (auto v : fin[il]) if (v->get_next_link () == l) f.push_back (v);
                    for (size_t k = inc[l].size (); k < n.size (); ++k) if (std::find (fin[il].begin (), fin[il].end (), n[k]) != fin[il].end ()) g.push_back (n[k]);
                    if (g.size () > f.size () || !std::equal (g.begin (), g.end (), f.begin ())) FAILC ("vehicles overtook each other on the movement %d -> %d", int (il->m_link_ID), int (l->m_link_ID));
                  }
              if (cc && prop == "C27")
                for (int c = 0; c < 2; ++c)
                {
                  auto *cu = c ? l->m_N_in_truck : l->m_N_in_car;
                  int mv = 0;
                  for (size_t k = inc[l].size (); k < n.size (); ++k) mv += cls (n[k]) == c;
                  double d = last (cu) - nin0[c][l];
                  if (std::fabs (d - mv / scalar) > 1e-6) FAILC ("link %d: %d vehicles of class %d entered (scalar %g) but the arrival curve grew by %g", int (l->m_link_ID), mv, c, scalar, d);
                  if (mv && double (cu->m_recorder.back ().first) != t + 1) FAILC ("arrival curve of link %d records time %g, not %d", int (l->m_link_ID), double (cu->m_recorder.back ().first), t + 1);
                }
            }
          for (auto l : in)
            {
              int left = (int) fin[l].size () - (int) l->m_finished_array.size ();
              if (cc && prop == "C27" && kind != 1)
                for (int c = 0; c < 2; ++c)
                {
                  auto *cu = c ? l->m_N_out_truck : l->m_N_out_car;
                  int lv = 0;
                  for (auto v : fin[l]) lv += cls (v) == c;
                  for (auto v : l->m_finished_array) lv -= cls (v) == c;
                  double d = last (cu) - nout0[c][l];
                  if (std::fabs (d - lv / scalar) > 1e-6) FAILC ("link %d: %d vehicles of class %d left (scalar %g) but the departure curve grew by %g", int (l->m_link_ID), lv, c, scalar, d);
                  if (lv && double (cu->m_recorder.back ().first) != t + 1) FAILC ("departure curve of link %d records time %g, not %d", int (l->m_link_ID), double (cu->m_recorder.back ().first), t + 1);
                }
              if (kind == 2 && prop == "C25" && !l->m_finished_array.empty ()) FAILC ("destination left %zu vehicles on link %d", l->m_finished_array.size (), int (l->m_link_ID));
              if (kind == 0 && prop == "C25")
                {   // the vehicles that stay keep their order
                  VV s; for (auto v : fin[l]) if (v->get_current_link () == l) s.push_back (v);
                  if (s != vec (l->m_finished_array)) FAILC ("vehicles waiting on link %d changed order", int (l->m_link_ID));
                }
            }
          if (kind == 2 && prop == "C25")
            {
              VV n = vec (D.m_out_veh_queue);
              for (size_t k = dq.size (); k < n.size (); ++k) if (n[k]->get_current_link () != nullptr) FAILC ("vehicle %d left the network but is still registered on a link", int (n[k]->m_veh_ID));
            }
        }
      for (auto v : all) delete v;
      for (auto l : in) { l->m_finished_array.clear (); }
    }
  return h_ok (cases);
}
