// cumulative curves
#include "h.h"
#include "dlink.h"
#include "ults.h"
#include <cmath>

int main (int argc, char **argv)
{
  h_init ();
  std::string prop = argv[1];
  int seed = atoi (argv[2]);
  long cases = atol (argv[3]);
  for (long cs = 0; cs < cases; ++cs)
    {
      Rng r (seed * 1000003ull + cs);
      MNM_Cumulative_Curve c;
      std::vector<std::pair<double, double>> ref;
      double t = 0, total = 0;
      int n = r.i (0, 25);
      CASE ("case %ld increments=%d", cs, n);
      std::string base = g_case;
      if (r.b ()) { c.add_record (std::pair<TFlt, TFlt> (TFlt (0), TFlt (0))); ref.push_back ({ 0, 0 }); }
      for (int k = 0; k < n; ++k)
        {
          if (r.i (0, 3) != 0) t += r.i (1, 5);
          double q = r.i (0, 5) == 0 ? 0 : (r.b () ? r.i (1, 6) : r.d (0.01, 3));
          g_case = base + " add_increment(" + std::to_string (t) + "," + std::to_string (q) + ")";
          try { c.add_increment (std::pair<TFlt, TFlt> (TFlt (t), TFlt (q))); }
          catch (std::exception &e) { FAILC ("exception: %s", e.what ()); }
          total += q;
          if (!ref.empty () && ref.back ().first == t) ref.back ().second = total; else ref.push_back ({ t, total });
          if (std::fabs (double (c.m_recorder.back ().second) - total) > 1e-6) FAILC ("last count %g, expected %g", double (c.m_recorder.back ().second), total);
          if (c.m_recorder.size () != ref.size ()) FAILC ("%zu records, expected %zu", c.m_recorder.size (), ref.size ());
          for (size_t k2 = 0; k2 < ref.size (); ++k2)
            if (double (c.m_recorder[k2].first) != ref[k2].first || std::fabs (double (c.m_recorder[k2].second) - ref[k2].second) > 1e-6)
              FAILC ("record %zu is (%g, %g), expected (%g, %g)", k2, double (c.m_recorder[k2].first), double (c.m_recorder[k2].second), ref[k2].first, ref[k2].second);
        }
      for (int q = 0; q < 40; ++q)
        {
          double x = r.b () ? r.i (0, (int) t + 3) : r.d (0, t + 3);
          g_case = base + " count at time " + std::to_string (x);
          double want = 0;
          if (!ref.empty ()) { want = ref[0].second; for (auto &p : ref) if (p.first <= x) want = p.second; }
          bool near = false;
          for (auto &p : ref) if (p.first != x && std::fabs (p.first - x) <= 1e-4 * std::max (p.first, x)) near = true;
          double got = c.get_result (TFlt (x));
          if (!near && std::fabs (got - want) > 1e-6) FAILC ("got %g, expected %g", got, want);
          if (ref.size () >= 1)
            {
              double y = r.b () ? ref[r.i (0, (int) ref.size () - 1)].second : r.d (0, total * 1.2 + 1);
              bool nr = false;
              for (auto &p : ref) if (p.second != y && std::fabs (p.second - y) <= 1.1e-4 * std::max (p.second, y)) nr = true;
              for (size_t k = 1; k < ref.size (); ++k) if (ref[k].second != ref[k-1].second && std::fabs (ref[k].second - ref[k-1].second) <= 1.1e-4 * ref[k].second) nr = true;
              if (nr) continue;
              g_case = base + " time at count " + std::to_string (y);
              double up = -1, dn = -1;
              if (ref[0].second < y && ref.size () > 1 && ref.back ().second >= y)
                {
                  size_t j = 0;
                  while (ref[j].second < y) ++j;
                  up = ref[j].first;
                  if (ref[j].second == y) dn = ref[j].first;
                  else { size_t i = 0; while (ref[i].second < ref[j - 1].second) ++i; dn = ref[i].first; }
                }
              double gu = c.get_time (TFlt (y), true), gd = c.get_time (TFlt (y), false);
              if (gu != up) FAILC ("rounding up: got %g, expected %g", gu, up);
              if (gd != dn) FAILC ("rounding down: got %g, expected %g", gd, dn);
            }
        }
    }
  return h_ok (cases);
}
