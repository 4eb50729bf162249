// NRLMSISE-00: densities and temperatures.
#include "atmosphere/nrlmsise00.hpp"
#include "../ref/msise.hpp"
#include "vpbt.hpp"
#include <memory>
using namespace vp;
using std::vector;
namespace ms = dso::nrlmsise00;
typedef ms::InParams<ms::detail::FluxDataFeedType::NONE> In;
struct Case {
  msise::Input ref{};
  int sel[24]; // switches 1 to 23 as selected
  bool m = false, drag = false;
};
static void select(Case &c, int i, int v) {
  c.sel[i] = v;
  c.ref.sw[i] = v % 2;
  c.ref.swc[i] = v == 1 || v == -1 || v == 2 || v == -2;
}
static Case gen(Gen &g, const Case *before) {
  Case c;
  if (before && g.boolean(0.5)) {
    c = *before;
    // change something
    switch (g.choose(12)) {
    case 8: c.ref.lat = std::fmax(-90, std::fmin(90, c.ref.lat + g.sign() * g.logreal(1e-10, 1e-3))); break;
    case 9: c.ref.lst += g.sign() * g.logreal(1e-10, 1e-3); break;
    case 10: c.ref.lon += g.sign() * g.logreal(1e-10, 1e-3); break;
    case 0: c.ref.doy = (int)g.integer(1, 366); break;
    case 1: c.ref.sec = g.real(0, 86400); break;
    case 2: c.ref.alt = g.real(0, 1000); break;
    case 3: c.ref.lat = g.real(-90, 90); break;
    case 4: c.ref.lon = g.real(-180, 180); break;
    case 5: c.ref.lst = g.real(0, 24); break;
    case 6: c.ref.f107 = g.real(65, 300); break;
    case 7: c.drag = !c.drag; break;
    default: c.m = !c.m;
    }
    return c;
  }
  c.ref.doy = (int)g.integer(1, 366);
  c.ref.sec = g.boolean(0.1) ? 0 : g.real(0, 86400);
  switch (g.weighted({5, 3, 2})) {
  case 0: c.ref.alt = g.real(80, 1500); break;
  case 1: c.ref.alt = g.real(0, 130); break;
  default: c.ref.alt = g.pick({0., 10., 15., 20., 32.5, 45., 55., 62.5, 72.5, 90., 100., 110., 120., 123.435, 160., 200., 240., 250., 300., 320., 450., 500., 1000.}) + g.pick({0., 0., 1e-7, 0.3});
  }
  c.ref.lat = g.weighted({6, 1}) ? g.pick({-90., 0., 90., 45.}) : g.real(-90, 90);
  c.ref.lon = g.weighted({6, 1}) ? g.pick({-180., 0., 90., 360.}) : g.real(-180, 360);
  c.ref.lst = g.boolean() ? std::fmod(c.ref.sec / 3600 + c.ref.lon / 15 + 24, 24) : g.real(0, 24);
  c.ref.f107a = g.real(65, 250);
  c.ref.f107 = g.real(65, 300);
  c.ref.ap = g.boolean(0.3) ? 4 : g.real(0, 200);
  for (double &a : c.ref.apa)
    a = g.boolean(0.2) ? 4 : g.real(0, 300);
  for (int i = 1; i < 24; i++)
    select(c, i, 1);
  c.m = g.boolean(), c.drag = g.boolean();
  if (g.boolean(0.4))
    select(c, 9, -1);
  if (g.boolean(0.3))
    for (int k = (int)g.integer(1, 4); k > 0; k--) {
      const int i = (int)g.integer(1, 23), v = (int)g.integer(0, 2);
      // without switch 15 there is no mixed density, which all below 72.5 km is made of
      if (i == 15 && c.ref.alt < 72.5 && v != 1)
        continue;
      select(c, i, v);
    }
  return c;
}
static In make(Gen &g, const Case &c) {
  In in;
  ms::detail::InParamsCore &p = in.params_;
  p.year = (int)g.integer(1980, 2030);
  p.doy = c.ref.doy, p.sec = c.ref.sec, p.alt = c.ref.alt, p.glat = c.ref.lat, p.glon = c.ref.lon, p.lst = c.ref.lst;
  p.f107A = c.ref.f107a, p.f107 = c.ref.f107, p.ap = c.ref.ap;
  p.set_ap_array(c.ref.apa);
  p.set_switches_on();
  for (int i = 1; i < 24; i++)
    if (c.sel[i] != 1) {
      if (c.sel[i] == 0 && g.boolean())
        p.sw.set_null(i - 1);
      else if (i == 9 && c.sel[i] == -1 && g.boolean())
        p.use_aparray();
      else
        p.set_switch(i - 1, c.sel[i]);
    }
  if (c.m)
    p.meters_on();
  return in;
}
static std::string show(const Case &c) {
  const msise::Input &r = c.ref;
  std::string s = fmt("day %d %.9g s, alt %.9g lat %.9g lon %.9g lst %.9g, f107a %.6g f107 %.6g ap %.6g, a", r.doy, r.sec, r.alt, r.lat, r.lon, r.lst, r.f107a, r.f107, r.ap);
  for (double a : r.apa)
    s += fmt(" %.6g", a);
  for (int i = 1; i < 24; i++)
    if (c.sel[i] != 1)
      s += fmt(", sw%d=%d", i, c.sel[i]);
  return s + (c.m ? ", metres" : "") + (c.drag ? ", drag" : "");
}
static bool isnear(double a, double b, double tol) {
  if (std::isnan(b) || std::isinf(b))
    return true; // the model has no value there
  return std::fabs(a - b) <= tol * std::fabs(b) + 1e-35;
}
static void agree(const ms::OutParams &o, const msise::Output &r, double tol, const char *what) {
  for (int k = 0; k < 2; k++)
    VP_CHECK(isnear(o.t[k], r.t[k], tol), "%s: temperature %d is %.12g, should be %.12g", what, k, o.t[k], r.t[k]);
  for (int k = 0; k < 9; k++)
    VP_CHECK(isnear(o.d[k], r.d[k], tol), "%s: density %d is %.12g, should be %.12g", what, k, o.d[k], r.d[k]);
}
VP_PROP(model, 60000, 600000, "several instances used in turn, with changed switches and altitudes below and above 72.5 km") {
  const int ni = (int)g.integer(1, 3);
  vector<std::unique_ptr<dso::Nrlmsise00>> inst;
  for (int i = 0; i < ni; i++) {
    // in memory with something in it
    inst.emplace_back(new dso::Nrlmsise00);
    if (g.boolean(0.2))
      inst.back().reset(new dso::Nrlmsise00(*inst[g.choose(i + 1)]));
  }
  const int steps = (int)g.integer(1, 8);
  Case last;
  unsigned used = 0;
  bool low = false, high = false, sw = false;
  for (int s = 0; s < steps; s++) {
    const Case c = gen(g, s ? &last : nullptr);
    last = c;
    const int who = (int)g.choose(ni);
    In in = make(g, c);
    // the state of the caller's output does not matter
    ms::OutParams out;
    for (double &d : out.d)
      d = 1e30;
    out.t[0] = out.t[1] = -7;
    const ms::detail::InParamsCore keep = in.params_;
    if (c.drag)
      inst[who]->gtd7d(&in.params_, &out);
    else
      inst[who]->gtd7(&in.params_, &out);
    g.note("instance %d: %s", who, show(c).c_str());
    VP_CHECK(keep.alt == in.params_.alt && keep.glat == in.params_.glat && keep.ap == in.params_.ap && keep.f107 == in.params_.f107, "the input was changed");
    agree(out, msise::Model(c.ref).run(c.drag, c.m), 1e-7, c.drag ? "drag" : "densities");
    used |= 1u << who;
    (c.ref.alt < 72.5 ? low : high) = true;
    for (int i = 1; i < 24; i++)
      sw |= c.sel[i] != 1;
    if (c.ref.alt < 72.5 && !c.ref.sw[15])
      continue;
    // what an instance that has not been used gives
    dso::Nrlmsise00 fresh;
    ms::OutParams clean;
    In again = in;
    if (c.drag)
      fresh.gtd7d(&again.params_, &clean);
    else
      fresh.gtd7(&again.params_, &clean);
    for (int k = 0; k < 9; k++)
      VP_CHECK(isnear(out.d[k], clean.d[k], 1e-13), "density %d is %.17g, from an instance not used before %.17g", k, out.d[k], clean.d[k]);
    for (int k = 0; k < 2; k++)
      VP_CHECK(isnear(out.t[k], clean.t[k], 1e-13), "temperature %d is %.17g, from an instance not used before %.17g", k, out.t[k], clean.t[k]);
  }
  g.nontrivial((used & (used - 1)) && low && high && sw);
}
VP_PROP(physics, 60000, 300000, "above 120 km") {
  // what holds without knowing the coefficients
  Case c = gen(g, nullptr);
  for (int i = 1; i < 24; i++)
    if (i != 9 || c.sel[i] != -1)
      select(c, i, 1);
  c.ref.lst = std::fmod(c.ref.sec / 3600 + c.ref.lon / 15 + 48, 24);
  // where the model is meant to be used
  c.ref.f107 = c.ref.f107a + g.real(-30, 30);
  c.ref.ap = g.real(0, 40);
  for (double &a : c.ref.apa)
    a = g.real(0, 40);
  g.note("%s", show(c).c_str());
  g.nontrivial(c.ref.alt > 120);
  dso::Nrlmsise00 m;
  auto run = [&](const Case &k) {
    In in = make(g, k);
    ms::OutParams o;
    if (k.drag)
      m.gtd7d(&in.params_, &o);
    else
      m.gtd7(&in.params_, &o);
    return o;
  };
  const ms::OutParams a = run(c);
  double tot = 0;
  const double w[9] = {4, 16, 28, 32, 40, 0, 1, 14, 16};
  for (int i = 0; i < 9; i++) {
    VP_CHECK(std::isfinite(a.d[i]) && a.d[i] >= 0, "density %d is %g", i, a.d[i]);
    if (i != 5 && (i != 8 || c.drag))
      tot += 1.66e-24 * w[i] * a.d[i];
  }
  if (c.m)
    tot /= 1e3;
  VP_CHECK(std::fabs(a.d[5] - tot) <= 1e-12 * tot, "total density %.15g, that of the species is %.15g", a.d[5], tot);
  VP_CHECK(a.t[0] > 400 && a.t[0] < 3500 && a.t[1] > 80 && a.t[1] < 3500, "temperatures %g and %g K", a.t[0], a.t[1]);
  Case b = c;
  b.ref.lon += c.ref.lon > 0 ? -360 : 360;
  const ms::OutParams o = run(b);
  for (int i = 0; i < 9; i++)
    VP_CHECK(std::fabs(a.d[i] - o.d[i]) <= 1e-9 * a.d[i], "density %d is %.12g, a turn of longitude on %.12g", i, a.d[i], o.d[i]);
  b = c;
  b.m = !c.m;
  const ms::OutParams u = run(b);
  for (int i = 0; i < 9; i++) {
    const double f = (i == 5 ? 1e3 : 1e6), want = c.m ? a.d[i] / f : a.d[i] * f;
    VP_CHECK(std::fabs(u.d[i] - want) <= 1e-12 * want, "density %d in the other units is %.12g, should be %.12g", i, u.d[i], want);
  }
  // thinner above, and no steps
  b = c;
  b.ref.alt = c.ref.alt + 2;
  const ms::OutParams up = run(b);
  VP_CHECK(up.d[5] < a.d[5], "total density %.9g at %.6f km, %.9g two km above", a.d[5], c.ref.alt, up.d[5]);
  b.ref.alt = c.ref.alt + 1e-6;
  const ms::OutParams st = run(b);
  VP_CHECK(std::fabs(st.d[5] - a.d[5]) <= 0.02 * a.d[5] && std::fabs(st.t[1] - a.t[1]) <= 0.02 * a.t[1], "density %.9g and temperature %.6f K at %.7f km, %.9g and %.6f K a mm above", a.d[5],
           a.t[1], c.ref.alt, st.d[5], st.t[1]);
}
VP_PROP(switches, 3000, 100000, "a negative or out of range selection") {
  ms::detail::Switches s;
  const int n = (int)g.integer(1, 20);
  double sw[25], swc[25];
  for (int i = 0; i < 25; i++)
    sw[i] = swc[i] = 1;
  bool nt = false;
  for (int k = 0; k < n; k++) {
    const int i = (int)g.choose(25), v = (int)g.integer(-3, 3);
    switch (g.choose(4)) {
    case 0: s.set_null(i), sw[i] = swc[i] = 0; break;
    case 1: s.set_on(i), sw[i] = swc[i] = 1; break;
    default:
      s.set_switch(i, v), sw[i] = v % 2, swc[i] = std::abs(v) == 1 || std::abs(v) == 2;
      nt |= v < 0 || v > 2;
    }
    g.note("switch %d: %d", i, v);
    for (int q = 0; q < 25; q++)
      VP_CHECK(s.sw[q] == sw[q] && s.swc[q] == swc[q], "switch %d is %g, %g, should be %g, %g", q, s.sw[q], s.swc[q], sw[q], swc[q]);
  }
  g.nontrivial(nt);
}
// the reference results that come with the repository: 17 cases, Fortran
static const ms::OutParams FORTRAN[17] = {
 //Test Case 1
{{.6665196409719251096248627E+06, .1138817011630214750766754E+09, .1998245300782594457268715E+08, .4022842016927098156884313E+06, .3557550892430115709430538E+04, .4074761147187048783107490E-14, .3475316219767450093058869E+05, .4095947059164075646549463E+07, .2667263135389825038146228E+05}, {.1250539953424708301099599E+04, .1241416214400992885202868E+04}},
 //Test Case 2
{{.3407301767992988694459200E+07, .1586349959152341783046722E+09, .1391142775704556331038475E+08, .3262626855061790556646883E+06, .1559658189575704227536335E+04, .5001902948565172204158130E-14, .4854212843117712327511981E+05, .4381006715943604707717896E+07, .6956658104018885751429480E+04}, {.1166754463458593818359077E+04, .1161710576204604421945987E+04}},
 //Test Case 3
{{.1123762031800358090549707E+06, .6933984104861220112070441E+05, .4246944831477055970481160E+02, .1322692817336910964254315E+00, .2618705419250207393384866E-04, .2756727424621081634039524E-17, .2016747625683205478708260E+05, .5741146249028644888312556E+04, .2374374725929899796028621E+05}, {.1239892065079922303993953E+04, .1239890593607507298656856E+04}},
 //Test Case 4
{{.5411517598108120262622833E+08, .1918883047747712097167969E+12, .6115773403260706054687500E+13, .1225190508001696777343750E+13, .6023159047030828094482422E+11, .3584395815482149226155237E-09, .1059871229019792936742306E+08, .2615718526710793084930629E+06, .2819098018725757521084874E-41}, {.1027318464899999980843859E+04, .2068877474519080124082393E+03}},
 //Test Case 5
{{.1851126873497346416115761E+07, .1476568993165882229804993E+09, .1579382733012077957391739E+08, .2633845505820681573823094E+06, .1588819498469583777477965E+04, .4809681521029159190289313E-14, .5816170142247328476514667E+05, .5479030338664364069700241E+07, .1264442683339887025795178E+04}, {.1212396150853653580270475E+04, .1208135469463545177859487E+04}},
 //Test Case 6
{{.8673121091822464950382710E+06, .1278874767002349495887756E+09, .1822608065924403071403503E+08, .2922271541012128582224250E+06, .2403020512872970357420854E+04, .4355915884223564383414226E-14, .3686393886305268097203225E+05, .3897308971267943736165762E+07, .2667263135389825765741989E+05}, {.1220146405381342674445477E+04, .1212712134824864961046842E+04}},
 //Test Case 7
{{.5776270171643040375784039E+06, .6979209557913871109485626E+08, .1236835108300765790045261E+08, .2492917076559736160561442E+06, .1405772800992498787309160E+04, .2470680700007519834367473E-14, .5291993038070481270551682E+05, .1069822451993338763713837E+07, .2667263135389825765741989E+05}, {.1116385281735855187434936E+04, .1112998509671539750343072E+04}},
 //Test Case 8
{{.3740316880625992780551314E+06, .4782774709906643629074097E+08, .5240482457633839920163155E+07, .1759913659981462988071144E+06, .5501800011540102559592924E+03, .1571908645541425397992623E-14, .8896785505188225943129510E+05, .1979759363054214278236032E+07, .9121785804050641672802158E+04}, {.1031247447008468725471175E+04, .1024848549532437345988001E+04}},
 //Test Case 9
{{.6748358200373629806563258E+06, .1245327610050037950277328E+09, .2369049741142455115914345E+08, .4911677613155063008889556E+06, .4578890145802132792596240E+04, .4564473263802425525499431E-14, .3244598257877436117269099E+05, .5370876586214380338788033E+07, .2667263135389825765741989E+05}, {.1306052052109003852820024E+04, .1293374147854398643175955E+04}},
 //Test Case10
{{.5528616000662645092234015E+06, .1198052643551955223083496E+09, .3495854508549284189939499E+08, .9339789167125025996938348E+06, .1096281165916824284067843E+05, .4974601394554243654392007E-14, .2686430252875799124012701E+05, .4890013390274024568498135E+07, .2805436633016173800569959E+05}, {.1361868082489034804893890E+04, .1347389348678457736241398E+04}},
 //Test Case11
{{.1375375910828504062500000E+15, .0000000000000000000000000E+00, .2049520633893984665600000E+20, .5498249004547392512000000E+19, .2451534106232289600000000E+18, .1260963277470468837937467E-02, .0000000000000000000000000E+00, .0000000000000000000000000E+00, .0000000000000000000000000E+00}, {.1027318464899999980843859E+04, .2814647743974266518307559E+03}},
 //Test Case12
{{.4427116217880056250000000E+14, .0000000000000000000000000E+00, .6597080816782784512000000E+19, .1769798870718317568000000E+19, .7891098218994728000000000E+17, .4058840155545502341970232E-03, .0000000000000000000000000E+00, .0000000000000000000000000E+00, .0000000000000000000000000E+00}, {.1027318464899999980843859E+04, .2274179818386274689601123E+03}},
 //Test Case13
{{.2127705015053604492187500E+13, .0000000000000000000000000E+00, .3170606157094327680000000E+18, .8505785137636953600000000E+17, .3792520554808380000000000E+16, .1950708797608776063400166E-04, .0000000000000000000000000E+00, .0000000000000000000000000E+00, .0000000000000000000000000E+00}, {.1027318464899999980843859E+04, .2374389083674520577460498E+03}},
 //Test Case14
{{.1412119070043200988769531E+12, .0000000000000000000000000E+00, .2104273565345001600000000E+17, .5645134693751036000000000E+16, .2517026825187423750000000E+15, .1294649903870718881594595E-05, .0000000000000000000000000E+00, .0000000000000000000000000E+00, .0000000000000000000000000E+00}, {.1027318464899999980843859E+04, .2795550991077457183564547E+03}},
 //Test Case15
{{.1254842434368175697326660E+11, .0000000000000000000000000E+00, .1874469970742227750000000E+16, .4922885697875198750000000E+15, .2239610235067071093750000E+14, .1147629175848339877981881E-06, .0000000000000000000000000E+00, .0000000000000000000000000E+00, .0000000000000000000000000E+00}, {.1027318464899999980843859E+04, .2190732215885509504005313E+03}},
 //Test Case16
{{.5196490944287523161619902E+06, .1274509291303757429122925E+09, .4850556766797526180744171E+08, .1720881150168925756588578E+07, .2354564022947135526919737E+05, .5882034376977491127728251E-14, .2500077261331609406624921E+05, .6279273046018299646675587E+07, .2667263135389825765741989E+05}, {.1426414912871514843573095E+04, .1408610873731381616380531E+04}},
 //Test Case17
{{.4260836277097848802804947E+08, .1241336314230301361083984E+12, .4929527003120657226562500E+13, .1048399357180473754882812E+13, .4993429557914292144775391E+11, .2914283182496056470345234E-09, .8831165115632127970457077E+07, .2252503040163923869840801E+06, .2414578533801006003323654E-41}, {.1027318464899999980843859E+04, .1934071079579776153423154E+03}},
};
VP_PROP(reference, 2000, 20000, "below 72.5 km or with the array of ap") {
  const int i = (int)g.choose(17);
  g.note("case %d", i + 1);
  Case c;
  msise::Input &r = c.ref;
  r.doy = 172, r.sec = 29000, r.alt = 400, r.lat = 60, r.lon = -70, r.lst = 16, r.f107a = r.f107 = 150, r.ap = 4;
  for (double &a : r.apa)
    a = 100;
  for (int k = 1; k < 24; k++)
    select(c, k, 1);
  switch (i) {
  case 1: r.doy = 81; break;
  case 2: r.sec = 75000, r.alt = 1000; break;
  case 3: case 16: r.alt = 100; break;
  case 4: r.lat = 0; break;
  case 5: r.lon = 0; break;
  case 6: r.lst = 4; break;
  case 7: r.f107a = 70; break;
  case 8: r.f107 = 180; break;
  case 9: r.ap = 40; break;
  case 10: r.alt = 0; break;
  case 11: r.alt = 10; break;
  case 12: r.alt = 30; break;
  case 13: r.alt = 50; break;
  case 14: r.alt = 70; break;
  }
  if (i >= 15)
    select(c, 9, -1);
  g.nontrivial(i >= 10);
  In in = make(g, c);
  ms::OutParams o;
  static dso::Nrlmsise00 m;
  m.gtd7(&in.params_, &o);
  msise::Output want;
  std::memcpy(want.d, FORTRAN[i].d, sizeof(want.d));
  std::memcpy(want.t, FORTRAN[i].t, sizeof(want.t));
  agree(o, want, 1e-8, "results");
  agree(o, msise::Model(c.ref).run(false, false), 1e-8, "model");
}
