// C01 loading is all-or-nothing, C02 saving reports, C03 crash during save,
// C04 a failed load leaves no trace, C05 a saved geometry survives restart.
#include "p_io.h"
#include "gear/CalorimeterParameters.h"
#include "gearimpl/CalorimeterParametersImpl.h"
#include "gearimpl/FixedPadSizeDiskLayout.h"
#include "gearimpl/RectangularPadRowLayout.h"
#include "gearxml/GearXML.h"
#include "gearxml/MergeXML.h"
#include "util.h"
#include <functional>
#include <unistd.h>

namespace sim {
using namespace gear;

static void addGeom(Plan& p, Rng& r, i64 id, bool thorough, int density = 0) {
  Item& g = p.add("geom");
  g.set("id", id).set("seed", (i64)(r.next() >> 20)).set("mask", (i64)genMask(r, density ? density : r.range(8, 45))).set("size", r.range(1, thorough ? 4 : 3));
}
// one item that stays out of the way of the minimiser when it is missing
static GeoSpec geomOf(const Plan& p, i64 id) {
  const Item* g = p.find("geom", id);
  if (!g) _exit(0);       // nothing to do
  return specOf(*g);
}
static void writeSource(const Plan& p, i64 id, const std::string& path) {
  // the description file: by the library's own save or by the independent writer
  const Item* src = p.find("src", id);
  i64 how = src ? src->get("how") : 0;
  GeoSpec s = geomOf(p, id);
  if (how) { dkPut(path, emitXml(s, (u64)src->get("style"))); cnt("src.emitted"); return; }
  phase([&] {
    GearMgr* m = nullptr;
    Res b = guarded([&] { m = build(s); });
    if (!b.ok) fail("build-failed", "building through the public interface ended with " + b.exc);
    Res r = saveTo(m, path);
    if (!r.ok) fail("save-failed", "saving without any fault ended with " + r.exc);
    cnt("src.saved");
  });
}
static Facts mustLoad(const std::string& path, const GeoSpec* s, const char* when) {
  GearMgr* m = nullptr;
  Res r = loadInto(path, m);
  if (!r.ok) fail("intact-load-failed", fmt("%s: loading an intact file ended with %s", when, r.exc.c_str()));
  Facts f = answers(*m);
  if (s) {
    Facts e = expect(*s);
    std::string d = diff(e, f, TOL, true);
    if (!d.empty()) fail("intact-load-wrong", fmt("%s: expected vs loaded: %s", when, d.c_str()));
  }
  return f;
}

// ------------------------------------------------------------------ C01
static Plan gen01(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x101)));
  Plan p; p.seed = seed ^ idx;
  addGeom(p, r, 0, thorough);
  p.add("src").set("id", 0).set("how", r.chance(45)).set("style", (i64)(r.next() >> 40));
  int n = r.range(3, thorough ? 14 : 9);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(100);
    Item it;
    if (i == 0 && r.chance(70)) { it = Item("drop"); it.set("at", r.range(0, 1000000)); }
    else if (k < 22) { it = Item("trunc"); it.set("at", r.range(0, 100000)); if (r.chance(30)) it.set("at", r.chance(50) ? 100000 - r.range(1, 400) : r.range(0, 300)); }
    else if (k < 42) { it = Item("zero"); it.set("at", r.range(0, 99999)); it.set("len", r.chance(40) ? r.range(1, 8) : r.chance(50) ? 512 : r.range(1, 5000)); if (r.chance(25)) it.set("tail", 1); }
    else { it = Item("iofault"); genReadFault(r, it); }
    if (k < 42 && r.chance(45)) it.set("snap", r.range(1, 3));
    if (k >= 96) { genReadFault(r, it); }
    if (r.chance(30)) it.set("iobuf", (i64[]){0, 1, 7, 64, 512, 1024}[r.below(6)]);
    if (r.chance(25)) it.set("rmax", r.range(1, 3000));
    if (r.chance(35)) it.set("same", 1);      // in the process of the previous attempt
    p.items.push_back(it);
  }
  return p;
}
// Moves a position to a place where the text before it is well formed up to open elements.
// 1: behind a tag, 2: behind a line, 3: behind a closing or empty tag at most two levels below the root
static size_t snapTo(const std::string& b, size_t at, int how) {
  if (how == 1) { size_t q = b.find('>', at); return q == std::string::npos ? at : q + 1; }
  if (how == 2) { size_t q = b.find('\n', at); return q == std::string::npos ? at : q + 1; }
  std::vector<size_t> ends;
  int depth = 0;
  for (size_t i = 0; i < b.size(); ++i) {
    if (b[i] != '<') continue;
    if (b.compare(i, 4, "<!--") == 0) { i = b.find("-->", i); if (i == std::string::npos) break; i += 2; continue; }
    size_t q = i + 1; char quote = 0;
    for (; q < b.size(); ++q) {
      if (quote) { if (b[q] == quote) quote = 0; }
      else if (b[q] == '"' || b[q] == '\'') quote = b[q];
      else if (b[q] == '>') break;
    }
    if (q >= b.size()) break;
    if (b[i + 1] == '/') { --depth; if (depth <= 2) ends.push_back(q + 1); }
    else if (b[i + 1] == '?' || b[i + 1] == '!') {}
    else if (b[q - 1] == '/') { if (depth <= 2) ends.push_back(q + 1); }
    else ++depth;
    i = q;
  }
  if (ends.empty()) return at;
  return ends[at % ends.size()];
}
// Removes one attribute, or one element with all it contains.
static std::string dropped(const std::string& good, i64 at, std::string* what) {
  std::vector<XmlPart> c = xmlParts(good);
  if (c.empty()) return good;
  const XmlPart& x = c[(size_t)at % c.size()];
  *what = x.name;
  return good.substr(0, x.a) + good.substr(x.a + x.n);
}
// What every description of its kind has to give; anything else has a default or may be absent.
static const char* const mandatory = " "
  "BField.x BField.y BField.z CalorimeterParameters/dimensions CalorimeterParameters/dimensions.inner_r CalorimeterParameters/dimensions.inner_z "
  "CalorimeterParameters/dimensions.outer_r CalorimeterParameters/dimensions.outer_z CalorimeterParameters/layer.absorberThickness "
  "CalorimeterParameters/layer.cellSize0 CalorimeterParameters/layer.cellSize1 CalorimeterParameters/layer.repeat CalorimeterParameters/layer.thickness "
  "CalorimeterParameters/layout CalorimeterParameters/layout.phi0 CalorimeterParameters/layout.symmetry CalorimeterParameters/layout.type "
  "CalorimeterParameters/parameter.name CalorimeterParameters/parameter.type FTDParameters/layer.alpha FTDParameters/layer.isDoubleSided "
  "FTDParameters/layer.nPetals FTDParameters/layer.nSensors FTDParameters/layer.petalOpenningAngle FTDParameters/layer.phi0 "
  "FTDParameters/layer.sensorType FTDParameters/layer.zoffset FTDParameters/layer.zposition FTDParameters/layer.zsign0 FTDParameters/layers "
  "FTDParameters/parameter.name FTDParameters/parameter.type FTDParameters/sensitive FTDParameters/sensitive.lengthMax FTDParameters/sensitive.lengthMin "
  "FTDParameters/sensitive.rInner FTDParameters/sensitive.radLength FTDParameters/sensitive.thickness FTDParameters/sensitive.width FTDParameters/support "
  "FTDParameters/support.lengthMax FTDParameters/support.lengthMin FTDParameters/support.rInner FTDParameters/support.radLength "
  "FTDParameters/support.thickness FTDParameters/support.width GearParameters/parameter.name GearParameters/parameter.type SiPlanesParameters/dut "
  "SiPlanesParameters/dut_ladder SiPlanesParameters/dut_ladder.ID SiPlanesParameters/dut_ladder.positionX SiPlanesParameters/dut_ladder.positionY "
  "SiPlanesParameters/dut_ladder.positionZ SiPlanesParameters/dut_ladder.radLength SiPlanesParameters/dut_ladder.sizeX "
  "SiPlanesParameters/dut_ladder.sizeY SiPlanesParameters/dut_ladder.thickness SiPlanesParameters/dut_sensitive SiPlanesParameters/dut_sensitive.ID "
  "SiPlanesParameters/dut_sensitive.npixelX SiPlanesParameters/dut_sensitive.npixelY SiPlanesParameters/dut_sensitive.pitchX "
  "SiPlanesParameters/dut_sensitive.pitchY SiPlanesParameters/dut_sensitive.positionX SiPlanesParameters/dut_sensitive.positionY "
  "SiPlanesParameters/dut_sensitive.positionZ SiPlanesParameters/dut_sensitive.radLength SiPlanesParameters/dut_sensitive.resolution "
  "SiPlanesParameters/dut_sensitive.sizeX SiPlanesParameters/dut_sensitive.sizeY SiPlanesParameters/dut_sensitive.thickness SiPlanesParameters/ladder "
  "SiPlanesParameters/ladder.ID SiPlanesParameters/ladder.positionX SiPlanesParameters/ladder.positionY SiPlanesParameters/ladder.positionZ "
  "SiPlanesParameters/ladder.radLength SiPlanesParameters/ladder.sizeX SiPlanesParameters/ladder.sizeY SiPlanesParameters/ladder.thickness "
  "SiPlanesParameters/layers SiPlanesParameters/parameter.name SiPlanesParameters/parameter.type SiPlanesParameters/sensitive "
  "SiPlanesParameters/sensitive.ID SiPlanesParameters/sensitive.npixelX SiPlanesParameters/sensitive.npixelY SiPlanesParameters/sensitive.pitchX "
  "SiPlanesParameters/sensitive.pitchY SiPlanesParameters/sensitive.positionX SiPlanesParameters/sensitive.positionY "
  "SiPlanesParameters/sensitive.positionZ SiPlanesParameters/sensitive.radLength SiPlanesParameters/sensitive.resolution "
  "SiPlanesParameters/sensitive.sizeX SiPlanesParameters/sensitive.sizeY SiPlanesParameters/sensitive.thickness SiPlanesParameters/siplanesID "
  "SiPlanesParameters/siplanesID.ID SiPlanesParameters/siplanesNumber SiPlanesParameters/siplanesNumber.number SiPlanesParameters/siplanesType "
  "SiPlanesParameters/siplanesType.type TPCParameters/PadRowLayout2D.maxRow TPCParameters/PadRowLayout2D.nPadsInRow TPCParameters/PadRowLayout2D.nRow "
  "TPCParameters/PadRowLayout2D.padGap TPCParameters/PadRowLayout2D.padHeight TPCParameters/PadRowLayout2D.padWidth TPCParameters/PadRowLayout2D.phiMin "
  "TPCParameters/PadRowLayout2D.rMax TPCParameters/PadRowLayout2D.rMin TPCParameters/PadRowLayout2D.type TPCParameters/PadRowLayout2D.xMax "
  "TPCParameters/PadRowLayout2D.xMin TPCParameters/PadRowLayout2D.yMin TPCParameters/angle.value TPCParameters/coordinateType "
  "TPCParameters/coordinateType.value TPCParameters/driftVelocity.value TPCParameters/enlargeActiveAreaBy.value "
  "TPCParameters/maxDriftLength TPCParameters/maxDriftLength.value TPCParameters/moduleID.value TPCParameters/offset.x_r TPCParameters/offset.y_phi "
  "TPCParameters/parameter.name TPCParameters/parameter.type TPCParameters/readoutFrequency.value TPCParameters/row.nPad TPCParameters/row.padPitch "
  "TPCParameters/zPosition.value TrackerPlanesParameters/LayoutID TrackerPlanesParameters/LayoutID.ID TrackerPlanesParameters/LayoutNumberOfLayers "
  "TrackerPlanesParameters/LayoutNumberOfLayers.number TrackerPlanesParameters/LayoutType.type TrackerPlanesParameters/ladder.ID "
  "TrackerPlanesParameters/layer.ID TrackerPlanesParameters/layers TrackerPlanesParameters/parameter.name TrackerPlanesParameters/parameter.type "
  "TrackerPlanesParameters/sensitive.ID ZPlanarParameters/ladder ZPlanarParameters/ladder.distance ZPlanarParameters/ladder.length "
  "ZPlanarParameters/ladder.offset ZPlanarParameters/ladder.radLength ZPlanarParameters/ladder.thickness ZPlanarParameters/ladder.width "
  "ZPlanarParameters/layer.nLadders ZPlanarParameters/layer.phi0 ZPlanarParameters/layers ZPlanarParameters/parameter.name "
  "ZPlanarParameters/parameter.type ZPlanarParameters/sensitive ZPlanarParameters/sensitive.distance ZPlanarParameters/sensitive.length "
  "ZPlanarParameters/sensitive.offset ZPlanarParameters/sensitive.radLength ZPlanarParameters/sensitive.thickness ZPlanarParameters/sensitive.width "
  "ZPlanarParameters/shell ZPlanarParameters/shell.gap ZPlanarParameters/shell.halfLength ZPlanarParameters/shell.innerRadius "
  "ZPlanarParameters/shell.outerRadius ZPlanarParameters/shell.radLength ZPlanarParameters/type ZPlanarParameters/type.technology "
  "ZPlanarParameters/vxdType ZPlanarParameters/vxdType.technology detector.name detectors gear global.detectorName material.A material.Z material.density "
  "material.intLength material.name material.radLength parameter.name parameter.type ";
static bool isMandatory(const std::string& n) { return strstr(mandatory, (" " + n + " ").c_str()) != nullptr; }
static std::string damaged(const Item& it, const std::string& good) {
  std::string b = good;
  if (it.kind == "drop") { std::string w; return dropped(good, it.get("at"), &w); }
  if (it.kind == "trunc") {
    size_t at = (size_t)((u64)b.size() * (u64)std::max<i64>(0, it.get("at")) / 100000);
    if (it.get("snap")) at = snapTo(b, at, (int)it.get("snap"));
    b.resize(std::min(at, b.size()));
  }
  if (it.kind == "zero") {
    size_t len = (size_t)it.get("len", 1), at = (size_t)((u64)b.size() * (u64)it.get("at") / 100000);
    if (len >= 64) at = at / len * len;
    if (it.get("snap")) { size_t e = at + len; at = snapTo(b, at, (int)it.get("snap")); if (!it.get("tail")) { e = snapTo(b, e, 1); len = e > at ? e - at : len; } }
    for (size_t i = at; i < b.size() && i < at + len; ++i) b[i] = 0;
    if (it.get("tail")) for (size_t i = at; i < b.size(); ++i) b[i] = 0;
  }
  return b;
}
static void run01(const Plan& p) {
  const std::string path = "/sim/geo.xml";
  GeoSpec s = geomOf(p, 0);
  writeSource(p, 0, path);
  std::string good = dkGet(path);
  phase([&] {
    disk.arm();
    Facts f = mustLoad(path, &s, "undamaged");
    for (int i = 0; i < OP_N; ++i) sh->num[i] = disk.count[i];
    putFacts(0, f);
    trace(f.hash());
  });
  Facts pilot = getFacts(0);
  state(pilot.hash());
  int counts[OP_N];
  for (int i = 0; i < OP_N; ++i) counts[i] = (int)sh->num[i];
  std::vector<const Item*> at;
  for (auto& it : p.items) if (it.kind == "trunc" || it.kind == "zero" || it.kind == "drop" || it.kind == "iofault") at.push_back(&it);
  for (size_t i = 0; i < at.size();) {
    size_t j = i + 1;
    while (j < at.size() && at[j]->get("same")) ++j;
    phase([&] {
      for (size_t k = i; k < j; ++k) {
        const Item& it = *at[k];
        std::string bytes = damaged(it, good), what = it.kind;
        bool isDamaged = bytes != good;
        dkPut(path, bytes);
        disk.clear();
        applyIo(it);
        int c2[OP_N];
        for (int q = 0; q < OP_N; ++q) c2[q] = counts[q];
        if (disk.readMax > 0) c2[OP_READ] = std::max(1, (int)(bytes.size() / disk.readMax));
        if (it.kind == "iofault") disk.faults.push_back(makeFault(it, c2, &what));
        else what = fmt("%s at %lld of 100000 (file of %zu bytes, now %zu)", it.kind.c_str(), (long long)it.get("at"), good.size(), bytes.size());
        disk.arm();
        GearMgr* m = nullptr;
        Res r = loadInto(path, m);
        int fired = disk.fired;
        traceEv("load", r.ok, fired);
        bool faulty = isDamaged || fired;
        if (isDamaged) cnt(it.kind == "trunc" ? "fault.file.truncated" : it.kind == "drop" ? "fault.file.part-missing" : "fault.file.zeroed");
        disk.clear();
        if (faulty) { sh->nontrivial = 1; cnt(r.ok ? "load.ok-despite-fault" : "load.error"); }
        if (r.oom) fail("spurious-bad_alloc", "loading reported exhausted memory although there was enough: " + what);
        if (!faulty && !r.ok) fail("intact-load-failed", "loading without any damage ended with " + r.exc + " (" + what + ")");
        if (it.kind == "drop" && isDamaged) {
          std::string w;
          dropped(good, it.get("at"), &w);
          what = "leaving out " + w;
          if (r.ok && isMandatory(w)) fail("incomplete-accepted", "a geometry was loaded from a description without its " + w);
          if (k == i) note(what + (r.ok ? " -> the default is used" : " -> reported " + r.exc));
          delete m;
          continue;
        }
        if (r.ok) {
          Facts f = answers(*m);
          std::string d = diff(pilot, f, EXACT);
          if (!d.empty()) fail("partial-geometry", fmt("load after %s gave a geometry that differs from the described one: %s", what.c_str(), d.c_str()));
          state(1);
        }
        if (k == i) note(what + (r.ok ? " -> loaded completely" : " -> reported " + r.exc));
      }
      // with the file whole again everything is as it should be
      dkPut(path, good);
      disk.clear();
      Facts f = mustLoad(path, nullptr, "after the damage was repaired");
      std::string d = diff(pilot, f, EXACT);
      if (!d.empty()) fail("repaired-load-wrong", "after damaged attempts an intact load differs: " + d);
    });
    i = j;
  }
}

// ------------------------------------------------------------------ C02
static Plan gen02(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x202)));
  Plan p; p.seed = seed ^ idx;
  addGeom(p, r, 0, thorough);
  bool merge = r.chance(20);
  if (merge) { addGeom(p, r, 1, thorough); p.add("merge"); }
  if (r.chance(50)) p.add("old").set("len", r.range(0, 9000));
  int n = r.range(3, thorough ? 14 : 9);
  for (int i = 0; i < n; ++i) {
    Item it("attempt");
    if (r.chance(30)) { it.set("cap", r.chance(25) ? 1000 - r.range(0, 20) : r.range(0, 1000)); if (r.chance(30)) it.set("capoff", r.range(-2, 2)); }
    else genWriteFault(r, it);
    if (r.chance(40)) it.set("iobuf", (i64[]){0, 1, 16, 128, 1024, 8192}[r.below(6)]);
    if (r.chance(25)) it.set("heal", 1);     // the fault goes away, save again
    p.items.push_back(it);
  }
  return p;
}
static void run02(const Plan& p) {
  const std::string path = "/sim/out.xml";
  GeoSpec s = geomOf(p, 0);
  bool merge = p.find("merge") && p.find("geom", 1);
  if (merge) {
    writeSource(p, 0, "/sim/in1.xml");
    writeSource(p, 1, "/sim/in2.xml");
  }
  phase([&] {
    GearMgr* m = nullptr;
    std::unique_ptr<MergeXML> mx;
    Facts before;
    if (merge) {
      mx.reset(new MergeXML);
      if (!mx->setFile1("/sim/in1.xml") || !mx->setFile2("/sim/in2.xml")) fail("merge-input", "intact merge input refused");
    } else {
      Res b = guarded([&] { m = build(s); });
      if (!b.ok) fail("build-failed", "building through the public interface ended with " + b.exc);
      before = answers(*m);
    }
    bool impossible = false;
    auto save = [&](const std::string& to) {
      if (!merge) return saveTo(m, to);
      bool said = false;
      Res r = guarded([&] { said = mx->mergeFiles(to); });
      if (r.ok && !said) { r.ok = false; r.exc = "false"; }
      return r;
    };
    disk.clear();
    Res r = save("/sim/pilot.xml");
    if (!r.ok) {
      if (merge) impossible = true;      // descriptions that cannot be combined
      else fail("save-failed", "saving without any fault ended with " + r.exc);
    }
    if (impossible) { cnt("merge.refused"); _exit(0); }
    std::string want = dkGet("/sim/pilot.xml");
    if (want.empty()) fail("save-empty", "a save that reported success left no bytes");
    int counts[OP_N];
    for (int i = 0; i < OP_N; ++i) counts[i] = disk.count[i];
    state(hashBytes(want.data(), want.size()));
    dkRemove("/sim/pilot.xml");
    long base = 0;
    for (auto& f : dkImage()) base += (long)f.second.size();
    const Item* old = p.find("old");
    if (old) { dkPut(path, std::string((size_t)old->get("len"), 'x')); }
    bool first = true;
    for (auto& it : p.items) if (it.kind == "attempt") {
      disk.clear();
      applyIo(it);
      int c2[OP_N];
      for (int i = 0; i < OP_N; ++i) c2[i] = counts[i];
      // with small stream buffers there are more write calls
      long buf = disk.iobuf >= 0 ? std::max(1l, disk.iobuf) : 4096;
      c2[OP_WRITE] = std::max(c2[OP_WRITE], (int)(want.size() / buf) + 1);
      std::string what;
      if (it.get("cap", -1) >= 0) {
        disk.capacity = base + (long)want.size() * it.get("cap") / 1000 + it.get("capoff");
        if (disk.capacity < 0) disk.capacity = 0;
        what = fmt("room for %ld of %zu bytes", disk.capacity - base, want.size());
      } else disk.faults.push_back(makeFault(it, c2, &what));
      disk.arm();
      Res a = save(path);
      int fired = disk.fired;
      long cap = disk.capacity;
      disk.clear();
      std::string got = dkGet(path);
      traceEv("save", a.ok, fired);
      if (fired) { sh->nontrivial = 1; cnt(a.ok ? "save.ok-despite-fault" : "save.error"); }
      if (a.oom) fail("spurious-bad_alloc", "saving reported exhausted memory although there was enough: " + what);
      if (a.ok && got != want) {
        size_t d = 0;
        while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
        fail("incomplete-save-not-reported", fmt("%s: the save reported success, but the file has %zu of %zu bytes (first difference at %zu)", what.c_str(), got.size(), want.size(), d));
      }
      if (!a.ok && !fired && cap < 0) fail("save-failed", "saving without any fault ended with " + a.exc);
      if (first) { note(what + (a.ok ? " -> saved completely" : " -> reported " + a.exc)); first = false; }
      if (it.get("heal")) {
        Res h = save(path);
        if (!h.ok) fail("save-after-fault-failed", "once the fault was gone saving again ended with " + h.exc);
        if (dkGet(path) != want) fail("save-after-fault-wrong", "once the fault was gone saving again did not give the complete file");
        cnt("save.healed");
      }
      if (m && r.ok && (it.get("heal") || &it == &p.items.back())) {
        std::string d = diff(before, answers(*m), EXACT);
        if (!d.empty()) fail("save-changed-geometry", "the geometry in memory changed: " + d);
      }
    }
    disk.clear();
    Res h = save(path);
    if (!h.ok) fail("save-after-fault-failed", "once all faults were gone saving again ended with " + h.exc);
    // whatever earlier attempts still hold open is flushed at the end of the process
    fflush(nullptr);
    if (dkGet(path) != want) fail("save-after-fault-wrong", "once all faults were gone saving again did not give the complete file");
    if (m) {
      std::string d = diff(before, answers(*m), EXACT);
      if (!d.empty()) fail("save-changed-geometry", "the geometry in memory changed: " + d);
    }
  });
  // and the complete file is the description of that geometry
  if (!merge)
    phase([&] { mustLoad(path, &s, "after the final save"); });
}

// ------------------------------------------------------------------ C03
static Plan gen03(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x303)));
  Plan p; p.seed = seed ^ idx;
  if (r.chance(80)) { addGeom(p, r, 0, thorough); p.add("src").set("id", 0).set("how", r.chance(30)).set("style", (i64)(r.next() >> 40)); }
  addGeom(p, r, 1, thorough);
  if (r.chance(15)) { addGeom(p, r, 2, thorough); p.add("merge"); }
  Item& io = p.add("io");
  if (r.chance(60)) io.set("iobuf", (i64[]){0, 1, 64, 512, 1024, 2048, 16384}[r.below(7)]);
  int n = r.range(6, thorough ? 40 : 16);
  for (int i = 0; i < n; ++i) {
    Item it("crash");
    it.set("at", r.range(0, 1000));
    if (r.chance(30)) it.set("at", r.chance(50) ? 1000 - r.range(0, 4) : r.range(0, 4));
    if (r.chance(50)) it.set("torn", r.range(0, 999));
    int k = (int)r.below(10);           // what the machine loses with the power
    if (k >= 6) it.set("power", 1 + (int)r.below(4)).set("arg", r.range(0, 1000));
    p.items.push_back(it);
  }
  for (int i = 0, k = r.range(1, 3); i < k; ++i) p.add("kill").set("at", r.range(0, 1000)).set("torn", r.range(0, 1000));
  return p;
}
static void run03(const Plan& p) {
  const std::string path = "/sim/geo.xml";
  GeoSpec sOld, sNew = geomOf(p, 1);
  bool hasOld = p.find("geom", 0) != nullptr;
  bool merge = p.find("merge") && p.find("geom", 2);
  if (hasOld) {
    sOld = geomOf(p, 0);
    writeSource(p, 0, path);
    phase([&] { putFacts(0, mustLoad(path, &sOld, "old")); });
  }
  if (merge) { writeSource(p, 1, "/sim/in1.xml"); writeSource(p, 2, "/sim/in2.xml"); }
  DiskImage before = dkImage();
  const Item* io = p.find("io");
  auto doSave = [&] {
    if (io) applyIo(*io);
    if (merge) {
      MergeXML mx;
      if (!mx.setFile1("/sim/in1.xml") || !mx.setFile2("/sim/in2.xml")) fail("merge-input", "intact merge input refused");
      bool said = false;
      disk.events = 0;
      Res r = guarded([&] { said = mx.mergeFiles(path); });
      if (!r.ok || !said) { sh->num[1] = 1; _exit(0); }
      return;
    }
    GearMgr* m = nullptr;
    Res b = guarded([&] { m = build(sNew); });
    if (!b.ok) fail("build-failed", "building through the public interface ended with " + b.exc);
    disk.events = 0;
    Res r = saveTo(m, path);
    if (!r.ok) fail("save-failed", "saving without any fault ended with " + r.exc);
  };
  phase([&] {
    dkLogStart();
    doSave();
    sh->num[0] = disk.events;
  });
  if (sh->num[1]) return;
  DiskImage after = dkImage();
  int nev = dkLogSize();
  phase([&] { putFacts(1, mustLoad(path, merge ? nullptr : &sNew, "new")); });
  Facts fo, fn = getFacts(1);
  if (hasOld) fo = getFacts(0);
  state(fn.hash() ^ mix64(fo.hash()));
  trace(fn.hash());
  traceEv("save-events", nev);
  auto check = [&](const DiskImage& img, const std::string& what) {
    // restart: only the disk survives
    dkRestore(img);
    GearMgr* m = nullptr;
    Res r = loadInto(path, m);
    traceEv("recovered", r.ok);
    cnt(r.ok ? "recovery.whole-geometry" : "recovery.error");
    if (r.oom) fail("spurious-bad_alloc", "loading reported exhausted memory although there was enough: " + what);
    if (!r.ok) return;
    Facts f = answers(*m);
    std::string d1 = diff(fn, f, EXACT);
    if (d1.empty()) return;
    if (hasOld) { if (diff(fo, f, EXACT).empty()) return; }
    fail("mixture-after-crash", fmt("%s: the file loads as neither the old nor the new geometry; against the new one: %s", what.c_str(), d1.c_str()));
  };
  // crash states computed from the event log of the disk
  phase([&] {
    for (auto& it : p.items) if (it.kind == "crash") {
      int n = (int)((i64)nev * std::min<i64>(1000, it.get("at")) / 1000);
      int torn = (int)it.get("torn", -1);
      DiskImage img = dkReplay(before, n, torn);
      std::string what = fmt("crash after disk event %d of %d%s", n, nev, torn >= 0 ? fmt(" (last write torn at %d permille)", torn).c_str() : "");
      cnt("fault.crash");
      sh->nontrivial = 1;
      i64 power = it.get("power");
      if (power && img.count(path)) {
        std::string& c = img[path];
        i64 a = it.get("arg");
        switch (power) {
          case 1: c.clear(); what += ", file left empty"; break;
          case 2: { size_t blk = 512, nb = (c.size() + blk - 1) / blk; if (nb) { size_t b = (size_t)a * nb / 1001; for (size_t k = b * blk; k < c.size() && k < (b + 1) * blk; ++k) c[k] = 0; } what += ", one block lost"; break; }
          case 3: { size_t from = c.size() * (size_t)a / 1000 / 512 * 512; for (size_t k = from; k < c.size(); ++k) c[k] = 0; what += ", blocks not written back"; break; }
          case 4: { c.resize(c.size() * (size_t)a / 1000); what += ", size not updated"; break; }
        }
        cnt("fault.power-loss");
        traceEv("power", power, a);
      }
      check(img, what);
      note(what);
    }
  });
  // real process crashes: the process that saves ends inside the disk operation
  u64 ops = sh->num[0];
  for (auto& it : p.items) if (it.kind == "kill") {
    dkRestore(before);
    long at = (long)((i64)ops * std::min<i64>(1000, it.get("at")) / 1000);
    int rc = phase([&] {
      disk.clear();
      disk.crashAt = at;
      disk.crashTorn = (long)it.get("torn");
      // sources are read first, the crash counts operations of the save alone
      long c = disk.crashAt; disk.crashAt = -1;
      if (io) applyIo(*io);
      if (merge) {
        MergeXML mx;
        if (!mx.setFile1("/sim/in1.xml") || !mx.setFile2("/sim/in2.xml")) fail("merge-input", "intact merge input refused");
        disk.events = 0; disk.crashAt = c;
        guarded([&] { mx.mergeFiles(path); });
      } else {
        GearMgr* m = nullptr;
        Res b = guarded([&] { m = build(sNew); });
        if (!b.ok) fail("build-failed", b.exc);
        disk.events = 0; disk.crashAt = c;
        saveTo(m, path);
      }
      disk.crashAt = -1;
    });
    DiskImage img = dkImage();
    traceEv("kill", at, rc);
    if (rc == SIM_CRASH) sh->nontrivial = 1;
    phase([&] { check(img, fmt("process ended inside disk operation %ld of the save", at)); });
  }
  (void)after;
}

// ------------------------------------------------------------------ C04
// ops on one reader: load, put file A/B/missing/damaged, each load with optional faults
// a description that is well formed but says something a reader refuses, at any place of it
static std::string refusable(const Item& it, const std::string& t) {
  Rng r(mix64((u64)it.get("at") * 1000003 + (u64)it.get("len")));
  std::vector<XmlPart> c = xmlParts(t), d;
  int how = (int)it.get("to") - 6;
  for (auto& x : c) {
    bool attr = x.name.find('.') != std::string::npos, type = x.name.size() >= 9 && x.name.substr(x.name.size() - 9) == ".geartype";
    if (how == 0 ? x.depth >= 1 : how == 1 ? !attr && x.depth >= 1 : type) d.push_back(x);
  }
  if (d.empty()) return t;
  XmlPart x = d[r.below(d.size())];
  // the later in the file the more of it has been taken in before the refusal
  if (r.chance(40)) for (auto& y : d) if (y.a > x.a && r.chance(30)) x = y;
  std::string b = t;
  if (how == 0) b.erase(x.a, x.n);
  else if (how == 1) b.insert(x.a + x.n, t.substr(x.a, x.n));
  else { size_t q = b.find_first_of("\"'", x.a); b.insert(q + 1, "No"); }
  return b;
}
static Plan gen04(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x404)));
  Plan p; p.seed = seed ^ idx;
  addGeom(p, r, 0, thorough);
  addGeom(p, r, 1, thorough);
  for (int i = 0; i < 2; ++i) p.add("src").set("id", i).set("how", r.chance(40)).set("style", (i64)(r.next() >> 40));
  int n = r.range(4, thorough ? 20 : 12);
  int readers = r.range(1, 3);
  for (int i = 0; i < n; ++i) {
    int k = (int)r.below(100);
    if (k < 30) {
      Item it("file");
      int w = (int)r.below(9);
      it.set("to", w);           // 0 A, 1 B, 2 missing, 3 truncated, 4 zeroed, 5 wrong content, 6.. well formed but refused
      it.set("at", r.range(0, 99999)).set("len", r.range(1, 600));
      p.items.push_back(it);
    } else if (k < 33) p.add("drop").set("r", r.below(readers));
    else {
      Item it("load");
      it.set("r", r.below(readers));
      if (r.chance(55)) { if (r.chance(50)) genReadFault(r, it); else it.set("alloc", r.range(0, 1000)).set("allocfor", r.chance(60) ? 1 : r.chance(50) ? -1 : r.range(2, 30)); }
      if (r.chance(15)) it.set("iobuf", (i64[]){0, 1, 64, 512}[r.below(4)]);
      p.items.push_back(it);
    }
  }
  return p;
}
static void run04(const Plan& p) {
  const std::string path = "/sim/geo.xml";
  GeoSpec s[2] = {geomOf(p, 0), geomOf(p, 1)};
  std::string bytes[2];
  for (int i = 0; i < 2; ++i) {
    std::string f = i ? "/sim/b.xml" : "/sim/a.xml";
    writeSource(p, i, f);
    bytes[i] = dkGet(f);
    // pilot: what a first load in a fresh process gives, and how much it costs
    phase([&] {
      disk.arm();
      armAlloc(-1);
      GearMgr* m = nullptr;
      Res r = loadInto(f, m);
      if (!r.ok) fail("intact-load-failed", "loading an intact file ended with " + r.exc);
      sh->num[i * 20 + 15] = as.count;
      for (int q = 0; q < OP_N; ++q) sh->num[i * 20 + q] = disk.count[q];
      Facts a = answers(*m);
      std::string d = diff(expect(s[i]), a, TOL, true);
      if (!d.empty()) fail("intact-load-wrong", "expected vs loaded: " + d);
      putFacts(i, a);
    });
  }
  Facts want[2] = {getFacts(0), getFacts(1)};
  state(want[0].hash() ^ mix64(want[1].hash()));
  // descriptions that a first load refuses though they are well formed
  std::map<const Item*, std::string> refused;
  for (auto& it : p.items) if (it.kind == "file" && it.get("to") >= 6) {
    std::string t = refusable(it, bytes[it.get("at") & 1]);
    dkPut(path, t);
    phase([&] {
      GearMgr* m = nullptr;
      Res r = loadInto(path, m);
      if (r.oom) fail("spurious-bad_alloc", "loading reported exhausted memory although there was enough");
      sh->num[60] = r.ok;
    });
    if (!sh->num[60]) refused[&it] = t;
  }
  phase([&] {
    struct Reader { std::unique_ptr<GearXML> x; GearMgr* got = nullptr; int which = -1; };
    std::vector<Reader> rd(3);
    int content = 0;               // what the file holds: 0/1 whole, -1 nothing that describes a geometry, 2 damaged
    int origin = 0;
    dkPut(path, bytes[0]);
    std::string cur = bytes[0];
    int loads = 0, failures = 0;
    std::string hist;
    for (auto& it : p.items) {
      if (it.kind == "file") {
        int to = (int)it.get("to");
        if (to >= 6 && !refused.count(&it)) continue;
        origin = (int)(it.get("at") & 1);
        if (to < 2) { cur = bytes[to]; content = to; dkPut(path, cur); }
        else if (to == 2) { dkRemove(path); content = -1; }
        else if (to >= 6) {
          cur = refused[&it]; content = -1; dkPut(path, cur);
          cnt("fault.file.refused");
        }
        else {
          Item d(to == 3 ? "trunc" : "zero");
          d.set("at", it.get("at")).set("len", it.get("len", 1)).set("snap", it.get("at") % 5 > 3 ? 0 : it.get("at") % 5);
          cur = to == 5 ? std::string(bytes[origin].begin(), bytes[origin].begin() + 5) + "<x></x>" : damaged(d, bytes[origin]);
          content = to == 5 ? -1 : cur == bytes[origin] ? origin : 2;
          dkPut(path, cur);
          cnt("fault.file.damaged");
        }
        traceEv("file", to);
        hist += fmt("file:%d ", to);
      } else if (it.kind == "drop") {
        Reader& R = rd[(size_t)it.get("r") % 3];
        if (!R.got) R.x.reset();          // a reader that gave nothing away may go
        traceEv("drop");
      } else if (it.kind == "load") {
        Reader& R = rd[(size_t)it.get("r") % 3];
        if (!R.x) {
          Res c = guarded([&] { R.x.reset(new GearXML(path)); });
          if (!c.ok) fail("reader", "creating a reader ended with " + c.exc);
        }
        disk.clear();
        applyIo(it);
        std::string what = "no fault";
        int counts[OP_N], w = content >= 0 && content < 2 ? content : origin;
        for (int q = 0; q < OP_N; ++q) counts[q] = (int)sh->num[w * 20 + q];
        long failAt = -1;
        if (it.get("alloc", -1) >= 0) { failAt = (long)(sh->num[w * 20 + 15] * (u64)it.get("alloc") / 1000); what = fmt("allocation %ld fails", failAt); }
        else if (it.get("op", -1) >= 0) disk.faults.push_back(makeFault(it, counts, &what));
        disk.arm();
        armAlloc(failAt, (long)it.get("allocfor", 1));
        GearMgr* m = nullptr;
        Res r = guarded([&] { m = R.x->createGearMgr(); });
        long oom = as.fired;
        armAlloc(-1);
        int fired = disk.fired;
        disk.clear();
        ++loads;
        if (oom) cnt("fault.alloc");
        traceEv("load", r.ok, (u64)fired * 1000 + oom);
        hist += fmt("load(%s)=%s ", what.c_str(), r.ok ? "ok" : r.exc.c_str());
        if (r.ok && !m) fail("load-null", "createGearMgr returned a null pointer instead of reporting an error; " + hist);
        if (R.got) {
          // once loaded, for ever the same geometry
          if (!r.ok) fail("loaded-reader-fails", "a reader that had loaded its geometry ended with " + r.exc + "; " + hist);
          if (m != R.got) fail("loaded-reader-changes", "a reader handed out a different geometry object after a successful load; " + hist);
        } else if (r.ok) {
          Facts f = answers(*m);
          std::string d;
          if (content == 0 || content == 1) { d = diff(want[content], f, EXACT); R.which = content; }
          else if (content == 2) { d = diff(want[origin], f, EXACT); R.which = origin; }   // damage that takes nothing away
          else d = "there is no geometry to load";
          if (!d.empty()) fail("remains-handed-out", fmt("a load gave a geometry that is not what the file describes: %s; %s", d.c_str(), hist.c_str()));
          R.got = m;
          cnt("load.ok");
        } else {
          ++failures;
          cnt("load.error");
          if (!fired && !oom && (content == 0 || content == 1)) fail("retry-fails", "loading a readable file ended with " + r.exc + "; " + hist);
          if (r.oom && !oom) fail("spurious-bad_alloc", "loading reported exhausted memory although there was enough; " + hist);
        }
        for (auto& q : rd) if (q.got) {
          std::string d = diff(want[q.which], answers(*q.got), EXACT);
          if (!d.empty()) fail("handed-out-geometry-changed", "a geometry handed out earlier changed: " + d + "; " + hist);
        }
      }
    }
    if (loads && failures) sh->nontrivial = 1;
    note(hist);
  });
}

// ------------------------------------------------------------------ C05
static Plan gen05(u64 seed, u64 idx, bool thorough) {
  Rng r(mix64(seed ^ mix64(idx + 0x505)));
  Plan p; p.seed = seed ^ idx;
  addGeom(p, r, 0, thorough, r.range(10, 70));
  if (r.chance(30)) p.add("src").set("id", 0).set("how", 1).set("style", (i64)(r.next() >> 40));
  for (int i = 0, n = r.chance(50) ? r.range(1, 3) : 0; i < n; ++i) {
    Item it("attempt");
    if (r.chance(35)) it.set("cap", r.range(0, 1000));
    else if (r.chance(60)) genWriteFault(r, it);
    else it.set("alloc", r.range(0, 1000));
    p.items.push_back(it);
  }
  if (r.chance(40)) p.add("io").set("iobuf", (i64[]){0, 1, 64, 512, 1024}[r.below(5)]).set("rmax", r.chance(50) ? r.range(1, 2000) : 0);
  if (r.chance(40)) p.add("queried");
  p.add("gens").set("n", r.range(2, 4));
  return p;
}
static GearMgr* quirk(int k) {
  GearMgrImpl* m = new GearMgrImpl;
  m->setDetectorName("Q");
  if (k == 1) {
    GearParametersImpl* p = new GearParametersImpl;
    p->setStringVals("names", std::vector<std::string>{"two words", "", "x"});
    m->setGearParameters("user", p);
  } else if (k == 2) {
    TPCParametersImpl* t = new TPCParametersImpl(2000., PadRowLayout2D::POLAR);
    t->setDriftVelocity(0.);
    RectangularPadRowLayout* l = new RectangularPadRowLayout(0, 10, 0);
    l->addRow(2, 4, 1., 5., 5., 0, 0);
    t->addModule(new TPCModuleImpl(0, l, PadRowLayout2D::POLAR, 1e6));
    m->setTPCParameters(t);
  } else if (k == 3) {
    CalorimeterParametersImpl* c = new CalorimeterParametersImpl(100., 200., 8, 0.);
    c->layerLayout().positionLayer(120., 10., 5., 5., 2.);
    c->layerLayout().positionLayer(150., 10., 5., 5., 2.);
    m->setEcalBarrelParameters(c);
  }
  return m;
}
static void run05(const Plan& p) {
  const std::string path = "/sim/geo.xml", path2 = "/sim/again.xml";
  const Item* q = p.find("quirk");
  const Item* src = p.find("src", 0);
  bool emitted = src && src->get("how");
  GeoSpec s;
  if (!q) s = geomOf(p, 0);
  const Item* io = p.find("io");
  if (emitted && !q) dkPut("/sim/src.xml", emitXml(s, (u64)src->get("style")));
  // process 1: the original
  phase([&] {
    GearMgr* m = nullptr;
    if (q) { m = quirk((int)q->get("k")); }
    else if (emitted) {
      Res r = loadInto("/sim/src.xml", m);
      if (!r.ok) fail("intact-load-failed", "loading an intact file ended with " + r.exc);
    } else {
      Res b = guarded([&] { m = build(s); });
      if (!b.ok) fail("build-failed", "building through the public interface ended with " + b.exc);
    }
    Facts before;
    bool early = p.find("queried") != nullptr;
    if (early) before = answers(*m);
    disk.arm();
    armAlloc(-1);
    std::string want;
    int counts[OP_N] = {0};
    long allocs = 0;
    bool needPilot = p.find("attempt") != nullptr;
    if (needPilot) {
      Res r = saveTo(m, "/sim/pilot.xml");
      if (!r.ok) fail("save-failed", "saving without any fault ended with " + r.exc);
      allocs = as.count;
      for (int i = 0; i < OP_N; ++i) counts[i] = disk.count[i];
      want = dkGet("/sim/pilot.xml");
      dkRemove("/sim/pilot.xml");
    }
    for (auto& it : p.items) if (it.kind == "attempt") {
      disk.clear();
      long failAt = -1;
      if (it.get("alloc", -1) >= 0) failAt = allocs * (long)it.get("alloc") / 1000;
      else if (it.get("cap", -1) >= 0) disk.capacity = (long)want.size() * it.get("cap") / 1000;
      else disk.faults.push_back(makeFault(it, counts));
      disk.arm();
      armAlloc(failAt);
      Res r = saveTo(m, path);
      if (as.fired) cnt("fault.alloc");
      if (as.fired || disk.fired) cnt(r.ok ? "save.ok-despite-fault" : "save.error");
      armAlloc(-1);
      disk.clear();
      traceEv("attempt", r.ok);
    }
    if (io) applyIo(*io);
    Res r = saveTo(m, path);
    if (!r.ok) fail("save-failed", "saving without any fault ended with " + r.exc);
    disk.clear();
    Facts after = answers(*m);
    if (early) {
      std::string d = diff(before, after, EXACT);
      if (!d.empty()) fail("save-changed-geometry", "the geometry in memory changed: " + d);
    }
    if (!q) {
      std::string d = diff(expect(s), after, TOL, true);
      if (!d.empty()) fail(emitted ? "intact-load-wrong" : "build-wrong", "expected vs original: " + d);
    }
    putFacts(0, after);
    trace(after.hash());
    sh->nontrivial = 1;
  });
  Facts orig = getFacts(0);
  state(orig.hash());
  const Item* g = p.find("gens");
  int gens = g ? (int)std::max<i64>(1, std::min<i64>(5, g->get("n"))) : 2;
  std::string cur = path;
  std::string lastBytes = dkGet(path);
  for (int k = 0; k < gens; ++k) {
    std::string next = k & 1 ? path : path2;
    // a fresh process each time; only the disk survives
    phase([&] {
      if (io) applyIo(*io);
      GearMgr* m = nullptr;
      Res r = loadInto(cur, m);
      if (!r.ok) fail("reload-failed", fmt("loading the saved geometry (generation %d) ended with %s", k, r.exc.c_str()));
      Facts f = answers(*m);
      std::string d = diff(orig, f, k == 0 ? TOL : EXACT, k == 0);
      if (!d.empty()) fail(k == 0 ? "reload-differs" : "reload-drifts", fmt("generation %d: %s vs loaded: %s", k, k ? "previous" : "original", d.c_str()));
      if (k == 0 && !q) {
        std::string e = diff(expect(s), f, TOL, true);
        if (!e.empty()) fail("reload-differs", "expected vs loaded: " + e);
      }
      putFacts(0, f);
      r = saveTo(m, next);
      if (!r.ok) fail("save-failed", "saving the loaded geometry ended with " + r.exc);
      d = diff(f, answers(*m), EXACT);
      if (!d.empty()) fail("save-changed-geometry", "the geometry in memory changed: " + d);
      cnt("restarts");
    });
    orig = getFacts(0);
    std::string b = dkGet(next);
    if (k >= 1 && b != lastBytes) fail("save-drifts", fmt("saving generation %d again gives a different file (%zu and %zu bytes)", k, lastBytes.size(), b.size()));
    lastBytes = b;
    cur = next;
  }
  note(fmt("%d restarts, %zu answers, %zu bytes", gens, orig.v.size(), lastBytes.size()));
}

#define REALIO "all of GEAR's geometry classes, XML handlers, TinyXML parser and writer, libstdc++, the C library's stream buffering"
#define STUBIO "kernel and disk: every path below /sim/ is served from a simulated disk behind the interposed open/read/write/seek/close calls of streams and descriptors; operator new"
void propsIo(std::vector<Prop>& v) {
  v.push_back({"C01", gen01, run01, 5000, 200000, "a run is nontrivial if at least one damage or read fault actually showed during a load; distinct = distinct event logs of such runs", REALIO, STUBIO});
  v.push_back({"C02", gen02, run02, 5000, 200000, "a run is nontrivial if at least one write-side fault actually showed during a save; distinct = distinct event logs of such runs", REALIO, STUBIO});
  v.push_back({"C03", gen03, run03, 3500, 120000, "a run is nontrivial if at least one crash state was recovered from; distinct = distinct event logs of such runs", REALIO, STUBIO});
  v.push_back({"C04", gen04, run04, 5000, 200000, "a run is nontrivial if at least one load failed in its history; distinct = distinct event logs of such runs", REALIO, STUBIO});
  v.push_back({"C05", gen05, run05, 5000, 200000, "every run crosses at least two process restarts; distinct = distinct event logs", REALIO, STUBIO});
}
}
