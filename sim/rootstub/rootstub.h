// A stand-in for the parts of ROOT's geometry package that gear uses: a volume model of
// nested boxes whose navigation (next boundary along a ray, deepest volume at a point) is
// computed here.  The model is read from a "GDML" file that holds its seed.
#ifndef GEARSIM_ROOTSTUB_H
#define GEARSIM_ROOTSTUB_H
#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
typedef double Double_t;
typedef int Int_t;
typedef bool Bool_t;
typedef const char Option_t;
#ifndef kTRUE
#define kTRUE true
#define kFALSE false
#endif
class TGeoManager;
class TNamed {
public:
  std::string fName;
  explicit TNamed(const std::string& n = "") : fName(n) {}
  virtual ~TNamed() {}
  virtual const char* GetName() const { return fName.c_str(); }
};
class TGeoMaterial : public TNamed {
public:
  double fRho = 0, fT = 0, fP = 0, fX0 = 0, fL = 0;
  using TNamed::TNamed;
  Double_t GetDensity() const { return fRho; }
  Double_t GetTemperature() const { return fT; }
  Double_t GetPressure() const { return fP; }
  Double_t GetRadLen() const { return fX0; }
  Double_t GetIntLen() const { return fL; }
};
class TGeoMedium : public TNamed {
public:
  TGeoMaterial* fMat = nullptr;
  using TNamed::TNamed;
  TGeoMaterial* GetMaterial() const { return fMat; }
};
class TGeoVolume : public TNamed {
public:
  TGeoMedium* fMed = nullptr;
  TGeoManager* fMgr = nullptr;
  using TNamed::TNamed;
  TGeoMedium* GetMedium() const { return fMed; }
  TGeoMaterial* GetMaterial() const { return fMed->fMat; }
  TGeoManager* GetGeoManager() const { return fMgr; }
};
class TGeoNode : public TNamed {
public:
  TGeoVolume* fVol = nullptr;
  TGeoNode* fMother = nullptr;
  double lo[3], hi[3];                  // in the world, the faces belong to nobody in particular
  std::vector<TGeoNode*> fKids;
  using TNamed::TNamed;
  TGeoMedium* GetMedium() const { return fVol->fMed; }
  TGeoVolume* GetVolume() const { return fVol; }
  TGeoVolume* GetMotherVolume() const { return fMother ? fMother->fVol : nullptr; }
  TGeoNode* GetMotherNode() const { return fMother; }
  int GetNdaughters() const { return (int)fKids.size(); }
  TGeoNode* GetDaughter(int i) const { return fKids[i]; }
  bool has(const double* p) const { for (int k = 0; k < 3; ++k) if (p[k] < lo[k] || p[k] > hi[k]) return false; return true; }
  // distance along d at which the box is entered (from outside) or left (from inside), < 0: never
  double enter(const double* p, const double* d) const;
  double leave(const double* p, const double* d) const;
};
class TVirtualGeoTrack : public TNamed {
public:
  std::vector<double> fPts;
  void AddPoint(Double_t x, Double_t y, Double_t z, Double_t t) { fPts.push_back(x); fPts.push_back(y); fPts.push_back(z); fPts.push_back(t); }
  Int_t GetNpoints() const { return (Int_t)fPts.size() / 4; }
};
class TGeoManager : public TNamed {
public:
  TGeoManager() {}
  TGeoManager(const char* n, const char*) : TNamed(n) {}
  // the model
  std::vector<TGeoMaterial*> mats;
  std::vector<TGeoNode*> nodes;
  TGeoNode* top = nullptr;
  unsigned long long steps = 0;         // boundary steps so far
  // navigation state, shared by everyone who uses this manager
  double pt[3] = {0, 0, 0}, last[3] = {0, 0, 0}, dir[3] = {0, 0, 1}, step = 0;
  TGeoNode* cur = nullptr;
  bool outside = false;
  std::vector<TVirtualGeoTrack*> tracks;

  void make(unsigned long long seed);
  TGeoNode* at(const double* p, const TGeoNode* skip = nullptr) const;
  void SetTopVolume(TGeoVolume*) {}
  void CloseGeometry(Option_t* = "") {}
  TGeoVolume* GetTopVolume() const { return top->fVol; }
  TGeoNode* GetTopNode() const { return top; }
  TGeoVolume* GetMasterVolume() const { return top->fVol; }
  Int_t AddTrack(Int_t, Int_t, void* = nullptr) { std::unique_ptr<TVirtualGeoTrack> t(new TVirtualGeoTrack); tracks.push_back(t.get()); t.release(); return (Int_t)tracks.size() - 1; }
  TVirtualGeoTrack* GetLastTrack() { return tracks.empty() ? nullptr : tracks.back(); }
  TVirtualGeoTrack* GetTrack(Int_t i) { return tracks[i]; }
  Int_t GetNtracks() const { return (Int_t)tracks.size(); }
  void ClearTracks() { for (auto* t : tracks) delete t; tracks.clear(); }
  void CleanGarbage() {}
  TGeoNode* InitTrack(const Double_t* p, const Double_t* d) { for (int k = 0; k < 3; ++k) { pt[k] = last[k] = p[k]; dir[k] = d[k]; } step = 0; cur = at(pt); outside = cur == nullptr; return cur; }
  TGeoNode* InitTrack(Double_t x, Double_t y, Double_t z, Double_t a, Double_t b, Double_t c) { double p[3] = {x, y, z}, d[3] = {a, b, c}; return InitTrack(p, d); }
  TGeoNode* FindNextBoundaryAndStep(Double_t stepmax = 1e30, Bool_t = kFALSE);
  Bool_t IsOutside() const { return outside; }
  const Double_t* GetCurrentPoint() const { return pt; }
  const Double_t* GetLastPoint() const { return last; }
  const Double_t* GetCurrentDirection() const { return dir; }
  Double_t GetStep() const { return step; }
  void SetCurrentPoint(Double_t x, Double_t y, Double_t z) { pt[0] = x; pt[1] = y; pt[2] = z; }
  void SetCurrentPoint(const Double_t* p) { SetCurrentPoint(p[0], p[1], p[2]); }
  void SetCurrentDirection(Double_t x, Double_t y, Double_t z) { dir[0] = x; dir[1] = y; dir[2] = z; }
  void SetCurrentDirection(const Double_t* p) { SetCurrentDirection(p[0], p[1], p[2]); }
  TGeoNode* FindNode(Bool_t = kTRUE) { cur = at(pt); outside = cur == nullptr; return cur; }
  TGeoNode* FindNode(Double_t x, Double_t y, Double_t z) { SetCurrentPoint(x, y, z); return FindNode(); }
  TGeoNode* GetCurrentNode() const { return cur ? cur : top; }
  TGeoVolume* GetCurrentVolume() const { return GetCurrentNode()->fVol; }
  Int_t GetLevel() const { int n = 0; for (TGeoNode* q = GetCurrentNode(); q->fMother; q = q->fMother) ++n; return n; }
  TGeoNode* GetMother(Int_t up = 1) const { TGeoNode* q = GetCurrentNode(); while (q && up-- > 0) q = q->fMother; return q; }
  void CdTop() { cur = top; }
  void CdUp() { if (cur && cur->fMother) cur = cur->fMother; else cur = top; }
  // the frame of a volume has its origin in the middle of the box
  void MasterToLocal(const Double_t* m, Double_t* l) const { TGeoNode* q = GetCurrentNode(); for (int k = 0; k < 3; ++k) l[k] = m[k] - (q->lo[k] + q->hi[k]) / 2; }
  void LocalToMaster(const Double_t* l, Double_t* m) const { TGeoNode* q = GetCurrentNode(); for (int k = 0; k < 3; ++k) m[k] = l[k] + (q->lo[k] + q->hi[k]) / 2; }
};
class TGDMLParse {
public:
  TGeoVolume* GDMLReadFile(const char* file);
};
#endif
