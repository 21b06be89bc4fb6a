// generated by tools/gencalls.py: every method of every wrapper class, called with harmless arguments
#pragma once
struct Call { const char* name; bool failed; };
struct DropHandle { void operator()(DLL_IGES_ENTITY** p) const { delete *p; } };
inline int ncalls(DLL_IGES_ENTITY*) { return 58 + 0; }
template <class W> Call call(DLL_IGES_ENTITY& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY::GetNOptionalEntities(int&)"; int a0 = int(); c.failed = !h.GetNOptionalEntities(a0); break; }
    case 1: { c.name = "IGES_ENTITY::GetOptionalEntities(size_t&, IGES_ENTITY**&)"; size_t a0 = size_t(); IGES_ENTITY** a1 = 0; c.failed = !h.GetOptionalEntities(a0, a1); break; }
    case 2: { c.name = "IGES_ENTITY::AddOptionalEntity(IGES_ENTITY*)"; c.failed = !h.AddOptionalEntity(w.line.GetRawPtr()); break; }
    case 3: { c.name = "IGES_ENTITY::AddOptionalEntity(DLL_IGES_ENTITY&)"; c.failed = !h.AddOptionalEntity(w.line); break; }
    case 4: { c.name = "IGES_ENTITY::DelOptionalEntity(IGES_ENTITY*)"; c.failed = !h.DelOptionalEntity(w.line.GetRawPtr()); break; }
    case 5: { c.name = "IGES_ENTITY::DelOptionalEntity(DLL_IGES_ENTITY&)"; c.failed = !h.DelOptionalEntity(w.line); break; }
    case 6: { c.name = "IGES_ENTITY::GetNComments(int&)"; int a0 = int(); c.failed = !h.GetNComments(a0); break; }
    case 7: { c.name = "IGES_ENTITY::GetComments(size_t&, char const**&)"; size_t a0 = size_t(); char const** a1 = 0; c.failed = !h.GetComments(a0, a1); break; }
    case 8: { c.name = "IGES_ENTITY::AddComment(const char*&)"; const char* a0 = "text"; c.failed = !h.AddComment(a0); break; }
    case 9: { c.name = "IGES_ENTITY::DelComment(int)"; int a0 = (int)1; c.failed = !h.DelComment(a0); break; }
    case 10: { c.name = "IGES_ENTITY::ClearComments()"; c.failed = !h.ClearComments(); break; }
    case 11: { c.name = "IGES_ENTITY::SetParentIGES(IGES*)"; c.failed = !h.SetParentIGES(w.model.GetRawPtr()); break; }
    case 12: { c.name = "IGES_ENTITY::SetParentIGES(DLL_IGES&)"; c.failed = !h.SetParentIGES(w.model); break; }
    case 13: { c.name = "IGES_ENTITY::GetParentIGES(IGES*&)"; IGES* a0 = 0; c.failed = !h.GetParentIGES(a0); break; }
    case 14: { c.name = "IGES_ENTITY::GetEntityType(int&)"; int a0 = int(); c.failed = !h.GetEntityType(a0); break; }
    case 15: { c.name = "IGES_ENTITY::GetEntityForm(int&)"; int a0 = int(); c.failed = !h.GetEntityForm(a0); break; }
    case 16: { c.name = "IGES_ENTITY::SetEntityForm(int)"; int a0 = (int)1; c.failed = !h.SetEntityForm(a0); break; }
    case 17: { c.name = "IGES_ENTITY::SetStructure(IGES_ENTITY*)"; c.failed = !h.SetStructure(w.line.GetRawPtr()); break; }
    case 18: { c.name = "IGES_ENTITY::SetStructure(DLL_IGES_ENTITY&)"; c.failed = !h.SetStructure(w.line); break; }
    case 19: { c.name = "IGES_ENTITY::GetStructure(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetStructure(a0); break; }
    case 20: { c.name = "IGES_ENTITY::SetLineFontPattern(IGES_LINEFONT_PATTERN)"; IGES_LINEFONT_PATTERN a0 = (IGES_LINEFONT_PATTERN)1; c.failed = !h.SetLineFontPattern(a0); break; }
    case 21: { c.name = "IGES_ENTITY::SetLineFontPattern(DLL_IGES_ENTITY&)"; c.failed = !h.SetLineFontPattern(w.line); break; }
    case 22: { c.name = "IGES_ENTITY::SetLineFontPattern(IGES_ENTITY*)"; c.failed = !h.SetLineFontPattern(w.line.GetRawPtr()); break; }
    case 23: { c.name = "IGES_ENTITY::GetLineFontPattern(IGES_LINEFONT_PATTERN&)"; IGES_LINEFONT_PATTERN a0 = IGES_LINEFONT_PATTERN(); c.failed = !h.GetLineFontPattern(a0); break; }
    case 24: { c.name = "IGES_ENTITY::GetLineFontPatternEntity(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetLineFontPatternEntity(a0); break; }
    case 25: { c.name = "IGES_ENTITY::SetLevel(int)"; int a0 = (int)1; c.failed = !h.SetLevel(a0); break; }
    case 26: { c.name = "IGES_ENTITY::SetLevel(DLL_IGES_ENTITY&)"; c.failed = !h.SetLevel(w.line); break; }
    case 27: { c.name = "IGES_ENTITY::SetLevel(IGES_ENTITY*)"; c.failed = !h.SetLevel(w.line.GetRawPtr()); break; }
    case 28: { c.name = "IGES_ENTITY::GetLevel(int&)"; int a0 = int(); c.failed = !h.GetLevel(a0); break; }
    case 29: { c.name = "IGES_ENTITY::GetLevelEntity(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetLevelEntity(a0); break; }
    case 30: { c.name = "IGES_ENTITY::SetView(DLL_IGES_ENTITY&)"; c.failed = !h.SetView(w.line); break; }
    case 31: { c.name = "IGES_ENTITY::SetView(IGES_ENTITY*)"; c.failed = !h.SetView(w.line.GetRawPtr()); break; }
    case 32: { c.name = "IGES_ENTITY::GetView(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetView(a0); break; }
    case 33: { c.name = "IGES_ENTITY::SetTransform(DLL_IGES_ENTITY&)"; c.failed = !h.SetTransform(w.line); break; }
    case 34: { c.name = "IGES_ENTITY::SetTransform(IGES_ENTITY*)"; c.failed = !h.SetTransform(w.line.GetRawPtr()); break; }
    case 35: { c.name = "IGES_ENTITY::GetTransform(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetTransform(a0); break; }
    case 36: { c.name = "IGES_ENTITY::SetLabelAssoc(DLL_IGES_ENTITY&)"; c.failed = !h.SetLabelAssoc(w.line); break; }
    case 37: { c.name = "IGES_ENTITY::SetLabelAssoc(IGES_ENTITY*)"; c.failed = !h.SetLabelAssoc(w.line.GetRawPtr()); break; }
    case 38: { c.name = "IGES_ENTITY::GetLabelAssoc(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetLabelAssoc(a0); break; }
    case 39: { c.name = "IGES_ENTITY::SetColor(IGES_COLOR)"; IGES_COLOR a0 = (IGES_COLOR)1; c.failed = !h.SetColor(a0); break; }
    case 40: { c.name = "IGES_ENTITY::SetColor(DLL_IGES_ENTITY_314&)"; c.failed = !h.SetColor(w.colour); break; }
    case 41: { c.name = "IGES_ENTITY::SetColor(IGES_ENTITY*)"; c.failed = !h.SetColor(w.line.GetRawPtr()); break; }
    case 42: { c.name = "IGES_ENTITY::GetColor(IGES_COLOR&)"; IGES_COLOR a0 = IGES_COLOR(); c.failed = !h.GetColor(a0); break; }
    case 43: { c.name = "IGES_ENTITY::GetColorEntity(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetColorEntity(a0); break; }
    case 44: { c.name = "IGES_ENTITY::SetLineWeightNum(int)"; int a0 = (int)1; c.failed = !h.SetLineWeightNum(a0); break; }
    case 45: { c.name = "IGES_ENTITY::GetLineWeightNum(int&)"; int a0 = int(); c.failed = !h.GetLineWeightNum(a0); break; }
    case 46: { c.name = "IGES_ENTITY::SetLabel(const char*)"; c.failed = !h.SetLabel("text"); break; }
    case 47: { c.name = "IGES_ENTITY::GetLabel(char const*&)"; const char* a0 = "text"; c.failed = !h.GetLabel(a0); break; }
    case 48: { c.name = "IGES_ENTITY::SetEntitySubscript(int)"; int a0 = (int)1; c.failed = !h.SetEntitySubscript(a0); break; }
    case 49: { c.name = "IGES_ENTITY::GetEntitySubscript(int&)"; int a0 = int(); c.failed = !h.GetEntitySubscript(a0); break; }
    case 50: { c.name = "IGES_ENTITY::SetVisibility(bool)"; bool a0 = (bool)1; c.failed = !h.SetVisibility(a0); break; }
    case 51: { c.name = "IGES_ENTITY::GetVisibility(bool&)"; bool a0 = bool(); c.failed = !h.GetVisibility(a0); break; }
    case 52: { c.name = "IGES_ENTITY::SetDependency(IGES_STAT_DEPENDS)"; IGES_STAT_DEPENDS a0 = (IGES_STAT_DEPENDS)1; c.failed = !h.SetDependency(a0); break; }
    case 53: { c.name = "IGES_ENTITY::GetDependency(IGES_STAT_DEPENDS&)"; IGES_STAT_DEPENDS a0 = IGES_STAT_DEPENDS(); c.failed = !h.GetDependency(a0); break; }
    case 54: { c.name = "IGES_ENTITY::SetEntityUse(IGES_STAT_USE)"; IGES_STAT_USE a0 = (IGES_STAT_USE)1; c.failed = !h.SetEntityUse(a0); break; }
    case 55: { c.name = "IGES_ENTITY::GetEntityUse(IGES_STAT_USE&)"; IGES_STAT_USE a0 = IGES_STAT_USE(); c.failed = !h.GetEntityUse(a0); break; }
    case 56: { c.name = "IGES_ENTITY::SetHierarchy(IGES_STAT_HIER)"; IGES_STAT_HIER a0 = (IGES_STAT_HIER)1; c.failed = !h.SetHierarchy(a0); break; }
    case 57: { c.name = "IGES_ENTITY::GetHierarchy(IGES_STAT_HIER&)"; IGES_STAT_HIER a0 = IGES_STAT_HIER(); c.failed = !h.GetHierarchy(a0); break; }
    default: break; } return c; }
inline int ncalls(DLL_IGES_CURVE*) { return 6 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_CURVE& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_CURVE::IsClosed()"; c.failed = !h.IsClosed(); break; }
    case 1: { c.name = "IGES_CURVE::GetNCurves()"; c.failed = !(h.GetNCurves() > 0); break; }
    case 2: { c.name = "IGES_CURVE::GetCurve(int)"; int a0 = (int)1; c.failed = h.GetCurve(a0) == 0; break; }
    case 3: { c.name = "IGES_CURVE::GetStartPoint(MCAD_POINT&, bool)"; MCAD_POINT a0 = MCAD_POINT(); bool a1 = (bool)1; c.failed = !h.GetStartPoint(a0, a1); break; }
    case 4: { c.name = "IGES_CURVE::GetEndPoint(MCAD_POINT&, bool)"; MCAD_POINT a0 = MCAD_POINT(); bool a1 = (bool)1; c.failed = !h.GetEndPoint(a0, a1); break; }
    case 5: { c.name = "IGES_CURVE::GetNSegments()"; c.failed = !(h.GetNSegments() > 0); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 6, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_100*) { return 12 + ncalls((DLL_IGES_CURVE*)0); }
template <class W> Call call(DLL_IGES_ENTITY_100& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_100::GetCircleCenter(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetCircleCenter(a0, a1, a2); break; }
    case 1: { c.name = "IGES_ENTITY_100::GetCircleCenter(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetCircleCenter(a0); break; }
    case 2: { c.name = "IGES_ENTITY_100::GetCircleStart(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetCircleStart(a0, a1, a2); break; }
    case 3: { c.name = "IGES_ENTITY_100::GetCircleStart(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetCircleStart(a0); break; }
    case 4: { c.name = "IGES_ENTITY_100::GetCircleEnd(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetCircleEnd(a0, a1, a2); break; }
    case 5: { c.name = "IGES_ENTITY_100::GetCircleEnd(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetCircleEnd(a0); break; }
    case 6: { c.name = "IGES_ENTITY_100::SetCircleCenter(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetCircleCenter(a0, a1, a2); break; }
    case 7: { c.name = "IGES_ENTITY_100::SetCircleCenter(const MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetCircleCenter(a0); break; }
    case 8: { c.name = "IGES_ENTITY_100::SetCircleStart(double, double)"; double a0 = (double)1; double a1 = (double)1; c.failed = !h.SetCircleStart(a0, a1); break; }
    case 9: { c.name = "IGES_ENTITY_100::SetCircleStart(const MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetCircleStart(a0); break; }
    case 10: { c.name = "IGES_ENTITY_100::SetCircleEnd(double, double)"; double a0 = (double)1; double a1 = (double)1; c.failed = !h.SetCircleEnd(a0, a1); break; }
    case 11: { c.name = "IGES_ENTITY_100::SetCircleEnd(const MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetCircleEnd(a0); break; }
    default: return call((DLL_IGES_CURVE&)h, k - 12, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_102*) { return 2 + ncalls((DLL_IGES_CURVE*)0); }
template <class W> Call call(DLL_IGES_ENTITY_102& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_102::AddSegment(IGES_CURVE*)"; c.failed = !h.AddSegment((IGES_CURVE*)w.line.GetRawPtr()); break; }
    case 1: { c.name = "IGES_ENTITY_102::AddSegment(DLL_IGES_CURVE&)"; c.failed = !h.AddSegment(w.line); break; }
    default: return call((DLL_IGES_CURVE&)h, k - 2, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_104*) { return 10 + ncalls((DLL_IGES_CURVE*)0); }
template <class W> Call call(DLL_IGES_ENTITY_104& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_104::GetConicStart(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetConicStart(a0); break; }
    case 1: { c.name = "IGES_ENTITY_104::GetConicStart(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetConicStart(a0, a1, a2); break; }
    case 2: { c.name = "IGES_ENTITY_104::GetConicEnd(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetConicEnd(a0, a1, a2); break; }
    case 3: { c.name = "IGES_ENTITY_104::GetConicEnd(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetConicEnd(a0); break; }
    case 4: { c.name = "IGES_ENTITY_104::GetConicParams(double&, double&, double&, double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); double a3 = double(); double a4 = double(); double a5 = double(); c.failed = !h.GetConicParams(a0, a1, a2, a3, a4, a5); break; }
    case 5: { c.name = "IGES_ENTITY_104::SetConicStart(MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetConicStart(a0); break; }
    case 6: { c.name = "IGES_ENTITY_104::SetConicStart(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetConicStart(a0, a1, a2); break; }
    case 7: { c.name = "IGES_ENTITY_104::SetConicEnd(MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetConicEnd(a0); break; }
    case 8: { c.name = "IGES_ENTITY_104::SetConicEnd(double, double)"; double a0 = (double)1; double a1 = (double)1; c.failed = !h.SetConicEnd(a0, a1); break; }
    case 9: { c.name = "IGES_ENTITY_104::SetConicParams(double, double, double, double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; double a3 = (double)1; double a4 = (double)1; double a5 = (double)1; c.failed = !h.SetConicParams(a0, a1, a2, a3, a4, a5); break; }
    default: return call((DLL_IGES_CURVE&)h, k - 10, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_110*) { return 8 + ncalls((DLL_IGES_CURVE*)0); }
template <class W> Call call(DLL_IGES_ENTITY_110& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_110::GetLineStart(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetLineStart(a0); break; }
    case 1: { c.name = "IGES_ENTITY_110::GetLineStart(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetLineStart(a0, a1, a2); break; }
    case 2: { c.name = "IGES_ENTITY_110::GetLineEnd(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetLineEnd(a0); break; }
    case 3: { c.name = "IGES_ENTITY_110::GetLineEnd(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetLineEnd(a0, a1, a2); break; }
    case 4: { c.name = "IGES_ENTITY_110::SetLineStart(MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetLineStart(a0); break; }
    case 5: { c.name = "IGES_ENTITY_110::SetLineStart(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetLineStart(a0, a1, a2); break; }
    case 6: { c.name = "IGES_ENTITY_110::SetLineEnd(MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetLineEnd(a0); break; }
    case 7: { c.name = "IGES_ENTITY_110::SetLineEnd(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetLineEnd(a0, a1, a2); break; }
    default: return call((DLL_IGES_CURVE&)h, k - 8, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_120*) { return 8 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_120& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_120::GetAxis(IGES_CURVE**)"; IGES_CURVE* a0 = 0; c.failed = !h.GetAxis(&a0); break; }
    case 1: { c.name = "IGES_ENTITY_120::SetAxis(IGES_CURVE*)"; c.failed = !h.SetAxis((IGES_CURVE*)w.line.GetRawPtr()); break; }
    case 2: { c.name = "IGES_ENTITY_120::SetAxis(DLL_IGES_CURVE&)"; c.failed = !h.SetAxis(w.line); break; }
    case 3: { c.name = "IGES_ENTITY_120::GetGeneratrix(IGES_CURVE**)"; IGES_CURVE* a0 = 0; c.failed = !h.GetGeneratrix(&a0); break; }
    case 4: { c.name = "IGES_ENTITY_120::SetGeneratrix(IGES_CURVE*)"; c.failed = !h.SetGeneratrix((IGES_CURVE*)w.line.GetRawPtr()); break; }
    case 5: { c.name = "IGES_ENTITY_120::SetGeneratrix(DLL_IGES_CURVE&)"; c.failed = !h.SetGeneratrix(w.line); break; }
    case 6: { c.name = "IGES_ENTITY_120::GetAngles(double&, double&)"; double a0 = double(); double a1 = double(); c.failed = !h.GetAngles(a0, a1); break; }
    case 7: { c.name = "IGES_ENTITY_120::SetAngles(double, double)"; double a0 = (double)1; double a1 = (double)1; c.failed = !h.SetAngles(a0, a1); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 8, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_122*) { return 6 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_122& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_122::GetGeneratrixEnd(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetGeneratrixEnd(a0); break; }
    case 1: { c.name = "IGES_ENTITY_122::GetGeneratrixEnd(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetGeneratrixEnd(a0, a1, a2); break; }
    case 2: { c.name = "IGES_ENTITY_122::GetDirectrix(IGES_CURVE*&)"; IGES_CURVE* a0 = 0; c.failed = !h.GetDirectrix(a0); break; }
    case 3: { c.name = "IGES_ENTITY_122::SetGeneratrixEnd(MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.SetGeneratrixEnd(a0); break; }
    case 4: { c.name = "IGES_ENTITY_122::SetGeneratrixEnd(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetGeneratrixEnd(a0, a1, a2); break; }
    case 5: { c.name = "IGES_ENTITY_122::SetDirectrix(IGES_CURVE*)"; c.failed = !h.SetDirectrix((IGES_CURVE*)w.line.GetRawPtr()); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 6, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_124*) { return 4 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_124& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_124::GetOverallTransform(MCAD_TRANSFORM&)"; MCAD_TRANSFORM a0 = MCAD_TRANSFORM(); c.failed = !h.GetOverallTransform(a0); break; }
    case 1: { c.name = "IGES_ENTITY_124::GetRootTransform(MCAD_TRANSFORM&)"; MCAD_TRANSFORM a0 = MCAD_TRANSFORM(); c.failed = !h.GetRootTransform(a0); break; }
    case 2: { c.name = "IGES_ENTITY_124::SetRootTransform(MCAD_TRANSFORM*)"; MCAD_TRANSFORM* a0 = 0; c.failed = !h.SetRootTransform(a0); break; }
    case 3: { c.name = "IGES_ENTITY_124::SetRootTransform(MCAD_TRANSFORM&)"; MCAD_TRANSFORM a0 = MCAD_TRANSFORM(); c.failed = !h.SetRootTransform(a0); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 4, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_126*) { return 6 + ncalls((DLL_IGES_CURVE*)0); }
template <class W> Call call(DLL_IGES_ENTITY_126& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_126::GetNURBSData(int&, int&, double**, double**, bool&, bool&, bool&, double&, double&)"; int a0 = int(); int a1 = int(); double* a2 = 0; double* a3 = 0; bool a4 = bool(); bool a5 = bool(); bool a6 = bool(); double a7 = double(); double a8 = double(); c.failed = !h.GetNURBSData(a0, a1, &a2, &a3, a4, a5, a6, a7, a8); break; }
    case 1: { c.name = "IGES_ENTITY_126::SetNURBSData(int, int, const double*, const double*, bool, double, double)"; int a0 = (int)1; int a1 = (int)1; double a2[64] = {0}; double a3[64] = {0}; bool a4 = (bool)1; double a5 = (double)1; double a6 = (double)1; c.failed = !h.SetNURBSData(a0, a1, a2, a3, a4, a5, a6); break; }
    case 2: { c.name = "IGES_ENTITY_126::IsPlanar(bool&)"; bool a0 = bool(); c.failed = !h.IsPlanar(a0); break; }
    case 3: { c.name = "IGES_ENTITY_126::IsRational(bool&)"; bool a0 = bool(); c.failed = !h.IsRational(a0); break; }
    case 4: { c.name = "IGES_ENTITY_126::isPeriodic(bool&)"; bool a0 = bool(); c.failed = !h.isPeriodic(a0); break; }
    case 5: { c.name = "IGES_ENTITY_126::GetNormal(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetNormal(a0); break; }
    default: return call((DLL_IGES_CURVE&)h, k - 6, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_128*) { return 7 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_128& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_128::GetNURBSData(int&, int&, int&, int&, double**, double**, double**, bool&, bool&, bool&, bool&, bool&, double&, double&, double&, double&)"; int a0 = int(); int a1 = int(); int a2 = int(); int a3 = int(); double* a4 = 0; double* a5 = 0; double* a6 = 0; bool a7 = bool(); bool a8 = bool(); bool a9 = bool(); bool a10 = bool(); bool a11 = bool(); double a12 = double(); double a13 = double(); double a14 = double(); double a15 = double(); c.failed = !h.GetNURBSData(a0, a1, a2, a3, &a4, &a5, &a6, a7, a8, a9, a10, a11, a12, a13, a14, a15); break; }
    case 1: { c.name = "IGES_ENTITY_128::SetNURBSData(int, int, int, int, const double*, const double*, const double*, bool, bool, bool, double, double, double, double)"; int a0 = (int)1; int a1 = (int)1; int a2 = (int)1; int a3 = (int)1; double a4[64] = {0}; double a5[64] = {0}; double a6[64] = {0}; bool a7 = (bool)1; bool a8 = (bool)1; bool a9 = (bool)1; double a10 = (double)1; double a11 = (double)1; double a12 = (double)1; double a13 = (double)1; c.failed = !h.SetNURBSData(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13); break; }
    case 2: { c.name = "IGES_ENTITY_128::IsRational(bool&)"; bool a0 = bool(); c.failed = !h.IsRational(a0); break; }
    case 3: { c.name = "IGES_ENTITY_128::isClosed1(bool&)"; bool a0 = bool(); c.failed = !h.isClosed1(a0); break; }
    case 4: { c.name = "IGES_ENTITY_128::isClosed2(bool&)"; bool a0 = bool(); c.failed = !h.isClosed2(a0); break; }
    case 5: { c.name = "IGES_ENTITY_128::isPeriodic1(bool&)"; bool a0 = bool(); c.failed = !h.isPeriodic1(a0); break; }
    case 6: { c.name = "IGES_ENTITY_128::isPeriodic2(bool&)"; bool a0 = bool(); c.failed = !h.isPeriodic2(a0); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 7, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_142*) { return 13 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_142& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_142::GetSurface(IGES_ENTITY**)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetSurface(&a0); break; }
    case 1: { c.name = "IGES_ENTITY_142::SetSurface(IGES_ENTITY*)"; c.failed = !h.SetSurface(w.line.GetRawPtr()); break; }
    case 2: { c.name = "IGES_ENTITY_142::SetSurface(DLL_IGES_ENTITY&)"; c.failed = !h.SetSurface(w.line); break; }
    case 3: { c.name = "IGES_ENTITY_142::GetParameterSpaceBound(IGES_ENTITY**)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetParameterSpaceBound(&a0); break; }
    case 4: { c.name = "IGES_ENTITY_142::SetParameterSpaceBound(IGES_ENTITY*)"; c.failed = !h.SetParameterSpaceBound(w.line.GetRawPtr()); break; }
    case 5: { c.name = "IGES_ENTITY_142::SetParameterSpaceBound(DLL_IGES_ENTITY&)"; c.failed = !h.SetParameterSpaceBound(w.line); break; }
    case 6: { c.name = "IGES_ENTITY_142::GetModelSpaceBound(IGES_ENTITY**)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetModelSpaceBound(&a0); break; }
    case 7: { c.name = "IGES_ENTITY_142::SetModelSpaceBound(IGES_ENTITY*)"; c.failed = !h.SetModelSpaceBound(w.line.GetRawPtr()); break; }
    case 8: { c.name = "IGES_ENTITY_142::SetModelSpaceBound(DLL_IGES_ENTITY&)"; c.failed = !h.SetModelSpaceBound(w.line); break; }
    case 9: { c.name = "IGES_ENTITY_142::GetCurvePreference(BOUND_CURVE_PREF&)"; BOUND_CURVE_PREF a0 = BOUND_CURVE_PREF(); c.failed = !h.GetCurvePreference(a0); break; }
    case 10: { c.name = "IGES_ENTITY_142::SetCurvePreference(BOUND_CURVE_PREF)"; BOUND_CURVE_PREF a0 = (BOUND_CURVE_PREF)1; c.failed = !h.SetCurvePreference(a0); break; }
    case 11: { c.name = "IGES_ENTITY_142::GetCurveCreationFlag(CURVE_CREATION&)"; CURVE_CREATION a0 = CURVE_CREATION(); c.failed = !h.GetCurveCreationFlag(a0); break; }
    case 12: { c.name = "IGES_ENTITY_142::SetCurveCreationFlag(CURVE_CREATION)"; CURVE_CREATION a0 = (CURVE_CREATION)1; c.failed = !h.SetCurveCreationFlag(a0); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 13, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_144*) { return 12 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_144& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_144::GetSurface(IGES_ENTITY*&)"; IGES_ENTITY* a0 = 0; c.failed = !h.GetSurface(a0); break; }
    case 1: { c.name = "IGES_ENTITY_144::SetSurface(IGES_ENTITY*)"; c.failed = !h.SetSurface(w.line.GetRawPtr()); break; }
    case 2: { c.name = "IGES_ENTITY_144::SetSurface(DLL_IGES_ENTITY&)"; c.failed = !h.SetSurface(w.line); break; }
    case 3: { c.name = "IGES_ENTITY_144::GetBoundCurve(IGES_ENTITY_142*&)"; IGES_ENTITY_142* a0 = 0; c.failed = !h.GetBoundCurve(a0); break; }
    case 4: { c.name = "IGES_ENTITY_144::SetBoundCurve(IGES_ENTITY_142*)"; c.failed = !h.SetBoundCurve((IGES_ENTITY_142*)w.c142.GetRawPtr()); break; }
    case 5: { c.name = "IGES_ENTITY_144::SetBoundCurve(DLL_IGES_ENTITY_142&)"; c.failed = !h.SetBoundCurve(w.c142); break; }
    case 6: { c.name = "IGES_ENTITY_144::GetNCutouts(int&)"; int a0 = int(); c.failed = !h.GetNCutouts(a0); break; }
    case 7: { c.name = "IGES_ENTITY_144::GetCutouts(size_t&, IGES_ENTITY_142**&)"; size_t a0 = size_t(); IGES_ENTITY_142** a1 = 0; c.failed = !h.GetCutouts(a0, a1); break; }
    case 8: { c.name = "IGES_ENTITY_144::AddCutout(IGES_ENTITY_142*)"; c.failed = !h.AddCutout((IGES_ENTITY_142*)w.c142.GetRawPtr()); break; }
    case 9: { c.name = "IGES_ENTITY_144::AddCutout(DLL_IGES_ENTITY_142&)"; c.failed = !h.AddCutout(w.c142); break; }
    case 10: { c.name = "IGES_ENTITY_144::DelCutout(IGES_ENTITY_142*)"; c.failed = !h.DelCutout((IGES_ENTITY_142*)w.c142.GetRawPtr()); break; }
    case 11: { c.name = "IGES_ENTITY_144::DelCutout(DLL_IGES_ENTITY_142&)"; c.failed = !h.DelCutout(w.c142); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 12, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_308*) { return 9 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_308& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_308::GetNumDE(size_t&)"; size_t a0 = size_t(); c.failed = !h.GetNumDE(a0); break; }
    case 1: { c.name = "IGES_ENTITY_308::GetDEList(size_t&, IGES_ENTITY**&)"; size_t a0 = size_t(); IGES_ENTITY** a1 = 0; c.failed = !h.GetDEList(a0, a1); break; }
    case 2: { c.name = "IGES_ENTITY_308::AddDE(IGES_ENTITY*)"; c.failed = !h.AddDE(w.line.GetRawPtr()); break; }
    case 3: { c.name = "IGES_ENTITY_308::AddDE(DLL_IGES_ENTITY*&)"; DLL_IGES_ENTITY* a0 = new DLL_IGES_ENTITY_110(w.model, true); std::unique_ptr<DLL_IGES_ENTITY*, DropHandle> d0(&a0); c.failed = !h.AddDE(a0); break; }
    case 4: { c.name = "IGES_ENTITY_308::DelDE(IGES_ENTITY*)"; c.failed = !h.DelDE(w.line.GetRawPtr()); break; }
    case 5: { c.name = "IGES_ENTITY_308::DelDE(DLL_IGES_ENTITY*&)"; DLL_IGES_ENTITY* a0 = new DLL_IGES_ENTITY_110(w.model, true); std::unique_ptr<DLL_IGES_ENTITY*, DropHandle> d0(&a0); c.failed = !h.DelDE(a0); break; }
    case 6: { c.name = "IGES_ENTITY_308::GetNestDepth(int&)"; int a0 = int(); c.failed = !h.GetNestDepth(a0); break; }
    case 7: { c.name = "IGES_ENTITY_308::GetName(const char*&)"; const char* a0 = "text"; c.failed = !h.GetName(a0); break; }
    case 8: { c.name = "IGES_ENTITY_308::SetName(const char*)"; c.failed = !h.SetName("text"); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 9, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_314*) { return 4 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_314& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_314::GetColor(double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); c.failed = !h.GetColor(a0, a1, a2); break; }
    case 1: { c.name = "IGES_ENTITY_314::SetColor(double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; c.failed = !h.SetColor(a0, a1, a2); break; }
    case 2: { c.name = "IGES_ENTITY_314::GetName(const char*&)"; const char* a0 = "text"; c.failed = !h.GetName(a0); break; }
    case 3: { c.name = "IGES_ENTITY_314::SetName(const char*)"; c.failed = !h.SetName("text"); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 4, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_406*) { return 2 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_406& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_406::GetProperty_Name()"; c.failed = h.GetProperty_Name() == 0; break; }
    case 1: { c.name = "IGES_ENTITY_406::SetProperty_Name(const char*)"; c.failed = !h.SetProperty_Name("text"); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 2, w); } return c; }
inline int ncalls(DLL_IGES_ENTITY_408*) { return 6 + ncalls((DLL_IGES_ENTITY*)0); }
template <class W> Call call(DLL_IGES_ENTITY_408& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_ENTITY_408::GetSubfigure(IGES_ENTITY_308*&)"; IGES_ENTITY_308* a0 = 0; c.failed = !h.GetSubfigure(a0); break; }
    case 1: { c.name = "IGES_ENTITY_408::SetSubfigure(IGES_ENTITY_308*)"; c.failed = !h.SetSubfigure((IGES_ENTITY_308*)w.sub.GetRawPtr()); break; }
    case 2: { c.name = "IGES_ENTITY_408::GetSubfigParams(double&, double&, double&, double&)"; double a0 = double(); double a1 = double(); double a2 = double(); double a3 = double(); c.failed = !h.GetSubfigParams(a0, a1, a2, a3); break; }
    case 3: { c.name = "IGES_ENTITY_408::SetSubfigParams(double, double, double, double)"; double a0 = (double)1; double a1 = (double)1; double a2 = (double)1; double a3 = (double)1; c.failed = !h.SetSubfigParams(a0, a1, a2, a3); break; }
    case 4: { c.name = "IGES_ENTITY_408::GetDE(IGES_ENTITY_308*&)"; IGES_ENTITY_308* a0 = 0; c.failed = !h.GetDE(a0); break; }
    case 5: { c.name = "IGES_ENTITY_408::SetDE(IGES_ENTITY_308*)"; c.failed = !h.SetDE((IGES_ENTITY_308*)w.sub.GetRawPtr()); break; }
    default: return call((DLL_IGES_ENTITY&)h, k - 6, w); } return c; }
inline int ncalls(DLL_IGES*) { return 47 + 0; }
template <class W> Call call(DLL_IGES& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES::Compact()"; c.failed = (h.Compact(), true); break; }
    case 1: { c.name = "IGES::Cull(bool)"; bool a0 = (bool)1; c.failed = (h.Cull(a0), true); break; }
    case 2: { c.name = "IGES::Clear()"; c.failed = !h.Clear(); break; }
    case 3: { c.name = "IGES::Read(const char*)"; c.failed = !h.Read(w.file.c_str()); break; }
    case 4: { c.name = "IGES::Write(const char*, bool)"; bool a1 = (bool)1; c.failed = !h.Write(w.file.c_str(), a1); break; }
    case 5: { c.name = "IGES::Export(DLL_IGES*, IGES_ENTITY_308**)"; IGES_ENTITY_308* a1 = 0; c.failed = !h.Export(&w.model, &a1); break; }
    case 6: { c.name = "IGES::Export(IGES*, IGES_ENTITY_308**)"; IGES_ENTITY_308* a1 = 0; c.failed = !h.Export(w.model.GetRawPtr(), &a1); break; }
    case 7: { c.name = "IGES::GetNewPartName()"; c.failed = h.GetNewPartName() == 0; break; }
    case 8: { c.name = "IGES::GetNewAssemblyName(char*)"; char* a0 = 0; c.failed = h.GetNewAssemblyName(a0) == 0; break; }
    case 9: { c.name = "IGES::NewAPIEntity(IGES_ENTITY_TYPE, DLL_IGES_ENTITY*&)"; IGES_ENTITY_TYPE a0 = (IGES_ENTITY_TYPE)1; DLL_IGES_ENTITY* a1 = new DLL_IGES_ENTITY_110(w.model, true); std::unique_ptr<DLL_IGES_ENTITY*, DropHandle> d1(&a1); c.failed = !h.NewAPIEntity(a0, a1); break; }
    case 10: { c.name = "IGES::NewIGESEntity(IGES_ENTITY_TYPE, IGES_ENTITY**)"; IGES_ENTITY_TYPE a0 = (IGES_ENTITY_TYPE)1; IGES_ENTITY* a1 = 0; c.failed = !h.NewIGESEntity(a0, &a1); break; }
    case 11: { c.name = "IGES::AddEntity(DLL_IGES_ENTITY*)"; c.failed = !h.AddEntity(&w.line); break; }
    case 12: { c.name = "IGES::AddEntity(IGES_ENTITY*)"; c.failed = !h.AddEntity(w.line.GetRawPtr()); break; }
    case 13: { c.name = "IGES::UnlinkEntity(DLL_IGES_ENTITY*)"; c.failed = !h.UnlinkEntity(&w.line); break; }
    case 14: { c.name = "IGES::UnlinkEntity(IGES_ENTITY*)"; c.failed = !h.UnlinkEntity(w.line.GetRawPtr()); break; }
    case 15: { c.name = "IGES::ConvertUnits(IGES_UNIT)"; IGES_UNIT a0 = (IGES_UNIT)1; c.failed = !h.ConvertUnits(a0); break; }
    case 16: { c.name = "IGES::ChangeModelScale(double)"; double a0 = (double)1; c.failed = !h.ChangeModelScale(a0); break; }
    case 17: { c.name = "IGES::GetHeaders(size_t&, char const**&)"; size_t a0 = size_t(); char const** a1 = 0; c.failed = !h.GetHeaders(a0, a1); break; }
    case 18: { c.name = "IGES::GetNHeaderLines()"; c.failed = !(h.GetNHeaderLines() > 0); break; }
    case 19: { c.name = "IGES::AddToHeader(char const*&)"; const char* a0 = "text"; c.failed = !h.AddToHeader(a0); break; }
    case 20: { c.name = "IGES::GetProductID_SendingSystem(char const*&)"; const char* a0 = "text"; c.failed = !h.GetProductID_SendingSystem(a0); break; }
    case 21: { c.name = "IGES::SetProductID_SendingSystem(char const*)"; c.failed = !h.SetProductID_SendingSystem("text"); break; }
    case 22: { c.name = "IGES::GetNativeSystemID(char const*&)"; const char* a0 = "text"; c.failed = !h.GetNativeSystemID(a0); break; }
    case 23: { c.name = "IGES::SetNativeSystemID(char const*)"; c.failed = !h.SetNativeSystemID("text"); break; }
    case 24: { c.name = "IGES::GetPreprocessorVersion(char const*&)"; const char* a0 = "text"; c.failed = !h.GetPreprocessorVersion(a0); break; }
    case 25: { c.name = "IGES::GetProductID_ReceivingSystem(char const*&)"; const char* a0 = "text"; c.failed = !h.GetProductID_ReceivingSystem(a0); break; }
    case 26: { c.name = "IGES::SetProductID_ReceivingSystem(char const*)"; c.failed = !h.SetProductID_ReceivingSystem("text"); break; }
    case 27: { c.name = "IGES::GetUnitsFlag(IGES_UNIT&)"; IGES_UNIT a0 = IGES_UNIT(); c.failed = !h.GetUnitsFlag(a0); break; }
    case 28: { c.name = "IGES::SetUnitsFlag(IGES_UNIT)"; IGES_UNIT a0 = (IGES_UNIT)1; c.failed = !h.SetUnitsFlag(a0); break; }
    case 29: { c.name = "IGES::GetUnitsName(char const*&)"; const char* a0 = "text"; c.failed = !h.GetUnitsName(a0); break; }
    case 30: { c.name = "IGES::GetMaxLineWidthGrad(int&)"; int a0 = int(); c.failed = !h.GetMaxLineWidthGrad(a0); break; }
    case 31: { c.name = "IGES::SetMaxLineWidthGrad(int)"; int a0 = (int)1; c.failed = !h.SetMaxLineWidthGrad(a0); break; }
    case 32: { c.name = "IGES::GetMaxLineWidth(double&)"; double a0 = double(); c.failed = !h.GetMaxLineWidth(a0); break; }
    case 33: { c.name = "IGES::SetMaxLineWidth(double)"; double a0 = (double)1; c.failed = !h.SetMaxLineWidth(a0); break; }
    case 34: { c.name = "IGES::GetCreationDate(char const*&)"; const char* a0 = "text"; c.failed = !h.GetCreationDate(a0); break; }
    case 35: { c.name = "IGES::GetMinResolution(double&)"; double a0 = double(); c.failed = !h.GetMinResolution(a0); break; }
    case 36: { c.name = "IGES::SetMinResolution(double)"; double a0 = (double)1; c.failed = !h.SetMinResolution(a0); break; }
    case 37: { c.name = "IGES::GetAuthor(char const*&)"; const char* a0 = "text"; c.failed = !h.GetAuthor(a0); break; }
    case 38: { c.name = "IGES::SetAuthor(char const*)"; c.failed = !h.SetAuthor("text"); break; }
    case 39: { c.name = "IGES::GetOrganization(char const*&)"; const char* a0 = "text"; c.failed = !h.GetOrganization(a0); break; }
    case 40: { c.name = "IGES::SetOrganization(char const*)"; c.failed = !h.SetOrganization("text"); break; }
    case 41: { c.name = "IGES::GetIGESVersionFlag(int&)"; int a0 = int(); c.failed = !h.GetIGESVersionFlag(a0); break; }
    case 42: { c.name = "IGES::GetDraftingStandard(IGES_DRAFTING_STANDARD&)"; IGES_DRAFTING_STANDARD a0 = IGES_DRAFTING_STANDARD(); c.failed = !h.GetDraftingStandard(a0); break; }
    case 43: { c.name = "IGES::SetDraftingStandard(IGES_DRAFTING_STANDARD)"; IGES_DRAFTING_STANDARD a0 = (IGES_DRAFTING_STANDARD)1; c.failed = !h.SetDraftingStandard(a0); break; }
    case 44: { c.name = "IGES::GetModificationDate(char const*&)"; const char* a0 = "text"; c.failed = !h.GetModificationDate(a0); break; }
    case 45: { c.name = "IGES::GetApplicationNote(char const*&)"; const char* a0 = "text"; c.failed = !h.GetApplicationNote(a0); break; }
    case 46: { c.name = "IGES::SetApplicationNote(char const*)"; c.failed = !h.SetApplicationNote("text"); break; }
    default: break; } return c; }
inline int ncalls(DLL_MCAD_OUTLINE*) { return 22 + 0; }
template <class W> Call call(DLL_MCAD_OUTLINE& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "MCAD_OUTLINE::GetSegments(MCAD_SEGMENT**&, int&)"; MCAD_SEGMENT** a0 = 0; int a1 = int(); c.failed = !h.GetSegments(a0, a1); break; }
    case 1: { c.name = "MCAD_OUTLINE::GetCutouts(MCAD_OUTLINE**&, int&)"; MCAD_OUTLINE** a0 = 0; int a1 = int(); c.failed = !h.GetCutouts(a0, a1); break; }
    case 2: { c.name = "MCAD_OUTLINE::GetDrillHoles(MCAD_SEGMENT**&, int&)"; MCAD_SEGMENT** a0 = 0; int a1 = int(); c.failed = !h.GetDrillHoles(a0, a1); break; }
    case 3: { c.name = "MCAD_OUTLINE::GetErrors(char const**&, int&)"; char const** a0 = 0; int a1 = int(); c.failed = !h.GetErrors(a0, a1); break; }
    case 4: { c.name = "MCAD_OUTLINE::ClearErrors()"; c.failed = (h.ClearErrors(), true); break; }
    case 5: { c.name = "MCAD_OUTLINE::IsClosed(bool&)"; bool a0 = bool(); c.failed = !h.IsClosed(a0); break; }
    case 6: { c.name = "MCAD_OUTLINE::IsContiguous(bool&)"; bool a0 = bool(); c.failed = !h.IsContiguous(a0); break; }
    case 7: { c.name = "MCAD_OUTLINE::IsInside(MCAD_POINT, bool&)"; MCAD_POINT a0 = MCAD_POINT(); bool a1 = bool(); c.failed = !h.IsInside(a0, a1); break; }
    case 8: { c.name = "MCAD_OUTLINE::AddSegment(MCAD_SEGMENT*, bool&)"; bool a1 = bool(); c.failed = !h.AddSegment(w.seg.GetRawPtr(), a1); break; }
    case 9: { c.name = "MCAD_OUTLINE::AddSegment(DLL_MCAD_SEGMENT&, bool&)"; bool a1 = bool(); c.failed = !h.AddSegment(w.seg, a1); break; }
    case 10: { c.name = "MCAD_OUTLINE::AddOutline(MCAD_OUTLINE*, bool&)"; bool a1 = bool(); c.failed = !h.AddOutline(w.out.GetRawPtr(), a1); break; }
    case 11: { c.name = "MCAD_OUTLINE::AddOutline(DLL_MCAD_OUTLINE&, bool&)"; bool a1 = bool(); c.failed = !h.AddOutline(w.out, a1); break; }
    case 12: { c.name = "MCAD_OUTLINE::AddOutline(MCAD_SEGMENT*, bool&)"; bool a1 = bool(); c.failed = !h.AddOutline(w.seg.GetRawPtr(), a1); break; }
    case 13: { c.name = "MCAD_OUTLINE::AddOutline(DLL_MCAD_SEGMENT&, bool&)"; bool a1 = bool(); c.failed = !h.AddOutline(w.seg, a1); break; }
    case 14: { c.name = "MCAD_OUTLINE::SubOutline(MCAD_OUTLINE*, bool&)"; bool a1 = bool(); c.failed = !h.SubOutline(w.out.GetRawPtr(), a1); break; }
    case 15: { c.name = "MCAD_OUTLINE::SubOutline(DLL_MCAD_OUTLINE&, bool&)"; bool a1 = bool(); c.failed = !h.SubOutline(w.out, a1); break; }
    case 16: { c.name = "MCAD_OUTLINE::SubOutline(MCAD_SEGMENT*, bool&)"; bool a1 = bool(); c.failed = !h.SubOutline(w.seg.GetRawPtr(), a1); break; }
    case 17: { c.name = "MCAD_OUTLINE::SubOutline(DLL_MCAD_SEGMENT&, bool&)"; bool a1 = bool(); c.failed = !h.SubOutline(w.seg, a1); break; }
    case 18: { c.name = "MCAD_OUTLINE::AddCutout(MCAD_OUTLINE*, bool, bool&)"; bool a1 = (bool)1; bool a2 = bool(); c.failed = !h.AddCutout(w.out.GetRawPtr(), a1, a2); break; }
    case 19: { c.name = "MCAD_OUTLINE::AddCutout(DLL_MCAD_OUTLINE&, bool, bool&)"; bool a1 = (bool)1; bool a2 = bool(); c.failed = !h.AddCutout(w.out, a1, a2); break; }
    case 20: { c.name = "MCAD_OUTLINE::AddCutout(MCAD_SEGMENT*, bool, bool&)"; bool a1 = (bool)1; bool a2 = bool(); c.failed = !h.AddCutout(w.seg.GetRawPtr(), a1, a2); break; }
    case 21: { c.name = "MCAD_OUTLINE::AddCutout(DLL_MCAD_SEGMENT&, bool, bool&)"; bool a1 = (bool)1; bool a2 = bool(); c.failed = !h.AddCutout(w.seg, a1, a2); break; }
    default: break; } return c; }
inline int ncalls(DLL_IGES_GEOM_PCB*) { return 5 + ncalls((DLL_MCAD_OUTLINE*)0); }
template <class W> Call call(DLL_IGES_GEOM_PCB& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "IGES_GEOM_PCB::GetVerticalSurface(IGES*, bool&, IGES_ENTITY_144**&, int&, double, double)"; bool a1 = bool(); IGES_ENTITY_144** a2 = 0; int a3 = int(); double a4 = (double)1; double a5 = (double)1; c.failed = !h.GetVerticalSurface(w.model.GetRawPtr(), a1, a2, a3, a4, a5); break; }
    case 1: { c.name = "IGES_GEOM_PCB::GetTrimmedPlane(IGES*, bool&, IGES_ENTITY_144**&, int&, double, bool)"; bool a1 = bool(); IGES_ENTITY_144** a2 = 0; int a3 = int(); double a4 = (double)1; bool a5 = (bool)1; c.failed = !h.GetTrimmedPlane(w.model.GetRawPtr(), a1, a2, a3, a4, a5); break; }
    case 2: { c.name = "IGES_GEOM_PCB::GetCurves(IGES*, IGES_CURVE**&, int&, double, MCAD_SEGMENT*)"; IGES_CURVE** a1 = 0; int a2 = int(); double a3 = (double)1; c.failed = !h.GetCurves(w.model.GetRawPtr(), a1, a2, a3, w.seg.GetRawPtr()); break; }
    case 3: { c.name = "IGES_GEOM_PCB::GetCurveOnPlane(IGES*, IGES_ENTITY_126**&, int&, double, double, double, double, double, MCAD_SEGMENT*, bool)"; IGES_ENTITY_126** a1 = 0; int a2 = int(); double a3 = (double)1; double a4 = (double)1; double a5 = (double)1; double a6 = (double)1; double a7 = (double)1; bool a9 = (bool)1; c.failed = !h.GetCurveOnPlane(w.model.GetRawPtr(), a1, a2, a3, a4, a5, a6, a7, w.seg.GetRawPtr(), a9); break; }
    case 4: { c.name = "IGES_GEOM_PCB::GetSegmentWall(IGES*, IGES_ENTITY_144**&, int&, double, double, MCAD_SEGMENT*, bool)"; IGES_ENTITY_144** a1 = 0; int a2 = int(); double a3 = (double)1; double a4 = (double)1; bool a6 = (bool)1; c.failed = !h.GetSegmentWall(w.model.GetRawPtr(), a1, a2, a3, a4, w.seg.GetRawPtr(), a6); break; }
    default: return call((DLL_MCAD_OUTLINE&)h, k - 5, w); } return c; }
inline int ncalls(DLL_MCAD_SEGMENT*) { return 20 + 0; }
template <class W> Call call(DLL_MCAD_SEGMENT& h, int k, W& w) { Call c{"", true}; switch (k) {
    case 0: { c.name = "MCAD_SEGMENT::GetSegType(MCAD_SEGTYPE&)"; MCAD_SEGTYPE a0 = MCAD_SEGTYPE(); c.failed = !h.GetSegType(a0); break; }
    case 1: { c.name = "MCAD_SEGMENT::GetRadius(double&)"; double a0 = double(); c.failed = !h.GetRadius(a0); break; }
    case 2: { c.name = "MCAD_SEGMENT::GetStartAngle(double&)"; double a0 = double(); c.failed = !h.GetStartAngle(a0); break; }
    case 3: { c.name = "MCAD_SEGMENT::GetEndAngle(double&)"; double a0 = double(); c.failed = !h.GetEndAngle(a0); break; }
    case 4: { c.name = "MCAD_SEGMENT::GetFirstAngle(double&)"; double a0 = double(); c.failed = !h.GetFirstAngle(a0); break; }
    case 5: { c.name = "MCAD_SEGMENT::GetLastAngle(double&)"; double a0 = double(); c.failed = !h.GetLastAngle(a0); break; }
    case 6: { c.name = "MCAD_SEGMENT::GetCenter(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetCenter(a0); break; }
    case 7: { c.name = "MCAD_SEGMENT::GetStart(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetStart(a0); break; }
    case 8: { c.name = "MCAD_SEGMENT::GetEnd(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetEnd(a0); break; }
    case 9: { c.name = "MCAD_SEGMENT::GetFirstPoint(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetFirstPoint(a0); break; }
    case 10: { c.name = "MCAD_SEGMENT::GetLastPoint(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetLastPoint(a0); break; }
    case 11: { c.name = "MCAD_SEGMENT::SetParams(MCAD_POINT, MCAD_POINT)"; MCAD_POINT a0 = MCAD_POINT(); MCAD_POINT a1 = MCAD_POINT(); c.failed = !h.SetParams(a0, a1); break; }
    case 12: { c.name = "MCAD_SEGMENT::SetParams(MCAD_POINT, MCAD_POINT, MCAD_POINT, bool)"; MCAD_POINT a0 = MCAD_POINT(); MCAD_POINT a1 = MCAD_POINT(); MCAD_POINT a2 = MCAD_POINT(); bool a3 = (bool)1; c.failed = !h.SetParams(a0, a1, a2, a3); break; }
    case 13: { c.name = "MCAD_SEGMENT::GetLength(double&)"; double a0 = double(); c.failed = !h.GetLength(a0); break; }
    case 14: { c.name = "MCAD_SEGMENT::IsCW(bool&)"; bool a0 = bool(); c.failed = !h.IsCW(a0); break; }
    case 15: { c.name = "MCAD_SEGMENT::GetIntersections(MCAD_SEGMENT const*, MCAD_POINT*&, int&, MCAD_INTERSECT_FLAG&)"; MCAD_POINT* a1 = 0; int a2 = int(); MCAD_INTERSECT_FLAG a3 = MCAD_INTERSECT_FLAG(); c.failed = !h.GetIntersections(w.seg.GetRawPtr(), a1, a2, a3); break; }
    case 16: { c.name = "MCAD_SEGMENT::GetIntersections(DLL_MCAD_SEGMENT&, MCAD_POINT*&, int&, MCAD_INTERSECT_FLAG&)"; MCAD_POINT* a1 = 0; int a2 = int(); MCAD_INTERSECT_FLAG a3 = MCAD_INTERSECT_FLAG(); c.failed = !h.GetIntersections(w.seg, a1, a2, a3); break; }
    case 17: { c.name = "MCAD_SEGMENT::GetBoundingBox(MCAD_POINT&, MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); MCAD_POINT a1 = MCAD_POINT(); c.failed = !h.GetBoundingBox(a0, a1); break; }
    case 18: { c.name = "MCAD_SEGMENT::GetMidpoint(MCAD_POINT&)"; MCAD_POINT a0 = MCAD_POINT(); c.failed = !h.GetMidpoint(a0); break; }
    case 19: { c.name = "MCAD_SEGMENT::Split(MCAD_POINT**, int, MCAD_SEGMENT**&, int&)"; MCAD_POINT* a0 = 0; int a1 = (int)1; MCAD_SEGMENT** a2 = 0; int a3 = int(); c.failed = !h.Split(&a0, a1, a2, a3); break; }
    default: break; } return c; }
