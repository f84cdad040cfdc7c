// arolla::naming: table / column paths, policies, protopath ids.
#include <optional>
#include <string>
#include <vector>

#include "absl/hash/hash.h"
#include "arolla/naming/policy.h"
#include "arolla/naming/protopath_id.h"
#include "arolla/naming/table.h"
#include "common/driver.h"

using namespace arolla::naming;

static std::string Txt(const json& j) {
  std::string s;
  for (auto& c : j) s.push_back((char)c.get<int>());
  return s;
}
static json Cps(const std::string& s) {
  json r = json::array();
  for (unsigned char c : s) r.push_back((int)c);
  return r;
}
static PathSegment Seg(const json& j) { return PathSegment(Txt(j["f"]), j["ix"].get<bool>()); }
static json Segs(const std::vector<PathSegment>& v) {
  json r = json::array();
  for (auto& s : v) r.push_back({{"f", Cps(s.FieldName())}, {"ix", s.IsIndex()}});
  return r;
}
static std::vector<PathSegment> SegList(const json& j) {
  std::vector<PathSegment> v;
  for (auto& s : j) v.push_back(Seg(s));
  return v;
}
static TablePath Build(const json& steps) {
  TablePath p;
  for (auto& s : steps) {
    std::string k = s["k"];
    auto segs = SegList(s["s"]);
    if (k == "seg") p = p.Child(segs[0]);
    else if (k == "name") p = p.Child(segs[0].FieldName(), segs[0].IsIndex());
    else if (k == "move") p = std::move(p).Child(segs[0]);
    else if (k == "movename") p = std::move(p).Child(segs[0].FieldName(), segs[0].IsIndex());
    else if (k == "path") p = p.Child(TablePath(segs));
    else if (k == "one") p = p.Child(TablePath(segs[0].FieldName(), segs[0].IsIndex()));
    else if (k == "keys") p = p.MapKeys();
    else if (k == "values") p = p.MapValues();
    else std::exit(77);
  }
  return p;
}
template <class P>
json Policies(const P& p) {
  json r = json::object();
  for (const char* n : {"default", "double_underscore", "single_underscore", "leaf_only", "protopath_id", "googlesql"}) {
    auto pol = GetPolicy(n);
    if (!pol.ok() || pol->Name() != n) { r[n] = json::array({-1}); continue; }
    r[n] = Cps(pol->Format(p));
  }
  return r;
}
template <class P>
void Show(json& e, const P& p) {
  e["segs"] = Segs(p.PathSegments());
  e["full"] = Cps(p.FullName());
  e["fullx"] = Cps(p.FullName(true));
  e["pol"] = Policies(p);
}
static void Path(json& e) {
  TablePath t = Build(e["steps"]);
  std::string fin = e["fin"]["k"];
  auto segs = SegList(e["fin"]["s"]);
  TablePath prefix(SegList(e["prefix"]));
  e["hasparent"] = true;
  if (fin == "table") {
    Show(e, t);
    auto par = t.ParentIndexPath();
    e["hasparent"] = par.has_value();
    e["parent"] = par.has_value() ? Segs(par->PathSegments()) : json::array();
    auto rm = t.RemovePrefix(prefix);
    e["rmok"] = rm.ok();
    e["rm"] = rm.ok() ? Segs(rm->PathSegments()) : json::array();
    auto back = TablePathFromProtopathId(TablePathToProtopathId(t));
    e["idok"] = back.ok();
    e["id"] = back.ok() ? Segs(back->PathSegments()) : json::array();
    TablePath o(SegList(e["other"]));
    e["cmp"] = {t == o, t != o, t < o, o < t, t == t};
    e["hash"] = !(t == o) || (absl::Hash<TablePath>()(t) == absl::Hash<TablePath>()(o) && t.PythonHash() == o.PythonHash());
    return;
  }
  ColumnPath c = fin == "col" ? t.Column(segs[0]) : fin == "colname" ? t.Column(segs[0].FieldName(), segs[0].IsIndex())
      : fin == "colpath" ? t.Column(ColumnPath(segs)) : fin == "size" ? t.Size(segs[0].FieldName()) : t.Size(TablePath(segs));
  Show(e, c);
  e["parent"] = Segs(c.ParentIndexPath().PathSegments());
  auto rm = c.RemovePrefix(prefix);
  e["rmok"] = rm.ok();
  e["rm"] = rm.ok() ? Segs(rm->PathSegments()) : json::array();
  auto back = ColumnPathFromProtopathId(ColumnPathToProtopathId(c));
  e["idok"] = back.ok();
  e["id"] = back.ok() ? Segs(back->PathSegments()) : json::array();
  ColumnPath o(SegList(e["other"]));
  e["cmp"] = {c == o, c != o, c < o, o < c, c == c};
  e["hash"] = !(c == o) || (absl::Hash<ColumnPath>()(c) == absl::Hash<ColumnPath>()(o) && c.PythonHash() == o.PythonHash());
}
static void Parse(json& e) {
  std::string s = Txt(e["t"]);
  auto t = TablePathFromProtopathId(s);
  auto c = ColumnPathFromProtopathId(s);
  e["tok"] = t.ok();
  e["cok"] = c.ok();
  e["tp"] = t.ok() ? Segs(t->PathSegments()) : json::array();
  e["cp"] = c.ok() ? Segs(c->PathSegments()) : json::array();
}
static void Acc(json& e) {
  std::string f = Txt(e["f"]), k = Txt(e["key"]);
  e["field"] = Cps(FieldAccess(f));
  e["map"] = Cps(MapAccess(f, k));
  e["arr"] = Cps(ArrayAccess(f, e["i"].get<int>()));
  e["ext"] = Cps(ProtoExtensionAccess(k));
  e["isext"] = {PathSegment(f, false).IsExtension(), PathSegment(ProtoExtensionAccess(k), true).IsExtension()};
}
static void Pol(json& e) { e["ok"] = GetPolicy(Txt(e["n"])).ok(); }

int main(int argc, char** argv) {
  return DriverMain(argc, argv, {{"path", Path}, {"parse", Parse}, {"acc", Acc}, {"policy", Pol}});
}
