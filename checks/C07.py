import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../tools'))
import mbt, vb

HEAD = r'''
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <tuple>
#include "absl/strings/string_view.h"
#include "arolla/io/accessor_helpers.h"
#include "common/driver.h"
using arolla::accessor_helpers_impl::ConvertNameAccessorsPackToNestedTuple;
struct Functor { int id; int operator()(const int& x) const { return id * 1000 + x; } };
struct Shared { std::shared_ptr<int> id; int operator()(const int& x) const { return *id * 1000 + x; } };
template <int kId> int Fn(const int& x) { return kId * 1000 + x; }
template <class T> json Observe(const T& t) {
  json r = json::array();
  std::apply([&](const auto&... p) {
    (r.push_back(json{{"name", p.first}, {"val", p.second(7)}}), ...); }, t);
  return r;
}
'''


def shape(i, s):
  """A function building the pack twice, with different run-time names and accessors."""
  pre, args, post = [], [], []
  flats = ([], [])
  for j, (n, a, d) in enumerate(zip(s['n'], s['a'], s['id'])):
    name = ['n%d' % j, 'a\\0b_%d' % d, '', 'x y%d' % j, 'k%d' % (j % 2), '\\u00e9%d' % j][n]
    # duplicate names and the empty name are legal here
    real = name.replace('\\u00e9', '\u00e9').replace('\\0', '\0')
    for v in (0, 1):
      flats[v].append(real + ('v' if v and n in (1, 2, 3, 5) else ''))
      flats[v].append(d + (50 if v and a != 0 else 0))
    full = 'std::string("%s", %d) + (v ? "v" : "")' % (name, len(real.encode()))
    if n == 0: args.append('"%s"' % name)
    elif n == 1:
      pre.append('std::string s%d = %s;' % (j, full)); args.append('s%d' % j)
    elif n == 2:
      pre.append('std::string s%d = %s;' % (j, full)); args.append('s%d' % j); post.append('s%d = "changed";' % j)
    elif n == 3:
      pre.append('std::string b%d = %s; size_t l%d = b%d.size(); b%d += "tail"; absl::string_view v%d(b%d.data(), l%d);' % (j, full, j, j, j, j, j, j))
      args.append('v%d' % j)
      post.append('b%d[0] = 63;' % j)
    elif n == 4:
      pre.append('char b%d[] = "%s";' % (j, name)); args.append('b%d' % j); post.append('b%d[0] = 63;' % j)
    else: args.append(full)
    rid = '%d + 50 * v' % d
    if a == 0: args.append('[](const int& x) { return %d * 1000 + x; }' % d)
    elif a == 1:
      pre.append('int c%d = %s;' % (j, rid)); args.append('[c%d](const int& x) { return c%d * 1000 + x; }' % (j, j))
      post.append('c%d = -1;' % j)
    elif a == 2: args.append('Functor{%s}' % rid)
    elif a == 3: args.append('v ? &Fn<%d> : &Fn<%d>' % (d + 50, d))
    elif a == 4: args.append('std::function<int(const int&)>(Functor{%s})' % rid)
    elif a == 5:
      pre.append('Functor f%d{%s};' % (j, rid)); args.append('f%d' % j); post.append('f%d.id = -1;' % j)
    else: args.append('Shared{std::make_shared<int>(%s)}' % rid)
  body = '\n  '.join(pre) + '\n  auto t = ConvertNameAccessorsPackToNestedTuple(%s);\n  ' % ', '.join(args) + '\n  '.join(post)
  body += '\n  e["got"] = Observe(t); auto u = t; e["again"] = Observe(t); e["copy"] = Observe(u);'
  return 'static void Shape%d(json& e, int v) {\n  %s\n}\n' % (i, body), flats


def main(r):
  shapes = r.gen('Gen_Pack')
  text, cmds, tab = HEAD, [], []
  for i, s in enumerate(shapes):
    t, flats = shape(i, s)
    text += t
    tab.append('Shape%d' % i)
    cmds += [{'op': 'pack', 'i': i, 'v': v, 'flat': flats[v]} for v in (0, 1, 0)]
  text += 'int main(int argc, char** argv) {\n  static void (*const fns[])(json&, int) = {%s};\n' % ', '.join(tab)
  text += '  return DriverMain(argc, argv, {{"pack", [](json& e) { fns[e["i"].get<int>()](e, e["v"].get<int>()); }}});\n}\n'
  vb._write(os.path.join(vb.GEN, 'verif/c07.cc'), text)
  exe = r.build('drv_pack', ['gen:verif/c07.cc'], [])
  r.check('Trace_Pack', [exe], mbt.each(cmds))


mbt.run('C07', main)
