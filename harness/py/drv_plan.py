"""C11: shared proto traversal plans."""
import re
import drvlib
from arolla.codegen.io import accessors, cpp
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath


def _norm(i):
  return re.sub(r'^#include "(.*)"$', r'\1', i.include_str)


def do_plan(c):
  objs = []
  ids = {}
  for a in c['acc']:
    inc = [cpp.Include(x) for x in a['inc']]
    if a['pp']:
      o = protopath.ProtopathAccessor(
          'f', inc, a['dflt'], protopath='/'.join(e['t'] for e in a['els']),
          cpp_type=None, default_value_cpp=a['def'] or None)
    else:
      o = accessors.Accessor('f', inc, a['dflt'])
    ids[id(o)] = a['id']
    objs.append((a['name'], o))
  multi = c['mode'] == 'multi'
  def f():
    fn = (mp.extract_multi_value_protopath_accessors if multi
          else mp.extract_single_value_protopath_accessors)
    rest, root = fn(list(objs))
    nodes = root.post_order_nodes()
    pos = {id(n): i + 1 for i, n in enumerate(nodes)}
    if len(pos) != len(nodes):
      raise RuntimeError('a node is visited twice')
    num = mp.create_node_numeration(root)
    tree = []
    for n in nodes:
      if n.parent is None:
        el = ''
      elif multi:
        e = n.path_from_parent_multi or n.path_from_parent_single
        el = e.protopath_element() if e is not None else ''
      else:
        e = n.path_from_parent
        el = e.protopath_element() if e is not None else ''
      t = {'par': pos[id(n.parent)] if n.parent is not None else 0,
           'ch': [pos[id(x)] for x in n.children], 'fic': n.is_fictive(),
           'leaf': n.is_leaf(), 'el': el, 'name': n.leaf_accessor_name,
           'size': bool(n.is_size),
           'acc': ids[id(n.leaf_accessor)] if n.leaf_accessor is not None else 0,
           'pp': n.protopath(), 'depth': n.depth_without_fictive(),
           'nfa': pos[id(n.non_fictive_ancestor())],
           'leaves': [pos[id(x)] for x in n.leaves()],
           'incs': sorted(_norm(i) for i in n.required_includes)}
      if multi:
        t['rdepth'] = n.repeated_depth()
        t['always'] = t['alwaysm'] = False
        if n.is_repeated():
          t['always'] = n.is_repeated_always_present()
          t['alwaysm'] = n.is_repeated_always_present(is_mutable=True)
        t['start'] = [0, 0]
        if n.is_leaf():
          s, k = n.intermediate_start_node()
          t['start'] = [pos[id(s)], int(k)]
      else:
        t['hassize'] = n.has_size_leaf()
        t['hasopt'] = n.has_optional_leaf()
        t['hasdef'] = n.has_leaf_with_default_value()
      tree.append(t)
    text = mp.define_protopath_tree(root, num)
    res = {'rest': [[n, ids[id(o)]] for n, o in rest], 'tree': tree,
           'node2id': [num.node2id[n] for n in nodes],
           'leaf2id': sorted([pos[id(n)], i] for n, i in num.leaf2id.items()),
           'inner2id': sorted([pos[id(n)], i] for n, i in num.intermediate2id.items()),
           'sizes': mp.size_leaf_ids(root, num),
           'deflen': int(re.search(r'tree\s*\(\s*(\d+)\s*\)', text).group(1)),
           'def': [[int(i), [int(x) for x in l.split(',') if x.strip()]] for i, l in
                   re.findall(r'tree\s*\[\s*(\d+)\s*\]\s*=\s*\{([\d,\s]*)\}', text)],
           'max': getattr(mp, '_MAX_CHILD_COUNT', 8)}
    if multi:
      col = mp.nodes_for_intermediate_collection(root)
      res['collect'] = [[pos[id(n)], int(k)] for n, k in col.items()]
      d = mp.nodes_with_descendant_for_intermediate_collection(root, col)
      res['desc'] = [[pos[id(n)], int(k)] for n, k in d.items()]
    return res
  res = drvlib.guarded(f, ValueError, NotImplementedError)
  return res


drvlib.main({'plan': do_plan})
