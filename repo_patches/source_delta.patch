From 809138a9fedf9df825d1057962300becabcbdb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 01/26] fix: keep the exp_lower_bound cursor inside the
 sequence

The cursor was advanced by the full step before checking how many elements
remain, which moves forward iterators beyond the end (a crash for
std::forward_list, undefined behavior for the rest).
---
 arolla/util/algorithms.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arolla/util/algorithms.h b/arolla/util/algorithms.h
index 6554720..c7bee2e 100644
--- a/arolla/util/algorithms.h
+++ b/arolla/util/algorithms.h
@@ -43,8 +43,10 @@ inline FwdIter exp_lower_bound(FwdIter first, FwdIter last, const T& val,
       // Continue exponential search on tail
       first = ++it;
       count -= step;
-      std::advance(it, step);
       step *= 2;
+      if (step < count) {  // `it` is used (and is in the range) only then.
+        std::advance(it, step / 2);
+      }
     } else {
       // Perform binary search on head
       last = it;
-- 
2.43.0


From d65c3c26340eddab875cdeb3740c0f2c16f142c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 02/26] fix: do not merge proto accessors of different type or
 default value

---
 arolla/codegen/io/protopath.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 69813ee..4371699 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -1390,6 +1390,8 @@ class ProtopathAccessor(accessors.Accessor):
   def __eq__(self, other) -> bool:
     return isinstance(other, ProtopathAccessor) and (
         other.protopath == self.protopath
+        and other.cpp_type == self.cpp_type
+        and other.default_value_cpp == self.default_value_cpp
     )
 
 
-- 
2.43.0


From e5fc40cdb99bdbf183ebfb473a6e64b748ef839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:09 +0000
Subject: [PATCH 03/26] fix: quote environment values in generated commands

bash_escape() escapes for a double quoted argument; without the quotes a value
with spaces, semicolons, etc. was split by the shell.
---
 arolla/codegen/utils.bzl      | 2 +-
 py/arolla/optools/optools.bzl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/utils.bzl b/arolla/codegen/utils.bzl
index 3ec7775..fcf99b0 100644
--- a/arolla/codegen/utils.bzl
+++ b/arolla/codegen/utils.bzl
@@ -228,7 +228,7 @@ def python_function_call_genrule(
         name = name,
         outs = outs,
         cmd = '{env} $(execpath {generator}) --arolla_call_python_function_spec="{spec}"'.format(
-            env = " ".join(["{}={}".format(k, bash_escape(v)) for k, v in env.items()]),
+            env = " ".join(["{}=\"{}\"".format(k, bash_escape(v)) for k, v in env.items()]),
             generator = generator,
             spec = encode_call_python_function(function),
         ),
diff --git a/py/arolla/optools/optools.bzl b/py/arolla/optools/optools.bzl
index 58136be..bc7e331 100644
--- a/py/arolla/optools/optools.bzl
+++ b/py/arolla/optools/optools.bzl
@@ -67,7 +67,7 @@ def arolla_operator_package_snapshot(
         name = exec_rule_name,
         srcs = srcs,
         outs = [name],
-        cmd = ("".join(["{}={} ".format(k, bash_escape(v)) for k, v in env.items()]) +
+        cmd = ("".join(["{}=\"{}\" ".format(k, bash_escape(v)) for k, v in env.items()]) +
                "$(execpath {})".format(gen_rule_name) +
                " --name={}".format(name) +
                " --output_file=$(execpath {})".format(name) +
-- 
2.43.0


From 2ccdd9100a8b3a23bf28bc3e04ef3b6a67ea3d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 04/26] fix: keep only characters that C++ allows in generated
 identifiers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Alphanumeric characters such as '½' were kept, which gave identifiers that do
not compile.
---
 arolla/codegen/render_jinja2_template.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arolla/codegen/render_jinja2_template.py b/arolla/codegen/render_jinja2_template.py
index 2966de1..ca3b611 100644
--- a/arolla/codegen/render_jinja2_template.py
+++ b/arolla/codegen/render_jinja2_template.py
@@ -30,10 +30,13 @@ def _cescape(data):
 
 def _as_c_identifier(name: str) -> str:
   """Generates a C++ identifier name that looks similarly to the argument."""
-  only_alnums = ''.join(c if c.isalnum() else ' ' for c in name)
+  # NOTE: Some alphanumeric characters (e.g. '²') are not allowed in identifiers.
+  only_alnums = ''.join(
+      c if c.isalnum() and f'_{c}'.isidentifier() else ' ' for c in name
+  )
   identifier_name = '_'.join(only_alnums.split())
 
-  if not identifier_name or identifier_name[0].isdigit():
+  if not identifier_name.isidentifier():
     raise ValueError(f'unable to generate C++ identifier name from "{name}"')
 
   return identifier_name
-- 
2.43.0


From 0e464b22e5037202ea71a7f29821d819938af33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:47 +0000
Subject: [PATCH 05/26] fix: give the size of an optional map a single return
 type

---
 arolla/codegen/io/protopath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 4371699..13be60f 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -1206,8 +1206,13 @@ class _SingleMultiElemPath:
       )  # we are inside of lambda returning size
 
     size_path = self._multi_elem.access_for_size
+    # `size()` of a map is `size_t`, which differs from the type of `return 0`.
+    is_map = isinstance(
+        self._multi_elem, (_MapKeysAccessElement, _MapValuesAccessElement)
+    )
+    return_type = '-> size_t ' if body and is_map else ''
     return (
-        f'size_t {size_var} = [&]() {{ '
+        f'size_t {size_var} = [&]() {return_type}{{ '
         f'{body}\nreturn {last_value}{size_path}; }}();'
     )
 
-- 
2.43.0


From 862e07828fac7285a85e14cc502581dcc224a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 06/26] fix: spell the reserved words extern and do correctly
 in proto getters

---
 arolla/codegen/io/protopath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/codegen/io/protopath.py b/arolla/codegen/io/protopath.py
index 13be60f..2450511 100644
--- a/arolla/codegen/io/protopath.py
+++ b/arolla/codegen/io/protopath.py
@@ -71,13 +71,14 @@ _CPP_KEYWORDS = frozenset([
     'decltype',
     'default',
     'delete',
+    'do',
     'double',
     'dynamic_cast',
     'else',
     'enum',
     'explicit',
     'export',
-    'extern ',
+    'extern',
     'false',
     'float',
     'for',
-- 
2.43.0


From 79a7d90149bbcbd1add7966841bb1e010f1d83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 07/26] fix: keep a name ending in a backslash from joining
 lines of a generated comment

---
 arolla/codegen/io/input_loader.cc.jinja2           | 2 +-
 arolla/codegen/io/input_loader_operators.cc.jinja2 | 2 +-
 arolla/codegen/io/io_utils.jinja2                  | 2 +-
 arolla/codegen/io/slot_listener.h.jinja2           | 1 +
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/arolla/codegen/io/input_loader.cc.jinja2 b/arolla/codegen/io/input_loader.cc.jinja2
index 6ffe3ab..a6af89a 100644
--- a/arolla/codegen/io/input_loader.cc.jinja2
+++ b/arolla/codegen/io/input_loader.cc.jinja2
@@ -67,7 +67,7 @@ namespace{{ spaced_shard_namespace }} {
 
 {%- macro generate_wildcards_input_loaders() -%}
 {%-   for accessor_name, accessor in spec.wildcard_accessors %}
-// WildcardInputLoader {{ accessor_name }}
+// WildcardInputLoader "{{ accessor_name }}"
 constexpr auto wildcard_lambda_{{ loop.index0 }} = {{ accessor.lambda_str }};
 using AccessorResultType_{{ loop.index0 }} =
     ::arolla::WildcardAccessorResultType<
diff --git a/arolla/codegen/io/input_loader_operators.cc.jinja2 b/arolla/codegen/io/input_loader_operators.cc.jinja2
index 598111d..474551c 100644
--- a/arolla/codegen/io/input_loader_operators.cc.jinja2
+++ b/arolla/codegen/io/input_loader_operators.cc.jinja2
@@ -23,7 +23,7 @@
 {%- macro register_operators_for_shard(loader_name, spec, shard_id) -%}
 {%    if shard_id < spec.accessors_collections | length %}
 {%      for name, accessor in spec.accessors_collections[shard_id].all_raw_accessors().named_accessors %}
-{  // {{ name }}
+{  // "{{ name }}"
   static constexpr absl::string_view kOperatorName =
       "{{ cpp.construct_operator_name(loader_name, name) }}";
   {%- set functor_name = operator_functor_name(
diff --git a/arolla/codegen/io/io_utils.jinja2 b/arolla/codegen/io/io_utils.jinja2
index 7f77cff..ce5d7e0 100644
--- a/arolla/codegen/io/io_utils.jinja2
+++ b/arolla/codegen/io/io_utils.jinja2
@@ -13,7 +13,7 @@ Types are created by formatting the type_fmt with the 0 based index.
         zip(names, striped_prefix_names) %}
 {%-   set tpe = type_fmt.format(loop.index0) %}
   builder.AddFromCommonPrefixWithPrevious(
-      // {{ name }}
+      // "{{ name }}"
       {{ name | length }},
       R"RL_CODEGEN_DELIM({{ striped_prefix_name }})RL_CODEGEN_DELIM",
       ::arolla::GetQType<{{ tpe }}>());
diff --git a/arolla/codegen/io/slot_listener.h.jinja2 b/arolla/codegen/io/slot_listener.h.jinja2
index c2fb695..a6a7f41 100644
--- a/arolla/codegen/io/slot_listener.h.jinja2
+++ b/arolla/codegen/io/slot_listener.h.jinja2
@@ -14,6 +14,7 @@
 {%- for name in spec.accessor_names %}
 // * {{ name }}
 {%- endfor %}{# name #}
+//
 std::unique_ptr<::arolla::SlotListener<{{ spec.output_cls.full_name }}>>
 {{ listener_name.name }}();
 
-- 
2.43.0


From d2c624fe6df2e47f6bb2e83d2fb945aeb2cb1037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:42 +0000
Subject: [PATCH 08/26] fix: measure names of generated loaders in bytes

---
 arolla/codegen/io/io_utils.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/codegen/io/io_utils.jinja2 b/arolla/codegen/io/io_utils.jinja2
index ce5d7e0..0709a14 100644
--- a/arolla/codegen/io/io_utils.jinja2
+++ b/arolla/codegen/io/io_utils.jinja2
@@ -14,7 +14,7 @@ Types are created by formatting the type_fmt with the 0 based index.
 {%-   set tpe = type_fmt.format(loop.index0) %}
   builder.AddFromCommonPrefixWithPrevious(
       // "{{ name }}"
-      {{ name | length }},
+      {{ name.encode('utf-8') | length }},
       R"RL_CODEGEN_DELIM({{ striped_prefix_name }})RL_CODEGEN_DELIM",
       ::arolla::GetQType<{{ tpe }}>());
 {%- endfor %}{# leaf #}
-- 
2.43.0


From 09fcbfa8b13257bba263f5217f01981230fd78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 09/26] fix: an operator registration with an out-of-range
 priority left a record without an operator

---
 arolla/qexpr/operators.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators.cc b/arolla/qexpr/operators.cc
index 04d2b68..89057a7 100644
--- a/arolla/qexpr/operators.cc
+++ b/arolla/qexpr/operators.cc
@@ -81,14 +81,14 @@ class CombinedOperatorFamily final : public OperatorFamily {
     //         FormatTypeVector(signature->input_types()), input->name()));
     //   }
     // }
-    auto& record = operators_[signature->input_types()];
-    if (overwrite_priority >= record.overwrite_priority_mask.size()) {
+    if (overwrite_priority >= Record().overwrite_priority_mask.size()) {
       return absl::InvalidArgumentError(
           absl::StrFormat("unable to register QExpr operator %s%s:"
                           " overwrite_priority=%d is out of range",
                           name_, FormatTypeVector(signature->input_types()),
                           overwrite_priority));
     }
+    auto& record = operators_[signature->input_types()];
     if (record.overwrite_priority_mask.test(overwrite_priority)) {
       return absl::AlreadyExistsError(
           absl::StrFormat("trying to register QExpr operator %s%s twice", name_,
-- 
2.43.0


From 8bd19fad889a088b77510e43f240732cf50142e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:50 +0000
Subject: [PATCH 10/26] fix: ReshuffleBuilder: bias default and unset offsets
 by base_offset

---
 arolla/memory/strings_buffer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arolla/memory/strings_buffer.cc b/arolla/memory/strings_buffer.cc
index e2a93e5..fa9649c 100644
--- a/arolla/memory/strings_buffer.cc
+++ b/arolla/memory/strings_buffer.cc
@@ -63,8 +63,9 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
     // Due to default_value characters buffer can not be reused. So we copy the
     // buffer and add default_value at the end.
     int64_t def_value_size = default_value.value.size();
+    offset_type def_value_start = base_offset_ + characters_.size();
     offsets_bldr_.SetNConst(
-        0, max_size, {characters_.size(), def_value_size + characters_.size()});
+        0, max_size, {def_value_start, def_value_start + def_value_size});
     SimpleBuffer<char>::Builder chars_bldr(characters_.size() + def_value_size,
                                            buf_factory);
     char* data = chars_bldr.GetMutableSpan().data();
@@ -73,8 +74,8 @@ StringsBuffer::ReshuffleBuilder::ReshuffleBuilder(
                 def_value_size);
     characters_ = std::move(chars_bldr).Build();
   } else {
-    std::memset(offsets_bldr_.GetMutableSpan().begin(), 0,
-                max_size * sizeof(Offsets));
+    // Empty ranges must also lie within the (biased) characters buffer.
+    offsets_bldr_.SetNConst(0, max_size, {base_offset_, base_offset_});
   }
 }
 
-- 
2.43.0


From a4d929145e2bac0eec02249ac9b4170ec4d73496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:31 +0000
Subject: [PATCH 11/26] fix: VoidBuffer::Builder::GetInserter: honor the offset

---
 arolla/memory/void_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/memory/void_buffer.h b/arolla/memory/void_buffer.h
index f57ae62..c383b69 100644
--- a/arolla/memory/void_buffer.h
+++ b/arolla/memory/void_buffer.h
@@ -97,7 +97,7 @@ class VoidBuffer {
     VoidBuffer Build(int64_t size) && { return VoidBuffer(size); }
     VoidBuffer Build() && { return VoidBuffer(max_size_); }
 
-    Inserter GetInserter(int64_t offset = 0) { return Inserter(); }
+    Inserter GetInserter(int64_t offset = 0) { return Inserter{offset}; }
     VoidBuffer Build(Inserter ins) && { return VoidBuffer(ins.size); }
 
    private:
-- 
2.43.0


From eccd78fd29a2ae4cf15c3c0dad66d448a7ac5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 12/26] fix: empty arrays with different missing values are
 equivalent

---
 arolla/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 370efab..985566e 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -396,6 +396,7 @@ class AROLLA_API Array {
 template <typename T>
 bool ArraysAreEquivalent(const Array<T>& lhs, const Array<T>& rhs) {
   if (lhs.size() != rhs.size()) return false;
+  if (lhs.empty()) return true;  // missing_id_value is not used in this case
   if (lhs.IsDenseForm() && rhs.IsDenseForm()) {
     return ArraysAreEquivalent(lhs.dense_data(), rhs.dense_data());
   }
-- 
2.43.0


From c81826346498ba39777e65bf36d41fbbfad1c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 13/26] fix: fingerprint of IdFilter takes the ids offset into
 account

---
 arolla/array/id_filter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arolla/array/id_filter.cc b/arolla/array/id_filter.cc
index df40da7..b8e1092 100644
--- a/arolla/array/id_filter.cc
+++ b/arolla/array/id_filter.cc
@@ -61,6 +61,8 @@ void FingerprintHasherTraits<IdFilter>::operator()(
   hasher->Combine(value.type());
   if (value.type() != IdFilter::Type::kFull) {
     hasher->Combine(value.ids());
+    // The same `ids` denote different sets of rows if the offsets differ.
+    hasher->Combine(value.ids_offset());
   }
 }
 
-- 
2.43.0


From 3b4a30c8b134e59ca6bf147e13b2f34eaad8b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 14/26] fix: do not evaluate array operators on an unused
 missing_id_value

---
 arolla/array/pointwise_op.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arolla/array/pointwise_op.h b/arolla/array/pointwise_op.h
index 7e0cadf..587df22 100644
--- a/arolla/array/pointwise_op.h
+++ b/arolla/array/pointwise_op.h
@@ -76,6 +76,12 @@ class ArrayPointwiseOp<ResT, DenseArrayOp, PointwiseFn,
                                  id_filter, args.missing_id_value())...));
     }
 
+    if (size == 0 || id_filter.type() == IdFilter::kFull) {
+      // There are no rows outside of `id_filter`, so `pointwise_fn_` must not
+      // be evaluated (and must not produce an error) on missing_id_value.
+      return Array<ResT>(size, std::move(id_filter), std::move(data));
+    }
+
     auto missing_id_value = pointwise_fn_(args.missing_id_value()...);
     RETURN_IF_ERROR(GetStatusOrOk(missing_id_value));
     return Array<ResT>(
-- 
2.43.0


From 872effe84bd2f1ee10e68179d72dac3f99cc7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 15/26] fix: presence_and on dense arrays whose bitmaps have
 different sizes

---
 arolla/qexpr/operators/dense_array/logic_ops.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arolla/qexpr/operators/dense_array/logic_ops.h b/arolla/qexpr/operators/dense_array/logic_ops.h
index db7767f..b490170 100644
--- a/arolla/qexpr/operators/dense_array/logic_ops.h
+++ b/arolla/qexpr/operators/dense_array/logic_ops.h
@@ -58,7 +58,8 @@ struct DenseArrayPresenceAndOp {
     } else if (lhs.bitmap.empty()) {
       return DenseArray<T>{lhs.values, rhs.bitmap, rhs.bitmap_bit_offset};
     } else {
-      int64_t bitmap_size = bitmap::BitmapSize(lhs.size());
+      // Bitmaps can be longer than BitmapSize(lhs.size()) because of the offsets.
+      int64_t bitmap_size = std::min(lhs.bitmap.size(), rhs.bitmap.size());
       bitmap::RawBuilder bldr(bitmap_size, &ctx->buffer_factory());
       bitmap::Intersect(lhs.bitmap, rhs.bitmap, lhs.bitmap_bit_offset,
                         rhs.bitmap_bit_offset, bldr.GetMutableSpan());
-- 
2.43.0


From e5531169a01dcb06725c7219cb97499644823019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 16/26] fix: reject negative sizes in edge.pair_left and
 edge.pair_right

---
 arolla/qexpr/operators/array/edge_ops.h       | 12 ++++++++++++
 arolla/qexpr/operators/dense_array/edge_ops.h | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 1fc8cf6..a49393c 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -148,14 +148,20 @@ struct ArrayEdgePairLeftOp {
           "operator edge.pair_left expects no missing size values");
     }
     int64_t child_count = 0;
+    bool negative_size = false;
     // pair_count tracks sum(s^2) to detect overflow of offset += s in the loop
     // below, where offset accumulates the same value.
     int64_t pair_count = 0;
     bool overflow = false;
     dense_sizes.ForEachPresent([&](int64_t id, int64_t s) {
+      negative_size |= s < 0;
       child_count += s;
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative_size) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_left expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_left size computation");
@@ -199,12 +205,18 @@ struct ArrayEdgePairRightOp {
           "operator edge.pair_right expects no missing size values");
     }
     int64_t child_count = 0;
+    bool negative_size = false;
     int64_t pair_count = 0;
     bool overflow = false;
     dense_sizes.ForEachPresent([&](int64_t id, int64_t s) {
+      negative_size |= s < 0;
       child_count += s;
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative_size) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_right expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_right size computation");
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index c437203..61e649e 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -137,14 +137,20 @@ struct DenseArrayEdgePairLeftOp {
           "operator edge.pair_left expects no missing size values");
     }
     int64_t child_count = 0;
+    bool negative_size = false;
     // pair_count tracks sum(s^2) to detect overflow of offset += s in the loop
     // below, where offset accumulates the same value.
     int64_t pair_count = 0;
     bool overflow = false;
     sizes.ForEachPresent([&](int64_t id, int64_t s) {
+      negative_size |= s < 0;
       child_count += s;
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative_size) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_left expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_left size computation");
@@ -186,12 +192,18 @@ struct DenseArrayEdgePairRightOp {
           "operator edge.pair_right expects no missing size values");
     }
     int64_t child_count = 0;
+    bool negative_size = false;
     int64_t pair_count = 0;
     bool overflow = false;
     sizes.ForEachPresent([&](int64_t id, int64_t s) {
+      negative_size |= s < 0;
       child_count += s;
       pair_count = safe_add(pair_count, safe_mul(s, s, &overflow), &overflow);
     });
+    if (negative_size) {
+      return absl::InvalidArgumentError(
+          "operator edge.pair_right expects no negative size values");
+    }
     if (overflow) {
       return absl::InvalidArgumentError(
           "integer overflow in edge.pair_right size computation");
-- 
2.43.0


From bc68fe248e77d27d5b6face8fd71d96a50c7c843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 17/26] fix: check the arguments of
 edge.resize_groups_child_side before use

---
 arolla/qexpr/operators/array/edge_ops.h       | 7 ++++++-
 arolla/qexpr/operators/dense_array/edge_ops.h | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index a49393c..2622386 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -608,12 +608,12 @@ struct ArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const ArrayEdge& edge) const {
-    DCHECK(edge.edge_values().dense_data().IsFull());
     if (edge.edge_type() != ArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().dense_data().IsFull());
     return absl::OkStatus();
   }
 
@@ -673,6 +673,11 @@ struct ArrayEdgeResizeGroupsChildSide {
     const auto& new_sizes_buffer = new_sizes.dense_data().values;
     int64_t total_size = 0;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
       total_size += new_sizes_buffer[i];
     }
 
diff --git a/arolla/qexpr/operators/dense_array/edge_ops.h b/arolla/qexpr/operators/dense_array/edge_ops.h
index 61e649e..4108e32 100644
--- a/arolla/qexpr/operators/dense_array/edge_ops.h
+++ b/arolla/qexpr/operators/dense_array/edge_ops.h
@@ -430,12 +430,12 @@ struct DenseArrayEdgeResizeGroupsChildSide {
   }
 
   absl::Status CheckEdge(const DenseArrayEdge& edge) const {
-    DCHECK(edge.edge_values().IsFull());
     if (edge.edge_type() != DenseArrayEdge::SPLIT_POINTS) {
       return absl::UnimplementedError(
           "operator edge.resize_groups_child_side is only supported for "
           "SPLIT_POINTS edges");
     }
+    DCHECK(edge.edge_values().IsFull());
     return absl::OkStatus();
   }
 
@@ -497,6 +497,11 @@ struct DenseArrayEdgeResizeGroupsChildSide {
     const auto& new_sizes_buffer = new_sizes.values;
     int64_t total_size = 0;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
+      if (new_sizes_buffer[i] < 0) {
+        return absl::InvalidArgumentError(
+            "got a negative size value in operator "
+            "edge.resize_groups_child_side");
+      }
       total_size += new_sizes_buffer[i];
     }
 
-- 
2.43.0


From 5f29ce2c20c73e8b38dc2c599d3fcf1008b641ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 18/26] fix: edge.resize_groups_child_side takes full sizes in
 any array form

---
 arolla/qexpr/operators/array/edge_ops.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index 2622386..c33c884 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -619,7 +619,7 @@ struct ArrayEdgeResizeGroupsChildSide {
 
   absl::Status CheckNewSizes(const Array<int64_t>& new_sizes,
                              const ArrayEdge& edge) const {
-    if (!new_sizes.IsFullForm()) {
+    if (new_sizes.PresentCount() != new_sizes.size()) {
       return absl::InvalidArgumentError(
           "`new_sizes` should be a full array for operator "
           "edge.resize_groups_child_side");
@@ -670,7 +670,8 @@ struct ArrayEdgeResizeGroupsChildSide {
     RETURN_IF_ERROR(CheckEdge(edge));
     RETURN_IF_ERROR(CheckNewSizes(new_sizes, edge));
     RETURN_IF_ERROR(CheckNewOffsets(new_offsets, edge));
-    const auto& new_sizes_buffer = new_sizes.dense_data().values;
+    const Array<int64_t> dense_new_sizes = new_sizes.ToDenseForm();
+    const auto& new_sizes_buffer = dense_new_sizes.dense_data().values;
     int64_t total_size = 0;
     for (int64_t i = 0; i < new_sizes_buffer.size(); ++i) {
       if (new_sizes_buffer[i] < 0) {
-- 
2.43.0


From 358e91697d39d9a1be2e1014e652a24fcb6b1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:40 +0000
Subject: [PATCH 19/26] fix: debug checks accept split points that keep a full
 bitmap

---
 arolla/array/multi_edge_util.h          | 4 ++--
 arolla/qexpr/operators/array/edge_ops.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arolla/array/multi_edge_util.h b/arolla/array/multi_edge_util.h
index 869bf1b..6616f3c 100644
--- a/arolla/array/multi_edge_util.h
+++ b/arolla/array/multi_edge_util.h
@@ -106,7 +106,7 @@ class ArrayMultiEdgeUtil {
                                              meta::type_list<ChildTs...>>;
         std::shared_ptr<ChildUtil> util =
             std::make_shared<ChildUtil>(edge.child_size(), args...);
-        DCHECK(edge.edge_values().IsFullForm());
+        DCHECK(edge.edge_values().dense_data().IsFull());
         const auto& splits = edge.edge_values().dense_data().values.span();
         for (int64_t parent_id = 0; parent_id < edge.parent_size();
              ++parent_id) {
@@ -172,7 +172,7 @@ class ArrayMultiEdgeUtil {
             std::make_shared<ChildUtil>(edge.child_size(), args...);
         ChildUtil& util = *util_ptr;
         data_holder_.push_back(std::move(util_ptr));
-        DCHECK(edge.edge_values().IsFullForm());
+        DCHECK(edge.edge_values().dense_data().IsFull());
         const auto& splits = edge.edge_values().dense_data().values.span();
         auto process_fn = [&](auto& bldr) {
           for (int64_t parent_id = 0; parent_id < edge.parent_size();
diff --git a/arolla/qexpr/operators/array/edge_ops.h b/arolla/qexpr/operators/array/edge_ops.h
index c33c884..6fb2c3a 100644
--- a/arolla/qexpr/operators/array/edge_ops.h
+++ b/arolla/qexpr/operators/array/edge_ops.h
@@ -402,7 +402,7 @@ struct ArrayExpandOp {
       return Array<T>(std::move(res));
     }
 
-    DCHECK(edge.edge_values().IsFullForm());
+    DCHECK(edge.edge_values().dense_data().IsFull());
     RawSpan<const int64_t> split_points(
         edge.edge_values().dense_data().values.span());
     absl::Span<const IdFilter::IdWithOffset> ids =
-- 
2.43.0


From 6c141f1e61381a1453fc8f30eb8aa9cabccdddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:40 +0000
Subject: [PATCH 20/26] fix: check the array size when concatenating a single
 jagged array

A single array was returned as is, before its size was compared with the
size of its shape.
---
 arolla/jagged_shape/util/concat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arolla/jagged_shape/util/concat.h b/arolla/jagged_shape/util/concat.h
index 9dd34f5..5b4d491 100644
--- a/arolla/jagged_shape/util/concat.h
+++ b/arolla/jagged_shape/util/concat.h
@@ -387,10 +387,6 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
                    jagged_shape_internal::ConcatJaggedShapesAlongDimension(
                        array_shapes, dim, insert_concat_dim));
 
-  if (arrays.size() == 1) {
-    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
-  }
-
   for (int64_t i_array = 0; i_array < arrays.size(); ++i_array) {
     if (arrays[i_array].size() != array_shapes[i_array].size()) {
       return absl::InvalidArgumentError(absl::StrFormat(
@@ -400,6 +396,10 @@ absl::StatusOr<std::tuple<ArrayType, Shape>> ConcatJaggedArraysAlongDimension(
     }
   }
 
+  if (arrays.size() == 1) {
+    return std::make_tuple(arrays[0], std::move(result_jagged_shape));
+  }
+
   const int64_t concat_dim_parent_size =
       result_jagged_shape.edges()[dim].parent_size();
 
-- 
2.43.0


From 89596a75ebcf4b4ed5cc8736d6d2b5ad10bdc7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:11 +0000
Subject: [PATCH 21/26] fix: reject decision trees whose nodes do not have
 exactly one parent

---
 arolla/decision_forest/decision_forest.cc | 29 ++++++++++++++---------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/arolla/decision_forest/decision_forest.cc b/arolla/decision_forest/decision_forest.cc
index 424b1a2..fe871df 100644
--- a/arolla/decision_forest/decision_forest.cc
+++ b/arolla/decision_forest/decision_forest.cc
@@ -154,20 +154,27 @@ absl::Status DecisionForest::Initialize() {
     if (tree.split_nodes.size() + 1 != tree.adjustments.size()) {
       return absl::InvalidArgumentError("incorrect number of regions");
     }
-    for (const auto& node : tree.split_nodes) {
-      bool is_correct = true;
-      DecisionTreeNodeId child = node.child_if_false;
+    // Every node, except for the root, and every adjustment should have exactly
+    // one parent (otherwise it is not a tree and the evaluation may not stop).
+    std::vector<bool> has_parent(tree.split_nodes.size() +
+                                 tree.adjustments.size());
+    has_parent[0] = !tree.split_nodes.empty();  // root
+    auto is_correct_child = [&](DecisionTreeNodeId child) {
+      size_t id;
       if (child.is_leaf()) {
-        is_correct &= child.adjustment_index() < tree.adjustments.size();
+        if (child.adjustment_index() >= tree.adjustments.size()) return false;
+        id = tree.split_nodes.size() + child.adjustment_index();
       } else {
-        is_correct &= child.split_node_index() < tree.split_nodes.size();
-      }
-      child = node.child_if_true;
-      if (child.is_leaf()) {
-        is_correct &= child.adjustment_index() < tree.adjustments.size();
-      } else {
-        is_correct &= child.split_node_index() < tree.split_nodes.size();
+        if (child.split_node_index() >= tree.split_nodes.size()) return false;
+        id = child.split_node_index();
       }
+      if (has_parent[id]) return false;
+      has_parent[id] = true;
+      return true;
+    };
+    for (const auto& node : tree.split_nodes) {
+      bool is_correct = is_correct_child(node.child_if_false) &&
+                        is_correct_child(node.child_if_true);
       if (!is_correct)
         return absl::InvalidArgumentError("incorrect split node");
       for (auto id_type : node.condition->GetInputSignatures()) {
-- 
2.43.0


From f4063fffe6a6f29f36a4dc4b63c9fbcdf138ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:11 +0000
Subject: [PATCH 22/26] fix: single input forests gave wrong results for
 infinite and huge inputs and bounds and for NaN

---
 .../pointwise_evaluation/single_input_eval.cc | 60 ++++++++++++++-----
 .../pointwise_evaluation/single_input_eval.h  |  4 +-
 2 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
index ad671e2..1d1d4ac 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.cc
@@ -14,6 +14,7 @@
 //
 #include "arolla/decision_forest/pointwise_evaluation/single_input_eval.h"
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -60,12 +61,9 @@ absl::Status AddSplitPoints(const SplitCondition* cond,
   if (auto* interval_cond =
           fast_dynamic_downcast_final<const IntervalSplitCondition*>(cond)) {
     if constexpr (std::is_same<T, float>()) {
-      constexpr float inf = std::numeric_limits<float>::infinity();
-      if (interval_cond->left() != -inf) {
+      // Empty intervals (including those with NaN) don't split anything.
+      if (interval_cond->left() <= interval_cond->right()) {
         split_points->push_back(interval_cond->left());
-      }
-      if (interval_cond->right() != inf &&
-          interval_cond->right() != interval_cond->left()) {
         split_points->push_back(interval_cond->right());
       }
       return absl::OkStatus();
@@ -99,6 +97,31 @@ bool is_nan(T v ABSL_ATTRIBUTE_UNUSED) {
   }
 }
 
+// The lowest and the highest possible values.
+template <typename T>
+constexpr T LowestValue() {
+  return std::numeric_limits<T>::has_infinity
+             ? -std::numeric_limits<T>::infinity()
+             : std::numeric_limits<T>::lowest();
+}
+
+template <typename T>
+constexpr T HighestValue() {
+  return std::numeric_limits<T>::has_infinity
+             ? std::numeric_limits<T>::infinity()
+             : std::numeric_limits<T>::max();
+}
+
+// Returns the smallest value greater than `v`. Requires v < HighestValue<T>().
+template <typename T>
+T NextValue(T v) {
+  if constexpr (std::is_floating_point_v<T>) {
+    return std::nextafter(v, HighestValue<T>());
+  } else {
+    return v + 1;
+  }
+}
+
 // Used only on compilation stage.
 template <typename T>
 class InternalEvaluator {
@@ -164,37 +187,46 @@ PiecewiseConstantCompiler<T>::Build(
   if (split_points.empty()) {
     middle_values.push_back(evaluator.Eval(static_cast<T>(0)));
   } else {
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::lowest()));
+    // If there are no values in a range, then the middle value is not used.
+    middle_values.push_back(evaluator.Eval(LowestValue<T>()));
     for (int i = 1; i < split_points.size(); ++i) {
-      T left = split_points[i - 1];
-      T right = split_points[i];
-      middle_values.push_back(evaluator.Eval((left + right) / 2));
+      middle_values.push_back(evaluator.Eval(NextValue(split_points[i - 1])));
     }
-    middle_values.push_back(evaluator.Eval(std::numeric_limits<T>::max()));
+    middle_values.push_back(evaluator.Eval(HighestValue<T>()));
+  }
+
+  float result_if_missed = evaluator.Eval(std::nullopt);
+  float result_if_nan = result_if_missed;
+  if constexpr (std::numeric_limits<T>::has_quiet_NaN) {
+    result_if_nan = evaluator.Eval(std::numeric_limits<T>::quiet_NaN());
   }
 
   return PiecewiseConstantEvaluator<T>(
       input_slot, std::move(split_points), std::move(point_values),
-      std::move(middle_values), evaluator.Eval(std::nullopt));
+      std::move(middle_values), result_if_missed, result_if_nan);
 }
 
 template <typename T>
 PiecewiseConstantEvaluator<T>::PiecewiseConstantEvaluator(
     FrameLayout::Slot<OptionalValue<T>> slot, std::vector<T> split_points,
     std::vector<float> point_values, std::vector<float> middle_values,
-    float result_if_value_is_missed)
+    float result_if_value_is_missed, float result_if_value_is_nan)
     : input_slot_(slot),
       split_points_(std::move(split_points)),
       point_values_(std::move(point_values)),
       middle_values_(std::move(middle_values)),
-      result_if_value_is_missed_(result_if_value_is_missed) {}
+      result_if_value_is_missed_(result_if_value_is_missed),
+      result_if_value_is_nan_(result_if_value_is_nan) {}
 
 template <typename T>
 float PiecewiseConstantEvaluator<T>::Eval(const ConstFramePtr ctx) const {
   OptionalValue<T> opt_value = ctx.Get(input_slot_);
-  if (!opt_value.present || is_nan(opt_value.value)) {
+  if (!opt_value.present) {
     return result_if_value_is_missed_;
   }
+  if (is_nan(opt_value.value)) {
+    return result_if_value_is_nan_;
+  }
   T value = opt_value.value;
 
   int split_point_id =
diff --git a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
index cdcb89a..6b281c9 100644
--- a/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
+++ b/arolla/decision_forest/pointwise_evaluation/single_input_eval.h
@@ -49,7 +49,8 @@ class PiecewiseConstantEvaluator {
                                       std::vector<T> split_points,
                                       std::vector<float> point_values,
                                       std::vector<float> middle_values,
-                                      float result_if_value_is_missed);
+                                      float result_if_value_is_missed,
+                                      float result_if_value_is_nan);
 
   float Eval(ConstFramePtr ctx) const;
 
@@ -59,6 +60,7 @@ class PiecewiseConstantEvaluator {
   std::vector<float> point_values_;
   std::vector<float> middle_values_;
   float result_if_value_is_missed_;
+  float result_if_value_is_nan_;
 };
 
 // Constructs PiecewiseConstantEvaluator from set of decision trees. All trees
-- 
2.43.0


From fc4f1f5ef33fd282513c082f90d1d2ae84bb61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:11 +0000
Subject: [PATCH 23/26] fix: bitmask forests split by the NaN bounds of empty
 intervals

---
 arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc b/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
index 46f008f..db3c0a5 100644
--- a/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
+++ b/arolla/decision_forest/pointwise_evaluation/bitmask_builder.cc
@@ -233,6 +233,9 @@ struct BitmaskBuilder::SplitsBuildingData {
         fast_dynamic_downcast_final<const IntervalSplitCondition*>(
             split.condition.get());
     if (interval_split) {
+      if (!(interval_split->left() <= interval_split->right())) {
+        return absl::OkStatus();  // Empty interval, the condition never holds.
+      }
       ASSIGN_OR_RETURN(auto* splits,
                        GetIntervalSplitsForInput(interval_split->input_id()));
       const float inf = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 79cc2b1d92e3c47a95599c5ba7d0ec4cb46e42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:05 +0000
Subject: [PATCH 24/26] fix: AlmostFullBuilder::Build(size) without missed
 elements

---
 arolla/dense_array/bitmap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arolla/dense_array/bitmap.h b/arolla/dense_array/bitmap.h
index 54fada1..dddc764 100644
--- a/arolla/dense_array/bitmap.h
+++ b/arolla/dense_array/bitmap.h
@@ -250,6 +250,9 @@ class AlmostFullBuilder {
 
   Bitmap Build() && { return std::move(bitmap_buffer_); }
   Bitmap Build(int64_t size) && {
+    if (bitmap_ == nullptr) {
+      return Bitmap();  // nothing is missed
+    }
     return std::move(bitmap_buffer_).Slice(0, BitmapSize(size));
   }
 
-- 
2.43.0


From 51f55cc5f04a03c3792c7020cab452d38a475d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:05 +0000
Subject: [PATCH 25/26] fix: reject curves with NaN among the arguments of
 control points

---
 arolla/pwlcurve/curves.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arolla/pwlcurve/curves.cc b/arolla/pwlcurve/curves.cc
index 8751ea7..96447cc 100644
--- a/arolla/pwlcurve/curves.cc
+++ b/arolla/pwlcurve/curves.cc
@@ -261,7 +261,7 @@ Status CommonChecks(absl::Span<const Point> points,
     return Status(StatusCode::kInvalidArgument, "NOT_ENOUGH_FINITE_POINTS");
   for (int ii = 1; ii < points.size(); ++ii) {
     // Check whether x values are sorted and unique.
-    if (points[ii - 1].x >= points[ii].x) {
+    if (!(points[ii - 1].x < points[ii].x)) {
       return Status(StatusCode::kInvalidArgument,
                     "X_VALUES_NOT_STRICTLY_MONOTONICALLY_INCREASING");
     }
-- 
2.43.0


From 9f0e4f87575850652bc452efe9dc3eb69178df5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:54 +0000
Subject: [PATCH 26/26] fix: empty arrays have one fingerprint, whatever their
 form

---
 arolla/array/array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arolla/array/array.h b/arolla/array/array.h
index 985566e..b42db22 100644
--- a/arolla/array/array.h
+++ b/arolla/array/array.h
@@ -734,6 +734,11 @@ struct ArenaTraits<Array<T>> {
 template <typename T>
 struct FingerprintHasherTraits<Array<T>> {
   void operator()(FingerprintHasher* hasher, const Array<T>& arg) const {
+    if (arg.empty()) {
+      // The form of an empty array is not preserved by serialization.
+      hasher->Combine(arg.size());
+      return;
+    }
     hasher->Combine(arg.size(), arg.dense_data(), arg.missing_id_value(),
                     arg.id_filter());
   }
-- 
2.43.0

