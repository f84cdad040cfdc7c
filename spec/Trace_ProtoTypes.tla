--------------------------- MODULE Trace_ProtoTypes ---------------------------
(* Canonical value type and presence of every scalar field kind.                 *)
EXTENDS TraceBase
Type(f) ==
  CASE f \in {"M2.f_int32", "M2.f_sint32", "M2.f_sfixed32", "M2.f_enum", "M2.f_def",
              "M3.f_int32", "M3.f_enum", "M3.o_int32", "M3.o_enum", "M3.w_int",
              "c++.int8_t", "c++.uint8_t", "c++.int16_t", "c++.uint16_t", "c++.int32_t",
              "c++.enum"} -> "int32"
    [] f \in {"M2.f_int64", "M2.f_uint32", "M2.f_sint64", "M2.f_fixed32", "M2.f_sfixed64",
              "M3.f_int64", "M3.f_uint32", "c++.uint32_t", "c++.int64_t"} -> "int64"
    [] f \in {"M2.f_uint64", "M2.f_fixed64", "M3.f_uint64", "c++.uint64_t"} -> "uint64"
    [] f \in {"M2.f_float", "M3.f_float", "c++.float"} -> "float"
    [] f \in {"M2.f_double", "M3.f_double", "c++.double"} -> "double"
    [] f \in {"M2.f_bool", "M3.f_bool", "M3.o_bool", "c++.bool"} -> "bool"
    [] f = "c++.text" -> "text"
    [] OTHER -> "bytes"
(* proto3 fields without explicit presence always read as present.               *)
Implicit == {"M3.f_int32", "M3.f_int64", "M3.f_uint32", "M3.f_uint64", "M3.f_float",
             "M3.f_double", "M3.f_bool", "M3.f_string", "M3.f_bytes", "M3.f_enum"}
Default(f) == IF f = "M2.f_def" THEN "42" ELSE IF Type(f) = "bytes" THEN "" ELSE "0"
B(x) == IF x THEN 1 ELSE 0
Ok(e) == /\ e.type = Type(e.f) /\ e.otype = Type(e.f)
         /\ e.empty = 0 /\ e.present = 1
         /\ Has(e, "size") => e.size = 8
         /\ e.value = (IF e.set = 1 THEN e.v ELSE Default(e.f))
         /\ Has(e, "has") => /\ e.has = B(e.set = 1 \/ e.f \in Implicit)
                             /\ e.has2 = e.has
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
=============================================================================
