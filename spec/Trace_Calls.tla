----------------------------- MODULE Trace_Calls -----------------------------
EXTENDS TraceBase, Calls

Base(e) == e.base
Sorted(S) == SortText(S)

OkCall(e) ==
  /\ Is(e.tree, e.val, e.base) /\ Once(e.tree, e.val, e.n)
  /\ e.deps = Sorted(Deps(e.tree)) /\ e.data = Sorted(Data(e.tree))
  /\ e.isf = <<TRUE, FALSE, FALSE>>
OkCtx(e) ==
  /\ Is(e.tree, e.val, e.base) /\ Once(e.tree, e.val, e.n)
  /\ e.kept /\ e.isf = (e.tree.t = "c")

\* The last rule is the requested one; its generator has all dependencies.
Last(e) == e.rules[Len(e.rules)]
EvalTool == Cp("//arolla/codegen:eval_python_function_call")
EvalLib == Cp("//arolla/codegen:eval_python_function_call_lib")
EvalScript == Cp("//arolla/codegen:eval_python_function_call.py")
Helpers(e) == {e.rules[i] : i \in 1..(Len(e.rules) - 1)}
OkGenerator(e, gen, deps) ==
  IF gen = EvalTool THEN deps \subseteq Range1(e.std)
  ELSE \E b \in Helpers(e) :
         /\ b.kind = "py_binary" /\ b.name = gen
         /\ deps \cup {EvalLib} \subseteq Range1(b.deps)
         /\ Len(b.srcs) = 1
         /\ \E c \in Helpers(e) : c.kind = "genrule" /\ c.outs = b.srcs /\ c.srcs = <<EvalScript>> /\ c.copies
OkRules(e, deps, data, testonly) ==
  LET m == Last(e) IN
  /\ m.kind = "genrule" /\ Len(m.tools) >= 1 /\ NoDup(m.tools)
  /\ Range1(m.tools) \ {m.tools[1]} = data
  /\ OkGenerator(e, m.tools[1], deps)
  /\ \A r \in Helpers(e) : r.testonly = testonly /\ ~r.public
  /\ m.testonly = testonly
OkRule(e) ==
  LET m == Last(e) IN
  /\ OkRules(e, Deps(e.tree), Data(e.tree), e.testonly)
  /\ m.name = Cp("rule_x") /\ m.outs = e.outs /\ m.public = e.public /\ m.tags = e.tags /\ m.stamp = e.stamp
  /\ e.used /\ e.argc = 1 /\ e.flag = "--arolla_call_python_function_spec"
  /\ Is(e.tree, e.val, e.base) /\ Once(e.tree, e.val, e.n)
  /\ LET given == {e.env[i][1] : i \in 1..Len(e.env)}
         want(n) == IF n \in given THEN e.env[CHOOSE i \in 1..Len(e.env) : e.env[i][1] = n][2] ELSE Cp("C.UTF-8") IN
     \A i \in 1..Len(e.env2) : e.env2[i][2] = want(e.env2[i][1])
OkReal(e) == Is(e.tree, e.val, e.base) /\ NoDup(Ns(e.val)) /\ Nested(e.val)
OkTmpl(e) ==
  /\ OkRules(e, Deps(e.tree) \cup {Cp("//arolla/codegen:render_jinja2_template")},
             Data(e.tree) \cup {Cp("t.jinja2")} \cup (IF e.srcs THEN {Cp("lib.jinja2")} ELSE {}), FALSE)
  /\ Last(e).outs = <<Cp("t.out")>> /\ Last(e).name = Cp("tt")
  /\ e.fn = "arolla.codegen.render_jinja2_template.render_jinja2_template" /\ e.tmpl /\ e.out = TRUE
  /\ Is(e.tree, e.val, e.base) /\ Once(e.tree, e.val, e.n)

Ok(e) == CASE e.op = "call" -> OkCall(e)
           [] e.op = "ctx" -> OkCtx(e)
           [] e.op = "rule" -> OkRule(e)
           [] e.op = "real" -> OkReal(e)
           [] e.op = "tmpl" -> OkTmpl(e)
           [] e.op = "prefix" -> e.out = Trimmed(e.s)
           [] e.op = "file" -> e.out = (IF e.str THEN Utf8(e.s) ELSE e.s)
           [] e.op = "load" -> e.err = e.want /\ (e.err = "" => e.same)
           [] e.op = "bad" -> e.a = "fail" /\ e.b = "assert"
Inv == ~Crashed(Trace[l]) /\ Ok(Trace[l])
==============================================================================
