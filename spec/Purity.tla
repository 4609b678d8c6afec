-------------------------------- MODULE Purity --------------------------------
(* What a user holds never changes behind their back, and what an operation   *)
(* answers depends on the thing it is asked of, not on what happened before.   *)
(* Menu: the public operations on each kind of thing, what they make (a kind,  *)
(* or "value"), and which parts of the thing the made one has of its own       *)
(* ("pos" = positions and weights, "str" = structure); other parts are shared. *)
EXTENDS Clipping

Val(names) == {[op |-> x, makes |-> "value", own |-> {}] : x \in names}
Mk(x, k, parts) == {[op |-> x, makes |-> k, own |-> parts]}
Both == {"pos", "str"}

Topological == Val({"t_matrices", "t_corners", "t_incidence", "t_matrix", "t_oriented", "t_flags", "t_averaging", "t_degree", "t_selectors",
   "t_dual", "t_parity", "t_labels", "t_components", "t_subset", "t_boundary", "t_chain", "t_fix"})
Common(k) == Topological \cup Val({"box", "primal_position", "smooth_operator", "creased_operator"})
   \cup Mk("translate", k, {"pos"}) \cup Mk("scale", k, {"pos"}) \cup Mk("transform", k, {"pos"}) \cup Mk("copy", k, {}) \cup Mk("subset", k, Both)
   \cup Mk("smooth", k, {"pos"}) \cup Mk("creased", k, {"pos"})
Measured == Val({"dual_position", "metric", "hodge", "centered", "averages"})
Sampled == Val({"pick_primal", "pick_dual", "pick_fundamental", "sample_primal", "sample_dual"})
Menus == [
   tri |-> Common("tri") \cup Measured \cup Sampled \cup Val({"pick_hinted", "pick_corner_hinted", "excess", "angles", "areas", "loop_operator", "regions", "brute", "t_domains", "remap"})
      \cup Mk("fix", "tri", {"str"}) \cup Mk("weigh", "tri", {"pos"}) \cup Mk("loop", "tri", Both) \cup Mk("fundamental", "tri", Both) \cup Mk("simplicial", "tri", Both)
      \cup Mk("cubical", "quads", Both) \cup Mk("rim", "rim", Both) \cup Mk("clip", "tri", Both) \cup Mk("split", "tri", Both),
   surface |-> Common("surface") \cup Measured \cup Val({"excess", "angles", "areas", "loop_operator", "regions", "normals", "vertex_normals", "vertex_areas", "edge_lengths", "volume", "center", "area", "t_domains"})
      \cup Mk("fix", "surface", {"str"}) \cup Mk("loop", "surface", Both) \cup Mk("loop_smooth", "surface", Both) \cup Mk("fundamental", "surface", Both)
      \cup Mk("clip", "surface", Both) \cup Mk("extrude", "surface", Both) \cup Mk("stl", "surface", Both) \cup Mk("rim", "rim", Both),
   tets |-> Common("tets") \cup Measured \cup Sampled \cup Val({"pick_hinted", "excess", "brute", "t_domains", "remap"}) \cup Mk("fix", "tets", {"str"}) \cup Mk("weigh", "tets", {"pos"})
      \cup Mk("simplicial", "tets", Both) \cup Mk("rim", "rim", Both),
   quads |-> Common("quads") \cup Val({"dual_position", "operator", "smooth_subdivision", "t_domains"})
      \cup Mk("fix", "quads", {"str"}) \cup Mk("subdivide", "quads", Both) \cup Mk("subdivide_smooth", "quads", Both) \cup Mk("fundamental", "plain", Both)
      \cup Mk("simplicial", "plain", Both) \cup Mk("rim", "rim", Both),
   grid |-> Common("grid") \cup Measured \cup Sampled \cup Val({"pick_hinted", "pick_corner_hinted", "average_dual", "t_domains", "operator", "t_multigrid"})
      \cup Mk("fix", "grid", {"str"}) \cup Mk("subdivide", "grid", Both) \cup Mk("fundamental", "plain", Both) \cup Mk("product", "quads", Both) \cup Mk("rim", "rim", Both),
   plain |-> Common("plain") \cup Val({"dual_position", "metric", "centered"}) \cup Mk("fix", "plain", {"str"}) \cup Mk("rim", "rim", Both),
   rim |-> Topological \cup Val({"box"}),
   sphere |-> Topological \cup Measured \cup Sampled \cup Val({"pick_hinted", "box", "primal_position", "excess", "smooth_operator"})
      \cup Mk("loop", "sphere", Both) \cup Mk("fundamental", "sphere", Both) \cup Mk("as_euclidian", "plain", {}),
   sten |-> Val({"s_hodge", "s_derive", "s_transfers", "s_smooth", "s_coarsen", "s_average", "s_sample", "s_positions", "s_form"})
      \cup Mk("s_coarse", "sten", Both) \cup Mk("s_fine", "sten", Both) \cup Mk("s_canonical", "sys", Both) \cup Mk("s_diffusion", "eq", Both),
   sys |-> Val({"y_dense", "y_apply", "y_alloc", "y_restrict", "y_algebra"}) \cup Mk("y_normal", "sys", Both) \cup Mk("y_normal_ne", "sys", Both) \cup Mk("y_slice", "sys", {}) \cup Mk("y_zeroed", "sys", {"str"}),
   eq |-> Val({"e_dense", "e_residual", "e_jacobi", "e_overrelax", "e_smooth", "e_blockgs", "e_blockne", "e_transfer", "e_solve", "e_cycle"}) \cup Mk("e_coarse", "eq", Both) \cup Mk("e_normal", "eqn", Both),
   eqn |-> Val({"e_dense", "e_residual"}) \cup Mk("e_normal", "eqn", Both),
   array |-> Val({"a_sum", "a_dense", "a_entries", "a_dot", "a_find"}) \cup Mk("a_add", "array", Both) \cup Mk("a_mul", "array", Both) \cup Mk("a_scale", "array", Both)
      \cup Mk("a_transpose", "array", Both) \cup Mk("a_filter", "array", Both) \cup Mk("a_concat", "array", Both)
]
OnMenu(k, op) == \E m \in Menus[k] : m.op = op
MadeBy(k, op) == (CHOOSE m \in Menus[k] : m.op = op).makes
RECURSIVE KindOf(_, _)
\* kind of the thing a term <<operation, operation, ...>> on a base of kind k stands for
KindOf(k, term) == IF term = << >> THEN k ELSE IF ~OnMenu(k, Head(term)) THEN "none" ELSE KindOf(MadeBy(k, Head(term)), Tail(term))

\* Answers are numbered: equal numbers, equal answers (up to rounding).
\* pool: what each held thing looked like when it came to be.
Step_Fail(e, pool) ==
   CASE ~OnMenu(KindOf(e.kind, e.term), e.name) -> {"UnknownOperation"}
     [] \E i \in Idx(e.held) : e.held[i][1] \in DOMAIN pool /\ e.held[i][2] # pool[e.held[i][1]] -> {"HeldThingsUnaltered"}
     [] ~e.arguments -> {"ArgumentsUnaltered"}
     [] e.got # e.fresh -> {"AnswerIndependentOfHistory"}
     [] OTHER -> {}
Observe_Fail(e, pool) ==
   CASE \E i \in Idx(e.held) : e.held[i][1] \in DOMAIN pool /\ e.held[i][2] # pool[e.held[i][1]] -> {"HeldThingsUnaltered"}
     [] e.got # e.fresh -> {"AnswerIndependentOfHistory"}
     [] e.rebuilt # e.fresh -> {"SameAsBuiltFromScratch"}
     [] OTHER -> {}
=============================================================================
