------------------------------ MODULE Workbench ------------------------------
(* The library as a state machine.  A user grows a heap of meshes by calling *)
(* public operations; the linearization point of each call is its return.    *)
(*   heap : handle -> presented topology                                     *)
(* Verdict(e) is the set of clauses event e breaks in the current state;     *)
(* Next0 is the transition "the call returned and its result was logged".    *)
EXTENDS Dense

VARIABLES heap

HeapInit == heap = << >>
Known(h) == h \in DOMAIN heap
Put(h, T) == IF Known(h) THEN [heap EXCEPT ![h] = T] ELSE heap @@ (h :> T)

TopoVerdict(e) ==
   CASE e.op = "make"         -> Make_Fail(e)
     [] e.op = "make_invalid" -> MakeInvalid_Fail(e)
     [] e.op = "chaincheck"   -> ChainCheck_Fail(e)
     [] e.op = "dualaverage"  -> DualAverage_Fail(e)
     [] e.op \in {"perms", "combs", "simplexparity", "cubeparity", "cubebatch", "symmetrytable"} -> Parity_Fail(e)
     [] e.op = "carried"      -> Carried_Fail(e)
     [] e.op = "stencil"      -> Stencil_Fail(e)
     [] e.op = "transferapply" -> TransferApply_Fail(e)
     [] e.op = "cycle"        -> Cycle_Fail(e)
     [] e.op = "levels"       -> HierarchyOrder_Fail(e)
     [] e.op = "kept"         -> IF e.same THEN {} ELSE {"ArgumentsUnchanged"}
     [] e.op = "blockmat"     -> BlockMat_Fail(e)
     [] e.op = "blockvec"     -> BlockVec_Fail(e)
     [] e.op = "blockdiv"     -> BlockDiv_Fail(e)
     [] e.op = "blockscalar"  -> BlockScalar_Fail(e)
     [] e.op = "hold"         -> {}
     [] e.op = "step"         -> Step_Fail(e, heap)
     [] e.op = "observe"      -> Observe_Fail(e, heap)
     [] e.op \in TensorOps -> Tensors_Fail(e)
     [] e.op = "made" -> Made_Fail(e)
     [] e.op = "stlread" -> StlRead_Fail(e)
     [] e.op = "adopt"        -> ComplexFailures(e.topo)
     [] e.op \in DenseOps -> Dense_Fail(e)
     [] ~(Has(e, "of") /\ Known(e.of)) -> {"UnknownHandle"}
     [] e.op = "incidence"    -> Inc_Fail(e, heap[e.of])
     [] e.op = "is_oriented"  -> IsOriented_Fail(e, heap[e.of])
     [] e.op = "rel_parity"   -> RelParity_Fail(e, heap[e.of])
     [] e.op = "fix"          -> Fix_Fail(e, heap[e.of])
     [] e.op = "boundary"     -> Boundary_Fail(e, heap[e.of])
     [] e.op = "selectors"    -> Selectors_Fail(e, heap[e.of])
     [] e.op = "dual"         -> Dual_Fail(e, heap[e.of])
     [] e.op = "subset"       -> Subset_Fail(e, heap[e.of])
     [] e.op = "connect"      -> Connect_Fail(e, heap[e.of])
     [] e.op = "regions"      -> Regions_Fail(e, heap[e.of])
     [] e.op = "average"      -> Average_Fail(e, heap[e.of])
     [] e.op = "filled"       -> Filled_Fail(e, heap[e.of])
     [] e.op = "refine"       -> Refine_Fail(e, heap[e.of])
     [] e.op = "domains"      -> Domains_Fail(e, heap[e.of])
     [] e.op = "transfers"    -> Transfers_Fail(e, heap[e.of], heap[e.fine])
     [] e.op = "dualtransfers" -> DualTransfers_Fail(e, heap[e.of], heap[e.fine])
     [] e.op = "quadtransfer" -> QuadVertexTransfer_Fail(e, heap[e.of])
     [] e.op = "positions"    -> Positions_Fail(e, heap[e.of])
     [] e.op = "product"      -> Product_Fail(e, heap[e.of], heap[e.by])
     [] e.op = "elementpositions" -> ElementPositions_Fail(e, heap[e.of])
     [] e.op = "productpositions" -> ProductPositions_Fail(e, heap[e.of], heap[e.by])
     [] e.op = "smooth"       -> Smooth_Fail(e, heap[e.of], heap[e.fine_of])
     [] e.op = "smoothop"     -> SmoothOperator_Fail(e, heap[e.of], heap[e.fine_of])
     [] e.op \in {"gridmetric", "wellcentred", "planar"} -> Metric_Fail(e, heap[e.of])
     [] e.op = "surface"      -> Surface_Fail(e, heap[e.of])
     [] e.op = "area"         -> Area_Fail(e, heap[e.of])
     [] e.op = "curve"        -> Curve_Fail(e, heap[e.of])
     [] e.op \in {"gridpick", "gridfund", "griddual", "gridsample0", "gridsampledual", "simppick", "simpdual", "simpfund", "simpsample0", "simpsampledual"} -> Sampling_Fail(e, heap[e.of])
     [] e.op = "tiling"       -> Tiling_Fail(e, heap[e.of], heap[e.fine_of])
     [] e.op = "stencilapply"  -> StencilApply_Fail(e, heap[e.of])
     [] e.op = "explicit"      -> Explicit_Fail(e, heap[e.of])
     [] e.op = "stencilmetric" -> StencilMetric_Fail(e, heap[e.of])
     [] e.op = "hierarchy"     -> Hierarchy_Fail(e, heap[e.of])
     [] e.op = "smoothers"     -> Smoothers_Fail(e, heap[e.of])
     [] e.op = "stencilaverage" -> StencilAverage_Fail(e, heap[e.of])
     [] e.op = "stencilsample" -> StencilSample_Fail(e, heap[e.of])
     [] e.op = "expr"          -> Expr_Fail(e, heap[e.of])
     [] e.op = "system"        -> System_Fail(e, heap[e.of], heap[IF Has(e, "fine") THEN e.fine ELSE e.of])
     [] e.op = "sysvec"        -> SysVec_Fail(e, heap[e.of])
     [] e.op = "relax"         -> Relax_Fail(e, heap[e.of])
     [] e.op = "refuse"        -> Refuse_Fail(e, heap[e.of])
     [] e.op = "clip"          -> Clip_Fail(e, heap[e.of])
     [] e.op = "extrude"       -> Extrude_Fail(e, heap[e.of])
     [] e.op = "stlwrite"      -> StlWrite_Fail(e, heap[e.of])
     [] e.op = "weighted"      -> Weighted_Fail(e, heap[e.of])
     [] e.op = "remap"         -> Remap_Fail(e, heap[e.of])
     [] e.op = "powerpick"     -> PowerPick_Fail(e, heap[e.of])
     [] e.op = "weightedplanar" -> WeightedPlanar_Fail(e, heap[e.of])
     [] e.op \in SphereOps    -> Sphere_Fail(e, heap[e.of])
     [] e.op \in VelocityOps  -> VelocityOp_Fail(e, heap[e.of])
     [] e.op \in MoveOps      -> MoveOp_Fail(e, heap[e.of])
     [] OTHER                 -> {"UnknownOperation"}

HeapNext(e) ==
   heap' = IF e.op = "case" THEN << >>
           ELSE IF Has(e, "h") /\ Has(e, "topo") THEN Put(e.h, e.topo)
           ELSE IF Has(e, "h") /\ Has(e, "val") THEN Put(e.h, e.val)
           ELSE heap
=============================================================================
