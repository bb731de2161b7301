------------------------------ MODULE GenProps ------------------------------
(***************************************************************************)
(* Which programs are generated for which property.                        *)
(***************************************************************************)
EXTENDS GenLong

PropNo == CHOOSE i \in 1..99 : Prop = (IF i < 10 THEN "C0" ELSE "C") \o ToString(i)
GenCall(K, idx, s, R) ==
  CASE Prop = "C01" -> GenC01(K, idx, s, R)
    [] Prop = "C02" -> GenC02(K, idx, s, R)
    [] Prop = "C03" -> GenC03(K, idx, s, R)
    [] Prop = "C04" -> GenC04(K, idx, s, R)
    [] Prop = "C05" -> GenC05(K, idx, s, R)
    [] Prop = "C06" -> GenC06(K, idx, s, R)
    [] Prop = "C07" -> GenC07(K, idx, s, R)
    [] Prop = "C08" -> GenC08(K, idx, s, R)
    [] Prop = "C09" -> GenC09(K, idx, s, R)
    [] Prop = "C10" -> GenC10(K, idx, s, R)
    [] Prop = "C11" -> GenC11(K, idx, s, R)
    [] Prop = "C12" -> GenC12(K, idx, s, R)
    [] Prop = "C13" -> GenC13(K, idx, s, R)
    [] Prop = "C14" -> GenC14(K, idx, s, R)
    [] Prop = "C15" -> GenC15(K, idx, s, R)
    [] Prop = "C16" -> GenC16(K, idx, s, R)
    [] Prop = "C17" -> GenC17(K, idx, s, R)
    [] Prop = "C18" -> GenC18(K, idx, s, R)
    [] Prop = "C19" -> GenC19(K, idx, s, R)
    [] Prop = "C20" -> GenC20(K, idx, s, R)
    [] Prop = "C21" -> GenC21(K, idx, s, R)
    [] Prop = "C22" -> GenC22(K, idx, s, R)
    [] Prop = "C23" -> GenC23(K, idx, s, R)
    [] Prop = "C24" -> GenC24(K, idx, s, R)
    [] Prop = "C25" -> GenC25(K, idx, s, R)
    [] Prop = "C26" -> GenC26(K, idx, s, R)
    [] Prop = "C27" -> GenC27(K, idx, s, R)
    [] Prop = "C28" -> GenC28(K, idx, s, R)
=============================================================================
