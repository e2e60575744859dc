-------------------------------- MODULE Eigs --------------------------------
(* Contracts of the spectral decompositions.  Sequences of order codes keep  *)
(* the order, the equality and the sign of the values they stand for; a code *)
(* of -10^9 is a value that is not finite.                                   *)
EXTENDS Integers, Sequences

WithinE(x, tol) == x >= 0 /\ x <= tol
Finite(s) == \A i \in 1..Len(s) : s[i] > -1000000000
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Descending(s) == \A i \in 1..(Len(s) - 1) : s[i] >= s[i + 1]
Nonneg(s) == \A i \in 1..Len(s) : s[i] >= 0
Opt(r, key, tol) == key \in DOMAIN r => WithinE(r[key], tol)

Sym22OK(r) ==
  /\ WithinE(r.large, 4) /\ WithinE(r.small, 8) /\ WithinE(r.agree, 2)
  /\ WithinE(r.orth, 6) /\ WithinE(r.res, 12) /\ r.order = 1
Svd22OK(r) ==
  /\ WithinE(r.large, 8) /\ WithinE(r.small, 8) /\ r.order = 1
  /\ WithinE(r.vlarge, 12) /\ WithinE(r.vsmall, 12)
  /\ WithinE(r.orthl, 12) /\ WithinE(r.orthr, 12) /\ WithinE(r.res, 16)

SteqrOK(a, r) ==
  /\ r.ret = 0 /\ r.pad = 1
  /\ Len(r.order) = a.n /\ Finite(r.order) /\ Ascending(r.order)
  /\ WithinE(r.val, 4)
  /\ Opt(r, "res", 12) /\ Opt(r, "orth", 12) /\ Opt(r, "gram", 24)

SvdValsOK(r, k) ==
  /\ r.ret = 0 /\ r.ret2 = 0 /\ r.pad = 1
  /\ Len(r.order) = k /\ Finite(r.order) /\ Nonneg(r.order) /\ Descending(r.order)
  /\ Len(r.order2) = k /\ Finite(r.order2) /\ Nonneg(r.order2) /\ Descending(r.order2)
SvdqrOK(a, r) ==
  /\ SvdValsOK(r, a.n)
  /\ WithinE(r.agree, 12) /\ WithinE(r.fro, 8)
  /\ Opt(r, "res", 24) /\ Opt(r, "ures", 24) /\ Opt(r, "vres", 24)
  /\ Opt(r, "uorth", 12) /\ Opt(r, "vorth", 12) /\ Opt(r, "ugram", 24) /\ Opt(r, "vgram", 24)
GesvdOK(a, r) ==
  /\ SvdValsOK(r, IF a.m < a.n THEN a.m ELSE a.n)
  /\ WithinE(r.agree, 12) /\ WithinE(r.fro, 8)
  /\ Opt(r, "res", 24) /\ Opt(r, "ures", 24) /\ Opt(r, "vres", 24)
  /\ Opt(r, "ugram", 48) /\ Opt(r, "vgram", 48)

(* reductions to condensed form                                              *)
HessRedOK(r) ==
  /\ r.ret = 0 /\ r.gret = 0 /\ r.pad = 1 /\ r.gpad = 1
  /\ r.hess = 1 /\ r.outside = 1 /\ r.sreal = 1 /\ r.ident = 1
  /\ WithinE(r.res, 8) /\ WithinE(r.tau, 8) /\ WithinE(r.gerr, 8) /\ WithinE(r.orth, 12)
BidiagOK(r) ==
  /\ r.ret = 0 /\ r.gret = 0 /\ r.pad = 1 /\ r.gpad = 1 /\ r.breal = 1
  /\ WithinE(r.res, 8) /\ WithinE(r.tau, 8) /\ WithinE(r.qerr, 8) /\ WithinE(r.perr, 8) /\ WithinE(r.orth, 12)
TridOK(r) ==
  /\ r.ret = 0 /\ r.gret = 0 /\ r.pad = 1 /\ r.gpad = 1 /\ r.treal = 1 /\ r.unref = 1
  /\ WithinE(r.res, 8) /\ WithinE(r.tau, 8) /\ WithinE(r.gerr, 8) /\ WithinE(r.orth, 12)
GghdOK(r) ==
  /\ r.ret = 0 /\ r.pad = 1 /\ r.keep = 1 /\ r.hess = 1 /\ r.tri = 1 /\ r.outside = 1
  /\ WithinE(r.qorth, 24) /\ WithinE(r.zorth, 24)
  /\ Opt(r, "ares", 12) /\ Opt(r, "bres", 12) /\ Opt(r, "nres", 12) /\ Opt(r, "mres", 12)
HrqOK(r) == r.tri = 1 /\ r.pad = 1 /\ WithinE(r.unit, 8) /\ WithinE(r.res, 12)

(* eigenvalue iterations                                                     *)
HqrOK(a, r) ==
  /\ r.ret = 0 /\ r.low = 1 /\ r.pad = 1 /\ r.keep = 1 /\ r.wout = 1 /\ r.fin = 1
  /\ WithinE(r.sig, 24) /\ WithinE(r.tr1, 12) /\ WithinE(r.tr2, 24) /\ r.out = 1
  /\ ("pairs" \in DOMAIN r => r.pairs = 1) /\ ("same" \in DOMAIN r => r.same = 1)
  /\ (a.wantt = 1 => r.blk = 1 /\ r.std = 1 /\ WithinE(r.weq, 8))
  /\ (a.wantz = 1 => r.zout = 1 /\ WithinE(r.orth, 24))
  /\ (a.wantt = 1 /\ a.wantz = 1 => WithinE(r.res, 24))

(* one deflation or one sweep inside the active block                        *)
StepOK(a, r) ==
  /\ r.ret = 0 /\ r.pad = 1 /\ r.keep = 1 /\ r.out = 1
  /\ Opt(r, "orth", 24) /\ Opt(r, "res", 12) /\ Opt(r, "full", 12) /\ Opt(r, "tr1", 12) /\ Opt(r, "fro", 12)
AedOK(a, r) ==
  StepOK(a, r) /\ r.count = 1 /\ r.defl = 1 /\ r.schur = 1 /\ r.wout = 1 /\ WithinE(r.weq, 12)
Eig22OK(r) == WithinE(r.tr, 8) /\ WithinE(r.det, 16) /\ r.conj = 1 /\ WithinE(r.col, 12)

(* generalized eigenvalue iterations                                         *)
HqzOK(a, r) ==
  /\ r.ret = 0 /\ r.low = 1 /\ r.pad = 1 /\ r.keep = 1 /\ r.wout = 1 /\ r.fin = 1
  /\ WithinE(r.sig, 24) /\ WithinE(r.det, 24) /\ r.out = 1
  /\ ("same" \in DOMAIN r => r.same = 1)
  /\ (a.wants = 1 => r.blk = 1 /\ r.std = 1 /\ r.pairs = 1 /\ WithinE(r.weq, 12) /\ WithinE(r.ares, 24) /\ WithinE(r.bres, 24))
  /\ (a.wantq = 1 => r.qout = 1 /\ WithinE(r.qorth, 24))
  /\ (a.wantz = 1 => r.zout = 1 /\ WithinE(r.zorth, 24))
  /\ Opt(r, "cres", 24)
GStepOK(a, r) ==
  /\ r.ret = 0 /\ r.pad = 1 /\ r.keep = 1 /\ r.out = 1 /\ WithinE(r.fro, 12)
  /\ Opt(r, "qorth", 24) /\ Opt(r, "zorth", 24) /\ Opt(r, "ares", 12) /\ Opt(r, "bres", 12) /\ Opt(r, "cres", 12)
  /\ Opt(r, "afull", 12) /\ Opt(r, "bfull", 12)
AedgOK(a, r) ==
  GStepOK(a, r) /\ r.count = 1 /\ r.defl = 1 /\ r.schur = 1 /\ r.wout = 1 /\ WithinE(r.weq, 12)
Qz22OK(r) ==
  /\ r.fin = 1 /\ WithinE(r.sig, 8) /\ WithinE(r.det, 16) /\ r.conj = 1 /\ WithinE(r.col, 12)
  /\ WithinE(r.sqorth, 8) /\ WithinE(r.szorth, 8) /\ WithinE(r.sares, 12) /\ WithinE(r.sbres, 12)
  /\ r.sform = 1 /\ r.sfin = 1 /\ WithinE(r.sval, 12) /\ r.pad = 1
InvhOK(r) == WithinE(r.orth, 8) /\ WithinE(r.zero, 12) /\ r.same = 1

(* eigenvectors of a quasi-triangular matrix: fin: every vector belonging to *)
(* a simple eigenvalue is finite and nonzero; res: its equation; tail, same: *)
(* other columns and the matrix untouched; sel: the selection is reported    *)
EvecOK(r) ==
  r.ret = 0 /\ r.fin = 1 /\ WithinE(r.res, 8) /\ r.tail = 1 /\ r.sel = 1 /\ r.same = 1 /\ r.pad = 1

EigsOps == {"n_trevc", "n_trevc3", "n_hqz", "n_aedg", "n_sweepg", "n_qz22", "n_invh", "n_aed", "n_sweep", "n_eig22", "n_hqr", "n_hess", "n_bidiag", "n_trid", "n_gghd", "n_hrq", "n_sym22", "n_svd22", "n_steqr", "n_svdqr", "n_gesvd"}
EigsAccept(e) ==
  LET r == e.ret
      a == e.a IN
  CASE e.op \in {"n_trevc", "n_trevc3"} -> EvecOK(r)
    [] e.op = "n_hqz" -> HqzOK(a, r)
    [] e.op = "n_aedg" -> AedgOK(a, r)
    [] e.op = "n_sweepg" -> GStepOK(a, r)
    [] e.op = "n_qz22" -> Qz22OK(r)
    [] e.op = "n_invh" -> InvhOK(r)
    [] e.op = "n_aed" -> AedOK(a, r)
    [] e.op = "n_sweep" -> StepOK(a, r)
    [] e.op = "n_eig22" -> Eig22OK(r)
    [] e.op = "n_hqr" -> HqrOK(a, r)
    [] e.op = "n_hess" -> HessRedOK(r)
    [] e.op = "n_bidiag" -> BidiagOK(r)
    [] e.op = "n_trid" -> TridOK(r)
    [] e.op = "n_gghd" -> GghdOK(r)
    [] e.op = "n_hrq" -> HrqOK(r)
    [] e.op = "n_sym22" -> Sym22OK(r)
    [] e.op = "n_svd22" -> Svd22OK(r)
    [] e.op = "n_steqr" -> SteqrOK(a, r)
    [] e.op = "n_svdqr" -> SvdqrOK(a, r)
    [] e.op = "n_gesvd" -> GesvdOK(a, r)
=============================================================================
