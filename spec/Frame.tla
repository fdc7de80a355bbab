-------------------------------- MODULE Frame -------------------------------
(* What a call may read and write.                                            *)
(* Footprint[f](ns): the buffers of call f in the order of its parameters,    *)
(* each <<role, size>>; ns are its numbers in the order of its parameters.    *)
(* Roles: in, out, and own (output of which the caller sets the first byte).  *)
EXTENDS Integers, Sequences
El == 32
Sh == 33
Known == {"oprf_KeyGen", "oprf_Blind", "oprf_Evaluate", "oprf_Unblind", "oprf_Finalize", "expand_message_xmd", "voprf_hash_to_group",
          "toprf_create_shares", "dkg_reconstruct", "coeff", "toprf_thresholdmult", "toprf_thresholdcombine", "toprf_Evaluate",
          "toprf_3hashtdh", "dkg_start", "dkg_verify_commitments", "dkg_verify_commitment", "dkg_finish", "invertedVDMmatrix",
          "toprf_mpc_mul_start", "toprf_mpc_mul_finish"}
Footprint(f, ns) ==
  CASE f = "oprf_KeyGen" -> << <<"out", El>> >>
    [] f = "oprf_Blind" -> << <<"in", ns[1]>>, <<"out", El>>, <<"out", El>> >>
    [] f \in {"oprf_Evaluate", "oprf_Unblind"} -> << <<"in", El>>, <<"in", El>>, <<"out", El>> >>
    [] f = "oprf_Finalize" -> << <<"in", ns[1]>>, <<"in", El>>, <<"out", 64>> >>
    [] f = "expand_message_xmd" -> << <<"in", ns[1]>>, <<"in", ns[2]>>, <<"out", ns[3]>> >>
    [] f = "voprf_hash_to_group" -> << <<"in", ns[1]>>, <<"out", El>> >>
    [] f = "toprf_create_shares" -> << <<"in", El>>, <<"out", Sh * ns[1]>> >>
    [] f \in {"dkg_reconstruct", "toprf_thresholdmult", "toprf_thresholdcombine"} -> << <<"in", Sh * ns[1]>>, <<"out", El>> >>
    [] f = "coeff" -> << <<"in", ns[2]>>, <<"out", El>> >>
    [] f = "toprf_Evaluate" -> << <<"in", Sh>>, <<"in", El>>, <<"in", ns[2]>>, <<"out", Sh>> >>
    [] f = "toprf_3hashtdh" -> << <<"in", Sh>>, <<"in", Sh>>, <<"in", El>>, <<"in", ns[1]>>, <<"out", Sh>> >>
    [] f = "dkg_start" -> << <<"out", El * ns[2]>>, <<"out", Sh * ns[1]>> >>
    [] f = "dkg_verify_commitments" -> << <<"in", El * ns[1] * ns[2]>>, <<"in", Sh * ns[1]>>, <<"out", ns[1]>>, <<"out", 1>> >>
    [] f = "dkg_verify_commitment" -> << <<"in", El * ns[2]>> >>
    [] f = "dkg_finish" -> << <<"in", Sh * ns[1]>>, <<"own", Sh>> >>
    [] f = "invertedVDMmatrix" -> << <<"in", ns[1]>>, <<"out", El * ns[1] * ns[1]>> >>
    [] f = "toprf_mpc_mul_start" -> << <<"in", Sh>>, <<"in", Sh>>, <<"out", Sh * ns[1]>> >>
    [] f = "toprf_mpc_mul_finish" -> << <<"in", ns[1]>>, <<"in", Sh * ns[1]>>, <<"out", Sh>> >>

(* A call as seen by its caller: bufs[k] = [before, after, around], the       *)
(* contents and whether everything around the buffer is as it was.            *)
Fits(fp, bufs) == Len(fp) = Len(bufs) /\ \A k \in DOMAIN fp : bufs[k].len = fp[k][2]
Framed(fp, bufs) == \A k \in DOMAIN fp : bufs[k].around /\ (fp[k][1] = "in" => bufs[k].after = bufs[k].before)
(* Two executions of the same call, elsewhere in memory and with other        *)
(* contents of the output buffers, yield the same.  val(f, bufs) is what the  *)
(* caller may look at.                                                        *)
Same(x, y, val(_)) == x.ok = y.ok /\ val(x) = val(y)
=============================================================================
