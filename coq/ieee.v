(* The axioms of contracts/prelude/f64round.rs, f64comm.rs and the comparisons of f64.rs, proved as theorems about Flocq's
   binary64 (IEEE 754 double precision, one NaN, round to nearest even). What is left to assume is that the hardware and
   the compiler implement that standard. *)
From Coq Require Import Reals ZArith Lra Lia Bool.
From Flocq Require Import Core Relative BinarySingleNaN.
Open Scope R_scope.

Definition prec := 53%Z.
Definition emax := 1024%Z.
Local Instance Hprec : Prec_gt_0 prec. Proof. reflexivity. Qed.
Local Instance Hmax : Prec_lt_emax prec emax. Proof. reflexivity. Qed.
Notation F64 := (binary_float prec emax).
Notation fexp := (SpecFloat.fexp prec emax).

Inductive FV := NaN | PInf | NInf | Fin (x : R).
Definition fv (x : F64) : FV :=
  match x with
  | B754_nan => NaN
  | B754_infinity s => if s then NInf else PInf
  | _ => Fin (B2R x)
  end.
Definition rv (x : F64) : R := match fv x with Fin v => v | _ => 0 end.
Definition f_finite (x : F64) : Prop := match fv x with Fin _ => True | _ => False end.
Definition vlt (a b : FV) : Prop :=
  match a, b with
  | NaN, _ => False | _, NaN => False
  | NInf, NInf => False | NInf, _ => True | _, NInf => False
  | PInf, _ => False | _, PInf => True
  | Fin x, Fin y => x < y
  end.
Definition veq (a b : FV) : Prop := a = b /\ a <> NaN.
Definition vle (a b : FV) : Prop := vlt a b \/ veq a b.
Definition f_add (a b : F64) : F64 := Bplus mode_NE a b.
Definition f_sub (a b : F64) : F64 := Bminus mode_NE a b.
Definition f_mul (a b : F64) : F64 := Bmult mode_NE a b.
Definition f_div (a b : F64) : F64 := Bdiv mode_NE a b.
Definition f_neg (a : F64) : F64 := Bopp a.
Definition f_of (n : Z) : F64 := binary_normalize prec emax Hprec Hmax mode_NE n 0 false.
Definition f_zero : F64 := B754_zero false.
Definition f_one : F64 := Bone.

Definition big : R := bpow radix2 emax.
Definition near (x : R) : R := round radix2 fexp ZnearestE x.
Definition rnd (x : R) : FV :=
  if Rlt_bool (Rabs (near x)) big then Fin (near x) else if Rlt_bool x 0 then NInf else PInf.
Definition tiny : R := bpow radix2 (-1074).
Definition unit_roundoff : R := 1 / IZR 0x20000000000000.

Local Instance vexp : Valid_exp fexp. Proof. apply (fexp_correct prec emax Hprec). Qed.

Lemma near_le x y : x <= y -> near x <= near y.
Proof. intros. apply round_le; auto with typeclass_instances. Qed.
Lemma near_0 : near 0 = 0. Proof. apply round_0; auto with typeclass_instances. Qed.
Lemma big_pos : 0 < big. Proof. apply bpow_gt_0. Qed.

Theorem rnd_monotone x y : x <= y -> vle (rnd x) (rnd y).
Proof.
  intros H. pose proof (near_le _ _ H) as N. pose proof big_pos as B. pose proof near_0 as Z.
  assert (SX : x < 0 -> near x <= 0) by (intros; rewrite <- Z; apply near_le; lra).
  assert (PX : 0 <= x -> 0 <= near x) by (intros; rewrite <- Z; apply near_le; lra).
  assert (SY : y < 0 -> near y <= 0) by (intros; rewrite <- Z; apply near_le; lra).
  assert (PY : 0 <= y -> 0 <= near y) by (intros; rewrite <- Z; apply near_le; lra).
  unfold rnd.
  destruct (Rlt_bool_spec (Rabs (near x)) big) as [A|A]; destruct (Rlt_bool_spec (Rabs (near y)) big) as [C|C];
  destruct (Rlt_bool_spec x 0) as [D|D]; destruct (Rlt_bool_spec y 0) as [E|E]; unfold vle, veq, vlt; auto;
  try (right; split; [reflexivity|discriminate]);
  try (destruct (Rle_lt_or_eq_dec _ _ N) as [L|L]; [left; exact L | right; split; [rewrite L; reflexivity|discriminate]]);
  exfalso; unfold Rabs in *; repeat destruct (Rcase_abs _); try lra;
  try specialize (SX D); try specialize (PX D); try specialize (SY E); try specialize (PY E); lra.
Qed.

Lemma finite_cases (a : F64) : f_finite a -> is_finite a = true /\ fv a = Fin (B2R a) /\ rv a = B2R a.
Proof. unfold f_finite, rv. destruct a as [s|s| |s m e H]; simpl; try (destruct s; simpl); tauto. Qed.
Lemma fv_finite (a : F64) : is_finite a = true -> fv a = Fin (B2R a).
Proof. destruct a; simpl; try discriminate; reflexivity. Qed.

Theorem rnd_exact (a : F64) : f_finite a -> rnd (rv a) = fv a.
Proof.
  intros F. destruct (finite_cases _ F) as (_ & V & E). rewrite V, E. unfold rnd, near.
  rewrite round_generic; auto with typeclass_instances; [|apply generic_format_B2R].
  rewrite Rlt_bool_true; auto. apply abs_B2R_lt_emax.
Qed.

Theorem rnd_error x : tiny > 0 /\ (forall r, rnd x = Fin r -> Rabs (r - x) <= Rabs x * unit_roundoff + tiny).
Proof.
  split; [apply bpow_gt_0|]. intros r. unfold rnd. destruct (Rlt_bool _ _).
  2:{ destruct (Rlt_bool _ _); discriminate. }
  intros E; injection E as <-.
  destruct (error_N_FLT radix2 (-1074) prec Hprec (fun x => negb (Z.even x)) x) as (eps & eta & H1 & H2 & _ & H4).
  unfold near. change fexp with (FLT_exp (-1074) prec).
  change ZnearestE with (Znearest (fun x => negb (Z.even x))). rewrite H4.
  replace (x * (1 + eps) + eta - x) with (x * eps + eta) by ring.
  eapply Rle_trans; [apply Rabs_triang|]. rewrite Rabs_mult.
  apply Rplus_le_compat.
  - apply Rmult_le_compat_l; [apply Rabs_pos|]. eapply Rle_trans; [exact H1|].
    unfold unit_roundoff, prec. simpl. lra.
  - eapply Rle_trans; [exact H2|]. pose proof (bpow_gt_0 radix2 (-1074)). unfold tiny. lra.
Qed.

Lemma overflow_fv (x : F64) s : B2SF x = binary_overflow prec emax mode_NE s -> fv x = if s then NInf else PInf.
Proof. destruct x; simpl; unfold binary_overflow; simpl; try discriminate. intros E; injection E as ->; reflexivity. Qed.
Lemma sign_le (x : F64) : Bsign x = true -> B2R x <= 0.
Proof. destruct x as [s|s| |s m e H]; simpl; intros; try lra. subst. apply F2R_le_0. simpl. lia. Qed.
Lemma sign_ge (x : F64) : is_finite x = true -> Bsign x = false -> 0 <= B2R x.
Proof. destruct x as [s|s| |s m e H]; simpl; intros; try lra. subst. apply F2R_ge_0. simpl. lia. Qed.
Lemma big_near x : big <= Rabs (near x) -> x <> 0.
Proof. intros H ->. rewrite near_0, Rabs_R0 in H. pose proof big_pos. lra. Qed.

Lemma rounds_to (z : F64) (x : R) (s : bool) :
  (if Rlt_bool (Rabs (near x)) big then B2R z = near x /\ is_finite z = true else B2SF z = binary_overflow prec emax mode_NE s /\ (x <> 0 -> s = Rlt_bool x 0)) ->
  fv z = rnd x.
Proof.
  unfold rnd. destruct (Rlt_bool_spec (Rabs (near x)) big) as [A|A].
  - intros (E & F). rewrite (fv_finite _ F), E. reflexivity.
  - intros (E & S). rewrite (overflow_fv _ _ E), (S (big_near _ A)). reflexivity.
Qed.

Theorem add_rounds (a b : F64) : f_finite a -> f_finite b -> fv (f_add a b) = rnd (rv a + rv b).
Proof.
  intros Fa Fb. destruct (finite_cases _ Fa) as (Ia & _ & ->). destruct (finite_cases _ Fb) as (Ib & _ & ->).
  apply (rounds_to _ _ (Bsign a)). pose proof (Bplus_correct prec emax Hprec Hmax mode_NE a b Ia Ib) as C.
  unfold near, big. simpl round_mode in C. destruct (Rlt_bool _ _); [tauto|]. destruct C as (C & S). split; [exact C|].
  intros N. destruct (Bsign a) eqn:Sa.
  - pose proof (sign_le _ Sa). pose proof (sign_le b (eq_sym S)). rewrite Rlt_bool_true; [reflexivity|lra].
  - pose proof (sign_ge _ Ia Sa). pose proof (sign_ge b Ib (eq_sym S)). rewrite Rlt_bool_false; [reflexivity|lra].
Qed.
Theorem sub_rounds (a b : F64) : f_finite a -> f_finite b -> fv (f_sub a b) = rnd (rv a - rv b).
Proof.
  intros Fa Fb. destruct (finite_cases _ Fa) as (Ia & _ & ->). destruct (finite_cases _ Fb) as (Ib & _ & ->).
  apply (rounds_to _ _ (Bsign a)). pose proof (Bminus_correct prec emax Hprec Hmax mode_NE a b Ia Ib) as C.
  unfold near, big. simpl round_mode in C. destruct (Rlt_bool _ _); [tauto|]. destruct C as (C & S). split; [exact C|].
  intros N. destruct (Bsign a) eqn:Sa; destruct (Bsign b) eqn:Sb; try discriminate.
  - pose proof (sign_le _ Sa). pose proof (sign_ge _ Ib Sb). rewrite Rlt_bool_true; [reflexivity|lra].
  - pose proof (sign_ge _ Ia Sa). pose proof (sign_le _ Sb). rewrite Rlt_bool_false; [reflexivity|lra].
Qed.
Theorem mul_rounds (a b : F64) : f_finite a -> f_finite b -> fv (f_mul a b) = rnd (rv a * rv b).
Proof.
  intros Fa Fb. destruct (finite_cases _ Fa) as (Ia & _ & ->). destruct (finite_cases _ Fb) as (Ib & _ & ->).
  apply (rounds_to _ _ (xorb (Bsign a) (Bsign b))). pose proof (Bmult_correct prec emax Hprec Hmax mode_NE a b) as C.
  unfold near, big. simpl round_mode in C. rewrite Ia, Ib in C. destruct (Rlt_bool _ _); [simpl in C; tauto|]. split; [exact C|].
  intros N.
  assert (Xa : if Bsign a then B2R a <= 0 else 0 <= B2R a) by (destruct (Bsign a) eqn:S; [apply sign_le | apply sign_ge]; auto).
  assert (Xb : if Bsign b then B2R b <= 0 else 0 <= B2R b) by (destruct (Bsign b) eqn:S; [apply sign_le | apply sign_ge]; auto).
  destruct (Bsign a); destruct (Bsign b); simpl.
  - rewrite Rlt_bool_false; auto. nra.
  - rewrite Rlt_bool_true; auto. destruct (Req_dec (B2R a * B2R b) 0); [contradiction|]. nra.
  - rewrite Rlt_bool_true; auto. destruct (Req_dec (B2R a * B2R b) 0); [contradiction|]. nra.
  - rewrite Rlt_bool_false; auto. nra.
Qed.
Theorem of_rounds (n : Z) : fv (f_of n) = rnd (IZR n).
Proof.
  apply (rounds_to _ _ (Rlt_bool (IZR n) 0)). pose proof (binary_normalize_correct prec emax Hprec Hmax mode_NE n 0 false) as C.
  cbv zeta in C. assert (E : F2R (Float radix2 n 0) = IZR n) by (unfold F2R; simpl; ring). rewrite E in C.
  unfold near, big, f_of. simpl round_mode in C. destruct (Rlt_bool (Rabs _) _); [tauto|]. split; [exact C|auto].
Qed.
Theorem literals : fv f_zero = Fin 0 /\ fv f_one = Fin 1.
Proof. split; [reflexivity|]. unfold f_one. rewrite fv_finite; [f_equal; apply Bone_correct | apply is_finite_Bone]. Qed.
Theorem neg_exact (a : F64) : f_finite a -> fv (f_neg a) = Fin (- rv a).
Proof.
  intros F. destruct (finite_cases _ F) as (I & _ & ->). unfold f_neg.
  rewrite fv_finite; [f_equal; apply B2R_Bopp | rewrite is_finite_Bopp; exact I].
Qed.
Theorem leaf_zero_div (a b : F64) : fv a = Fin 0 -> fv (f_div a b) = NaN \/ fv (f_div a b) = Fin 0.
Proof.
  destruct a as [s|s| |s m e H]; simpl; intros E.
  - destruct b as [t|t| |t n k K]; simpl; auto.
  - destruct s; discriminate.
  - discriminate.
  - exfalso. injection E as E. apply eq_0_F2R in E. destruct s; discriminate.
Qed.
Theorem leaf_zero_add (x : F64) : fv (f_add (f_of 0) x) = fv x.
Proof.
  assert (Z : f_of 0 = B754_zero false) by reflexivity. rewrite Z.
  destruct x as [s|s| |s m e H]; try reflexivity. destruct s; reflexivity.
Qed.
Theorem leaf_whole (n : Z) : (0 <= n <= 0x20000000000000)%Z -> fv (f_of n) = Fin (IZR n).
Proof.
  intros H. rewrite of_rounds. unfold rnd.
  assert (G : near (IZR n) = IZR n).
  { destruct (Z.eq_dec n 0x20000000000000) as [->|N].
    - apply round_generic; auto with typeclass_instances. change (IZR 0x20000000000000) with (bpow radix2 53).
      apply generic_format_bpow. vm_compute. discriminate.
    - apply round_generic; auto with typeclass_instances. change fexp with (FLT_exp (-1074) prec). apply generic_format_FLT.
      exists (Float radix2 n 0); simpl; try lia. unfold F2R; simpl; ring. }
  rewrite G, Rlt_bool_true; [reflexivity|]. rewrite Rabs_pos_eq; [|apply IZR_le; lia].
  eapply Rle_lt_trans; [apply IZR_le, H|]. change (IZR 0x20000000000000) with (bpow radix2 53). apply bpow_lt. reflexivity.
Qed.

Theorem lt_is_vlt (a b : F64) : Bltb a b = true <-> vlt (fv a) (fv b).
Proof.
  destruct (is_finite a) eqn:Ia; destruct (is_finite b) eqn:Ib.
  - rewrite (fv_finite _ Ia), (fv_finite _ Ib). rewrite Bltb_correct by assumption. simpl. destruct (Rlt_bool_spec (B2R a) (B2R b)); split; intros; try reflexivity; try assumption; try discriminate; lra.
  - destruct b as [t|t| |t n k K]; try discriminate; destruct a as [s|s| |s m e H]; try discriminate; try destruct t; try destruct s; simpl; split; intros; try reflexivity; try discriminate; tauto.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try destruct t; try destruct s; simpl; split; intros; try reflexivity; try discriminate; tauto.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try destruct t; try destruct s; simpl; split; intros; try reflexivity; try discriminate; tauto.
Qed.
Theorem eq_is_veq (a b : F64) : Beqb a b = true <-> veq (fv a) (fv b).
Proof.
  destruct (is_finite a) eqn:Ia; destruct (is_finite b) eqn:Ib.
  - rewrite (fv_finite _ Ia), (fv_finite _ Ib). rewrite Beqb_correct by assumption. unfold veq.
    destruct (Req_bool_spec (B2R a) (B2R b)) as [E|E]; split; intros; try reflexivity; try discriminate.
    + split; [rewrite E; reflexivity|discriminate].
    + destruct H as (H & _). injection H as H. contradiction.
  - destruct b as [t|t| |t n k K]; try discriminate; destruct a as [s|s| |s m e H]; try discriminate; try destruct t; try destruct s; simpl; unfold veq; split; intros; try discriminate; destruct H0 || destruct H; discriminate || tauto.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try destruct t; try destruct s; simpl; unfold veq; split; intros; try discriminate; destruct H0 || destruct H; discriminate || tauto.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try destruct t; try destruct s; simpl; unfold veq; split; intros; try reflexivity; try discriminate; try (split; [reflexivity|discriminate]); destruct H as (A & B); try discriminate; exfalso; apply B; reflexivity.
Qed.

Lemma same_finite (x y : F64) : is_finite x = true -> is_finite y = true -> B2R x = B2R y -> Bsign x = Bsign y -> x = y.
Proof. intros. apply B2R_Bsign_inj; assumption. Qed.
Theorem f_add_commutes (a b : F64) : f_add a b = f_add b a.
Proof.
  unfold f_add.
  destruct (is_finite a) eqn:Ia; destruct (is_finite b) eqn:Ib.
  - pose proof (Bplus_correct prec emax Hprec Hmax mode_NE a b Ia Ib) as C.
    pose proof (Bplus_correct prec emax Hprec Hmax mode_NE b a Ib Ia) as D.
    rewrite (Rplus_comm (B2R b) (B2R a)) in D. destruct (Rlt_bool _ _).
    + destruct C as (C1 & C2 & C3). destruct D as (D1 & D2 & D3). apply same_finite; auto; try congruence.
      rewrite C3, D3. destruct (Rcompare _ _); auto. apply andb_comm.
    + destruct C as (C & S). destruct D as (D & _). apply B2SF_inj. rewrite C, D, S. reflexivity.
  - destruct b as [t|t| |t n k K]; try discriminate; destruct a as [s|s| |s m e H]; try discriminate; reflexivity.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; reflexivity.
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try reflexivity. destruct s; destruct t; reflexivity.
Qed.
Lemma f_fin (a : F64) : is_finite a = true -> f_finite a.
Proof. destruct a; simpl; try discriminate; unfold f_finite; simpl; auto. Qed.
Lemma mul_number (a b : F64) : is_finite a = true -> is_finite b = true -> is_nan (Bmult mode_NE a b) = false.
Proof.
  intros Ia Ib. pose proof (mul_rounds a b (f_fin _ Ia) (f_fin _ Ib)) as M. unfold f_mul in M.
  destruct (Bmult mode_NE a b); try reflexivity. simpl in M. unfold rnd in M. destruct (Rlt_bool _ big); [discriminate|]. destruct (Rlt_bool _ 0); discriminate.
Qed.
Theorem f_mul_commutes (a b : F64) : f_mul a b = f_mul b a.
Proof.
  unfold f_mul. destruct (is_finite a) eqn:Ia; destruct (is_finite b) eqn:Ib.
  - pose proof (mul_number _ _ Ia Ib) as Na. pose proof (mul_number _ _ Ib Ia) as Nb.
    pose proof (Bmult_correct prec emax Hprec Hmax mode_NE a b) as C.
    pose proof (Bmult_correct prec emax Hprec Hmax mode_NE b a) as D.
    rewrite (Rmult_comm (B2R b) (B2R a)) in D. rewrite Ia, Ib in C. rewrite Ia, Ib in D. destruct (Rlt_bool _ _).
    + destruct C as (C1 & C2 & C3). destruct D as (D1 & D2 & D3). specialize (C3 Na). specialize (D3 Nb).
      apply same_finite; auto; try congruence. rewrite C3, D3. apply xorb_comm.
    + apply B2SF_inj. rewrite C, D, xorb_comm. reflexivity.
  - destruct b as [t|t| |t n k K]; try discriminate; destruct a as [s|s| |s m e H]; try discriminate; try reflexivity; simpl; try (f_equal; apply xorb_comm).
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try reflexivity; simpl; try (f_equal; apply xorb_comm).
  - destruct a as [s|s| |s m e H]; try discriminate; destruct b as [t|t| |t n k K]; try discriminate; try reflexivity; simpl; try (f_equal; apply xorb_comm).
Qed.
Print Assumptions f_mul_commutes.
