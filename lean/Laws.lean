/- The algebra that pv/la.py gives to the solver, proved in an interpretation of its symbols.

A vector is a function from the integers to the reals of finite support, a matrix such a function to vectors: the
arrays the verifier builds. The statements of the theorems `law_…` are generated from pv/la.py by
tools/laws.py and appended to this file, each proved by the lemma `p_…` of the same name. -/
import Mathlib

set_option linter.all false

namespace PV
open Finsupp

abbrev Vec := ℤ →₀ ℝ
abbrev Mat := ℤ →₀ Vec

noncomputable section
open Classical

def dot (u v : Vec) : ℝ := u.sum fun i a => a * v i
theorem zero_dot (v : Vec) : dot 0 v = 0 := by simp [dot]
def mv (A : Mat) (x : Vec) : Vec := A.mapRange (fun r => dot r x) (zero_dot x)
def comb (r : Vec) (B : Mat) : Vec := r.sum fun k a => a • B k
theorem zero_comb (B : Mat) : comb 0 B = 0 := by simp [comb]
def mm (A B : Mat) : Mat := A.mapRange (fun r => comb r B) (zero_comb B)
def mmm (A B C : Mat) : Mat := mm (mm A B) C
def adj (A : Mat) (x y : Vec) : ℝ := dot (mv A x) y
def tr (A : Mat) : Mat := ((A.uncurry).equivMapDomain (Equiv.prodComm ℤ ℤ)).curry
def zvec : Vec := 0

def cut {β : Type} [Zero β] (n : ℤ) (f : ℤ → β) : ℤ →₀ β :=
  Finsupp.onFinset (Finset.Ico 0 n) (fun i => if 0 ≤ i ∧ i < n then f i else 0) (by
    intro a h; simp only [Finset.mem_Ico]; by_contra hc; exact h (if_neg hc))
theorem cut_apply {β : Type} [Zero β] (n : ℤ) (f : ℤ → β) (i : ℤ) :
    cut n f i = if 0 ≤ i ∧ i < n then f i else 0 := rfl

def toMat (A : Mat) (n : ℤ) : Matrix (Fin n.toNat) (Fin n.toNat) ℝ := fun i j => A (i : ℤ) (j : ℤ)
def pos {n : ℤ} (i : ℤ) (h : 0 ≤ i ∧ i < n) : Fin n.toNat := ⟨i.toNat, by omega⟩
def entry {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) (i j : ℤ) : ℝ :=
  if h : 0 ≤ i ∧ i < n then if g : 0 ≤ j ∧ j < n then M (pos i h) (pos j g) else 0 else 0
def ofMat {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) : Mat := cut n fun i => cut n fun j => entry M i j

def eye (n : ℤ) : Mat := cut n fun i => cut n fun j => if i = j then 1 else 0
def det (A : Mat) (n : ℤ) : ℝ := (toMat A n).det
def inv (A : Mat) (n : ℤ) : Mat := ofMat (toMat A n)⁻¹
def square (A : Mat) (n : ℤ) : Prop := ∀ i j, ¬((0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n)) → A i j = 0

def shift (k : ℤ) : ℤ ↪ ℤ := ⟨fun j => if j < k then j else j + 1, by intro a b h; simp only at h; split_ifs at h <;> omega⟩
def ins (u : Vec) (k : ℤ) (r : ℝ) : Vec := single k r + u.embDomain (shift k)
def rem (u : Vec) (k : ℤ) : Vec := u.comapDomain (shift k) (shift k).injective.injOn
def unsp (x : Vec) (k : ℤ) : Vec := rem x k - single (k - 1) (x k)
def spl (x : Vec) (k : ℤ) : Vec :=
  ins (x.update (k - 1) (if 0 ≤ x (k - 1) then x (k - 1) else 0)) k (if 0 ≤ x (k - 1) then 0 else -x (k - 1))
def flip (u : Vec) (m : ℤ → Prop) : Vec :=
  Finsupp.onFinset u.support (fun j => if m j then -u j else u j) (by
    intro a h; rw [Finsupp.mem_support_iff]; intro e; apply h; simp [e])
def selv (u : Vec) (q : ℤ → ℤ) (n : ℤ) : Vec := cut n fun k => u (q k)
theorem selv_zero (q : ℤ → ℤ) (n : ℤ) : selv 0 q n = 0 := by ext j; simp [selv, cut_apply]
def selc (A : Mat) (q : ℤ → ℤ) (n : ℤ) : Mat := A.mapRange (fun r => selv r q n) (selv_zero q n)

-- linearity
theorem add_dot (u v x : Vec) : dot (u + v) x = dot u x + dot v x :=
  Finsupp.sum_add_index' (by simp) (by intros; ring)
theorem single_dot (i : ℤ) (a : ℝ) (x : Vec) : dot (single i a) x = a * x i := by simp [dot]
theorem dot_eq (u v : Vec) : dot u v = ∑ i ∈ u.support ∪ v.support, u i * v i :=
  Finsupp.sum_of_support_subset u Finset.subset_union_left _ (by simp)
theorem p_comm (u v : Vec) : dot u v = dot v u := by
  rw [dot_eq, dot_eq, Finset.union_comm]; exact Finset.sum_congr rfl (fun i _ => mul_comm _ _)
theorem dot_add (x u v : Vec) : dot x (u + v) = dot x u + dot x v := by
  rw [p_comm, add_dot, p_comm u, p_comm v]
theorem smul_dot (a : ℝ) (u x : Vec) : dot (a • u) x = a * dot u x := by
  induction u using Finsupp.induction_linear with
  | zero => simp [zero_dot]
  | add f g hf hg => rw [smul_add, add_dot, add_dot, hf, hg]; ring
  | single i b => rw [Finsupp.smul_single, single_dot, single_dot]; simp [mul_assoc]
theorem neg_dot (u x : Vec) : dot (-u) x = -dot u x := by
  have := smul_dot (-1) u x; simpa using this
theorem dot_sub (x u v : Vec) : dot x (u - v) = dot x u - dot x v := by
  rw [sub_eq_add_neg, dot_add, p_comm x (-v), neg_dot, p_comm v]; ring
theorem dot_single (x : Vec) (i : ℤ) (a : ℝ) : dot x (single i a) = x i * a := by
  rw [p_comm, single_dot]; ring

theorem p_dot0 : (∀ u, dot zvec u = 0) ∧ (∀ i : ℤ, zvec i = 0) := ⟨zero_dot, fun _ => rfl⟩
theorem p_mv (A : Mat) (x : Vec) (i : ℤ) : mv A x i = dot (A i) x := rfl
theorem p_tr (A : Mat) (i j : ℤ) : tr A j i = A i j := by
  simp [tr, Finsupp.curry_apply, Finsupp.equivMapDomain_apply, Finsupp.uncurry_apply]
theorem mat_ext {A B : Mat} (h : ∀ i j, A i j = B i j) : A = B := Finsupp.ext fun i => Finsupp.ext fun j => h i j
theorem p_trtr (A : Mat) : tr (tr A) = A := mat_ext fun i j => by rw [p_tr, p_tr]
theorem mv_add (A B : Mat) (x : Vec) : mv (A + B) x = mv A x + mv B x := by
  ext i; simp [p_mv, add_dot]
theorem tr_add (A B : Mat) : tr (A + B) = tr A + tr B := mat_ext fun i j => by simp [p_tr]
theorem mat_ind {P : Mat → Prop} (A : Mat) (h0 : P 0) (ha : ∀ A B, P A → P B → P (A + B))
    (hs : ∀ i j a, P (single i (single j a))) : P A := by
  induction A using Finsupp.induction_linear with
  | zero => exact h0
  | add f g hf hg => exact ha f g hf hg
  | single i r =>
    induction r using Finsupp.induction_linear with
    | zero => simpa using h0
    | add f g hf hg => rw [Finsupp.single_add]; exact ha _ _ hf hg
    | single j a => exact hs i j a
theorem mv_zero (x : Vec) : mv 0 x = 0 := by ext i; simp [p_mv, zero_dot]
theorem mv_single (i j : ℤ) (a : ℝ) (x : Vec) : mv (single i (single j a)) x = single i (a * x j) := by
  ext k; rw [p_mv]; by_cases h : i = k
  · subst h; simp [single_dot]
  · simp [Finsupp.single_apply, h, zero_dot]
theorem tr_zero : tr 0 = 0 := mat_ext fun i j => by rw [p_tr]; simp
theorem tr_single (i j : ℤ) (a : ℝ) : tr (single i (single j a)) = single j (single i a) := mat_ext fun k l => by
  rw [p_tr]; by_cases h : i = l <;> by_cases g : j = k <;> simp [Finsupp.single_apply, h, g]
theorem adj_tr (A : Mat) (x y : Vec) : dot (mv A x) y = dot x (mv (tr A) y) := by
  refine mat_ind (P := fun A => dot (mv A x) y = dot x (mv (tr A) y)) A ?_ ?_ ?_
  · rw [tr_zero, mv_zero, mv_zero, zero_dot, p_comm, zero_dot]
  · intro A B ha hb; rw [mv_add, tr_add, mv_add, add_dot, dot_add, ha, hb]
  · intro i j a; rw [tr_single, mv_single, mv_single, single_dot, dot_single]; ring
theorem p_adj (A : Mat) (x y : Vec) : adj A x y = dot (mv A x) y ∧ adj A x y = dot x (mv (tr A) y) := ⟨rfl, adj_tr A x y⟩

theorem add_comb (r s : Vec) (B : Mat) : comb (r + s) B = comb r B + comb s B :=
  Finsupp.sum_add_index' (by simp) (by intros; rw [add_smul])
theorem single_comb (k : ℤ) (a : ℝ) (B : Mat) : comb (single k a) B = a • B k := by simp [comb]
theorem comb_dot (r : Vec) (B : Mat) (x : Vec) : dot (comb r B) x = dot r (mv B x) := by
  induction r using Finsupp.induction_linear with
  | zero => rw [zero_comb, zero_dot, zero_dot]
  | add f g hf hg => rw [add_comb, add_dot, add_dot, hf, hg]
  | single i a => rw [single_comb, smul_dot, single_dot, p_mv]
theorem mm_row (A B : Mat) (i : ℤ) : mm A B i = comb (A i) B := rfl
theorem p_mmv (A B : Mat) (x : Vec) : mv (mm A B) x = mv A (mv B x) := by
  ext i; rw [p_mv, p_mv, mm_row, comb_dot]
theorem comb_apply (r : Vec) (B : Mat) (j : ℤ) : comb r B j = dot r (tr B j) := by
  induction r using Finsupp.induction_linear with
  | zero => rw [zero_comb, zero_dot]; rfl
  | add f g hf hg => rw [add_comb, add_dot, Finsupp.add_apply, hf, hg]
  | single i a => rw [single_comb, single_dot, p_tr]; rfl
theorem p_mm (A B : Mat) (i j : ℤ) : mm A B i j = dot (A i) (tr B j) := by rw [mm_row, comb_apply]
theorem p_trmm (A B : Mat) : tr (mm A B) = mm (tr B) (tr A) := mat_ext fun i j => by
  rw [p_tr, p_mm, p_mm, p_trtr, p_comm]
theorem tr_mm_row (A B : Mat) (j : ℤ) : tr (mm A B) j = mv A (tr B j) := by
  ext i; rw [p_tr, p_mm, p_mv]
theorem mm_assoc (A B C : Mat) : mm (mm A B) C = mm A (mm B C) := mat_ext fun i j => by
  rw [p_mm, p_mm, mm_row, comb_dot, tr_mm_row]
theorem p_assoc (A B C : Mat) : mmm A B C = mm (mm A B) C ∧ mmm A B C = mm A (mm B C) := ⟨rfl, mm_assoc A B C⟩

theorem p_eye (n i j : ℤ) : eye n i j = if i = j ∧ 0 ≤ i ∧ i < n then 1 else 0 := by
  simp only [eye, cut_apply]
  split_ifs <;> simp_all [cut_apply] <;> omega
theorem eye_row (n i : ℤ) : eye n i = if 0 ≤ i ∧ i < n then single i 1 else 0 := by
  ext j; rw [p_eye]; by_cases h : 0 ≤ i ∧ i < n
  · rw [if_pos h, Finsupp.single_apply]; by_cases g : i = j
    · rw [if_pos ⟨g, h⟩, if_pos g]
    · rw [if_neg (fun e => g e.1), if_neg g]
  · rw [if_neg h, if_neg (fun e => h e.2)]; rfl
theorem p_eyex (n i : ℤ) (x : Vec) : dot (eye n i) x = if 0 ≤ i ∧ i < n then x i else 0 := by
  rw [eye_row]; split_ifs
  · rw [single_dot, one_mul]
  · exact zero_dot x
theorem p_treye (n : ℤ) : tr (eye n) = eye n := mat_ext fun i j => by
  rw [p_tr, p_eye, p_eye]; by_cases h : i = j
  · subst h; rfl
  · simp [h, Ne.symm h]

-- square matrices
theorem ofMat_apply {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) (i j : ℤ) : ofMat M i j = entry M i j := by
  simp only [ofMat, cut_apply, entry]
  split_ifs <;> simp_all [cut_apply]
theorem entry_in {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) (i j : Fin n.toNat) : entry M (i : ℤ) (j : ℤ) = M i j := by
  have hi : (0 : ℤ) ≤ (i : ℤ) ∧ (i : ℤ) < n := by have := i.2; omega
  have hj : (0 : ℤ) ≤ (j : ℤ) ∧ (j : ℤ) < n := by have := j.2; omega
  simp [entry, hi, hj, pos]
theorem entry_out {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) (i j : ℤ)
    (h : ¬((0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n))) : entry M i j = 0 := by
  simp only [entry]; split_ifs <;> simp_all
theorem to_of {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) : toMat (ofMat M) n = M := by
  ext i j; simp [toMat, ofMat_apply, entry_in]
theorem square_of {n : ℤ} (M : Matrix (Fin n.toNat) (Fin n.toNat) ℝ) : square (ofMat M) n := fun i j h => by
  rw [ofMat_apply, entry_out M i j h]
theorem square_ext {A B : Mat} {n : ℤ} (ha : square A n) (hb : square B n) (h : toMat A n = toMat B n) : A = B :=
  mat_ext fun i j => by
    by_cases g : (0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n)
    · have := congrFun (congrFun h (pos i g.1)) (pos j g.2)
      simp only [toMat, pos] at this
      rwa [Int.toNat_of_nonneg g.1.1, Int.toNat_of_nonneg g.2.1] at this
    · rw [ha i j g, hb i j g]
theorem square_row {A : Mat} {n : ℤ} (h : square A n) (i : ℤ) : (A i).support ⊆ Finset.univ.image (fun k : Fin n.toNat => ((k : ℕ) : ℤ)) := by
  intro j hj
  rw [Finsupp.mem_support_iff] at hj
  have : (0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n) := by by_contra g; exact hj (h i j g)
  simp only [Finset.mem_image, Finset.mem_univ, true_and]
  exact ⟨pos j this.2, by simp [pos]; omega⟩
theorem dot_fin {A : Mat} {n : ℤ} (h : square A n) (i : ℤ) (v : Vec) : dot (A i) v = ∑ k : Fin n.toNat, A i (k : ℤ) * v (k : ℤ) := by
  unfold dot
  rw [Finsupp.sum_of_support_subset _ (square_row h i) _ (by simp)]
  rw [Finset.sum_image]
  intro a _ b _ e
  have e' : ((a : ℕ) : ℤ) = ((b : ℕ) : ℤ) := e
  exact Fin.ext (by omega)
theorem toMat_mm {A B : Mat} {n : ℤ} (h : square A n) : toMat (mm A B) n = toMat A n * toMat B n := by
  ext i j
  simp only [toMat, Matrix.mul_apply]
  rw [p_mm, dot_fin h]
  exact Finset.sum_congr rfl fun k _ => by rw [p_tr]
theorem square_mm {A B : Mat} {n : ℤ} (ha : square A n) (hb : square B n) : square (mm A B) n := fun i j g => by
  rw [p_mm, dot_fin ha]
  apply Finset.sum_eq_zero
  intro k _
  rw [p_tr]
  by_cases hi : 0 ≤ i ∧ i < n
  · rw [hb k j (by tauto), mul_zero]
  · rw [ha i k (by tauto), zero_mul]
theorem square_eye (n : ℤ) : square (eye n) n := fun i j g => by
  rw [p_eye, if_neg]; rintro ⟨rfl, h⟩; exact g ⟨h, h⟩
theorem toMat_eye (n : ℤ) : toMat (eye n) n = 1 := by
  ext i j
  have hi : (0 : ℤ) ≤ (i : ℤ) ∧ (i : ℤ) < n := by have := i.2; omega
  simp only [toMat, p_eye, Matrix.one_apply, hi, and_true]
  by_cases h : i = j
  · simp [h]
  · rw [if_neg h, if_neg]; intro e; exact h (Fin.ext (by omega))
theorem p_sqtr (A : Mat) (n : ℤ) : square (tr A) n = square A n := propext
  ⟨fun h i j g => by rw [← p_tr]; exact h j i (by tauto), fun h i j g => by rw [p_tr]; exact h j i (by tauto)⟩
theorem toMat_tr (A : Mat) (n : ℤ) : toMat (tr A) n = (toMat A n).transpose := by
  ext i j; simp [toMat, p_tr]
theorem inv_def (A : Mat) (n : ℤ) : inv A n = ofMat (toMat A n)⁻¹ := rfl
theorem p_inv (A : Mat) (n : ℤ) (h : ¬ det A n = 0 ∧ square A n) :
    mm (inv A n) A = eye n ∧ mm A (inv A n) = eye n ∧ square (inv A n) n := by
  have u : IsUnit (toMat A n).det := isUnit_iff_ne_zero.mpr h.1
  refine ⟨?_, ?_, square_of _⟩
  · apply square_ext (square_mm (square_of _) h.2) (square_eye n)
    rw [toMat_mm (square_of _), to_of, toMat_eye, Matrix.nonsing_inv_mul _ u]
  · apply square_ext (square_mm h.2 (square_of _)) (square_eye n)
    rw [toMat_mm h.2, to_of, toMat_eye, Matrix.mul_nonsing_inv _ u]
theorem p_deteye (n : ℤ) : det (eye n) n = 1 := by rw [det, toMat_eye, Matrix.det_one]
theorem p_inveye (n : ℤ) : inv (eye n) n = eye n := by
  apply square_ext (square_of _) (square_eye n)
  rw [to_of, toMat_eye, inv_one]
theorem p_invtr (A : Mat) (n : ℤ) (h : ¬ det A n = 0 ∧ square A n) : inv (tr A) n = tr (inv A n) := by
  apply square_ext (square_of _) (by rw [p_sqtr]; exact square_of _)
  rw [to_of, toMat_tr, toMat_tr, inv_def, to_of, Matrix.transpose_nonsing_inv]
theorem p_dettr (A : Mat) (n : ℤ) : det (tr A) n = det A n := by rw [det, toMat_tr, Matrix.det_transpose]; rfl

-- components moved about
theorem shift_lt {k j : ℤ} (h : j < k) : shift k j = j := if_pos h
theorem shift_ge {k j : ℤ} (h : ¬ j < k) : shift k j = j + 1 := if_neg h
theorem p_rem (u : Vec) (k j : ℤ) : rem u k j = if j < k then u j else u (j + 1) := by
  simp only [rem, Finsupp.comapDomain_apply]; split_ifs with h
  · rw [shift_lt h]
  · rw [shift_ge h]
theorem p_ins (u : Vec) (k : ℤ) (r : ℝ) (j : ℤ) : ins u k r j = if j < k then u j else if j = k then r else u (j - 1) := by
  simp only [ins, Finsupp.add_apply]
  rcases lt_trichotomy j k with h | h | h
  · rw [if_pos h, Finsupp.single_apply, if_neg (by omega), zero_add]
    conv_lhs => rw [← shift_lt h]
    exact Finsupp.embDomain_apply_self _ _ _
  · subst h
    rw [if_neg (by omega), if_pos rfl, Finsupp.single_eq_same, Finsupp.embDomain_notin_range, add_zero]
    rintro ⟨a, ha⟩
    by_cases g : a < j
    · rw [shift_lt g] at ha; omega
    · rw [shift_ge g] at ha; omega
  · rw [if_neg (by omega), if_neg (by omega), Finsupp.single_apply, if_neg (by omega), zero_add]
    have e : shift k (j - 1) = j := by rw [shift_ge (by omega)]; omega
    conv_lhs => rw [← e]
    exact Finsupp.embDomain_apply_self _ _ _
theorem p_dotins (u : Vec) (k : ℤ) (r : ℝ) (x : Vec) : dot (ins u k r) x = dot u (rem x k) + r * x k := by
  rw [ins, add_dot, single_dot, add_comm]
  congr 1
  simp only [dot, Finsupp.sum_embDomain, rem, Finsupp.comapDomain_apply]
theorem p_remins (u : Vec) (k : ℤ) (r : ℝ) : rem (ins u k r) k = u := by
  ext j; rw [p_rem]; split_ifs with h
  · rw [p_ins, if_pos h]
  · rw [p_ins, if_neg (by omega), if_neg (by omega)]; congr 1; omega
theorem p_flip (u : Vec) (m : ℤ → Prop) (j : ℤ) : flip u m j = if m j then -u j else u j := rfl
theorem flip_add (u v : Vec) (m : ℤ → Prop) : flip (u + v) m = flip u m + flip v m := by
  ext j; simp only [p_flip, Finsupp.add_apply]; split_ifs <;> ring
theorem p_dotflip (u : Vec) (m : ℤ → Prop) (x : Vec) : dot (flip u m) x = dot u (flip x m) := by
  induction u using Finsupp.induction_linear with
  | zero => rw [show flip 0 m = 0 from by ext j; simp [p_flip], zero_dot, zero_dot]
  | add f g hf hg => rw [flip_add, add_dot, add_dot, hf, hg]
  | single i a =>
    rw [show flip (single i a) m = single i (if m i then -a else a) from by
      ext j; rw [p_flip]; by_cases h : i = j
      · subst h; simp
      · simp [Finsupp.single_apply, h], single_dot, single_dot, p_flip]
    split_ifs <;> ring
theorem p_flipflip (u : Vec) (m : ℤ → Prop) : flip (flip u m) m = u := by
  ext j; simp only [p_flip]; split_ifs <;> ring
theorem p_unsp (x : Vec) (k j : ℤ) :
    unsp x k j = if j < k - 1 then x j else if j = k - 1 then x j - x k else x (j + 1) := by
  simp only [unsp, Finsupp.sub_apply, p_rem, Finsupp.single_apply]
  split_ifs <;> first | omega | (congr 1 <;> first | ring | skip) | ring | simp_all
theorem p_dotunsp (u x : Vec) (k : ℤ) : dot u (unsp x k) = dot u (rem x k) - u (k - 1) * x k := by
  rw [unsp, dot_sub, dot_single]
theorem p_spl (x : Vec) (k j : ℤ) : spl x k j = if j < k - 1 then x j else if j = k - 1 then (if 0 ≤ x (k - 1) then x (k - 1) else 0)
    else if j = k then (if 0 ≤ x (k - 1) then 0 else -x (k - 1)) else x (j - 1) := by
  simp only [spl, p_ins, Finsupp.update_apply]
  by_cases h1 : j < k - 1
  · simp [h1, show j < k by omega, show ¬ j = k - 1 by omega]
  · by_cases h2 : j = k - 1
    · subst h2; simp
    · by_cases h3 : j = k
      · rw [if_neg (by omega), if_pos h3, if_neg h1, if_neg h2, if_pos h3]
      · simp [h1, h2, h3, show ¬ j < k by omega]
theorem p_unspspl (x : Vec) (k : ℤ) : unsp (spl x k) k = x := by
  ext j; rw [p_unsp]; split_ifs with h1 h2
  · rw [p_spl, if_pos h1]
  · subst h2
    have e1 : spl x k (k - 1) = if 0 ≤ x (k - 1) then x (k - 1) else 0 := by rw [p_spl, if_neg (by omega), if_pos rfl]
    have e2 : spl x k k = if 0 ≤ x (k - 1) then 0 else -x (k - 1) := by
      rw [p_spl, if_neg (by omega), if_neg (by omega), if_pos rfl]
    rw [e1, e2]; split_ifs <;> ring
  · rw [p_spl, if_neg (by omega), if_neg (by omega), if_neg (by omega)]; congr 1; omega
theorem p_selv (u : Vec) (q : ℤ → ℤ) (n k : ℤ) : selv u q n k = if 0 ≤ k ∧ k < n then u (q k) else 0 := rfl
theorem p_selc (A : Mat) (q : ℤ → ℤ) (n i k : ℤ) : selc A q n i k = if 0 ≤ k ∧ k < n then A i (q k) else 0 := rfl
theorem p_selcrow (A : Mat) (q : ℤ → ℤ) (n i : ℤ) : selc A q n i = selv (A i) q n := rfl
theorem p_mmselc (A B : Mat) (q : ℤ → ℤ) (n : ℤ) : mm A (selc B q n) = selc (mm A B) q n := mat_ext fun i j => by
  rw [p_mm, p_selc]; split_ifs with h
  · rw [p_mm]; congr 1; ext k; rw [p_tr, p_tr, p_selc, if_pos h]
  · rw [show tr (selc B q n) j = 0 from by ext k; rw [p_tr, p_selc, if_neg h]; rfl, p_comm, zero_dot]

-- laws used at named instances
theorem dot_eq_right (u x : Vec) : dot u x = ∑ i ∈ u.support, u i * x i := rfl
theorem i_support (u x y : Vec) (h : ∀ k, u k = 0 ∨ x k = y k) : dot u x = dot u y := by
  rw [dot_eq_right, dot_eq_right]
  apply Finset.sum_congr rfl
  intro k _
  rcases h k with h | h
  · rw [h, zero_mul, zero_mul]
  · rw [h]
theorem i_summand (u x : Vec) (h : ∀ k, u k = 0 ∨ x k = 0) : dot u x = 0 := by
  rw [dot_eq_right]
  apply Finset.sum_eq_zero
  intro k _
  rcases h k with h | h <;> rw [h] <;> ring
theorem i_nonneg (u x : Vec) (h : ∀ k, ¬(u k < 0 ∧ 0 < x k) ∧ ¬(0 < u k ∧ x k < 0)) : 0 ≤ dot u x := by
  rw [dot_eq_right]
  apply Finset.sum_nonneg
  intro k _
  obtain ⟨h1, h2⟩ := h k
  by_contra hc
  rcases mul_neg_iff.mp (not_le.mp hc) with g | g
  · exact h2 g
  · exact h1 g
theorem i_neg (u v x : Vec) (h : ∀ k, u k = -v k) : dot u x = -dot v x := by
  rw [show u = -v from Finsupp.ext h, neg_dot]
theorem i_one (u : Vec) (i : ℤ) (x : Vec) (h : ∀ k, u k = if k = i then 1 else 0) : dot u x = x i := by
  rw [show u = single i 1 from by ext k; rw [h k, Finsupp.single_apply]; simp [eq_comm], single_dot, one_mul]
theorem i_two (u : Vec) (i j : ℤ) (x : Vec) (h : ¬ i = j ∧ ∀ k, u k = if k = i ∨ k = j then 1 else 0) : dot u x = x i + x j := by
  rw [show u = single i 1 + single j 1 from by
    ext k; rw [h.2 k, Finsupp.add_apply, Finsupp.single_apply, Finsupp.single_apply]
    by_cases a : k = i
    · subst a; simp [show ¬ j = k from fun e => h.1 e.symm]
    · by_cases b : k = j
      · subst b; simp [a, show ¬ i = k from fun e => a e.symm]
      · simp [a, b, show ¬ i = k from fun e => a e.symm, show ¬ j = k from fun e => b e.symm],
    add_dot, single_dot, single_dot, one_mul, one_mul]
theorem i_scaled (u w v : Vec) (s t : ℝ) (h : (∀ k, u k = s * v k) ∧ ∀ k, w k = t * v k) : dot u w = s * t * dot v v := by
  rw [show u = s • v from Finsupp.ext h.1, show w = t • v from Finsupp.ext h.2, smul_dot, p_comm v, smul_dot]; ring
theorem i_square (A : Mat) (n : ℤ) (h : ∀ i j, ¬((0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n)) → A i j = 0) : square A n := h
theorem i_agree (A : Mat) (u : Vec) (q q2 : ℤ → ℤ) (n : ℤ) (h : ∀ k, (0 ≤ k ∧ k < n) → q k = q2 k) :
    selc A q n = selc A q2 n ∧ selv u q n = selv u q2 n := by
  refine ⟨mat_ext fun i k => ?_, Finsupp.ext fun k => ?_⟩
  · rw [p_selc, p_selc]; split_ifs with g
    · rw [h k g]
    · rfl
  · rw [p_selv, p_selv]; split_ifs with g
    · rw [h k g]
    · rfl
theorem i_squares (u : Vec) : 0 ≤ dot u u := by
  rw [dot_eq_right]; exact Finset.sum_nonneg fun k _ => mul_self_nonneg _
theorem i_columns (A : Mat) (q : ℤ → ℤ) (n : ℤ) (h : ¬ det (selc A q n) n = 0) (i j : ℤ)
    (g : 0 ≤ i ∧ i < n ∧ 0 ≤ j ∧ j < n ∧ q i = q j) : i = j := by
  by_contra hc
  apply h
  apply Matrix.det_zero_of_column_eq (i := pos i ⟨g.1, g.2.1⟩) (j := pos j ⟨g.2.2.1, g.2.2.2.1⟩)
  · intro e; have := congrArg (fun k : Fin n.toNat => (k : ℕ)) e; simp only [pos] at this; omega
  · intro k
    simp only [toMat, p_selc, pos, Int.toNat_of_nonneg g.1, Int.toNat_of_nonneg g.2.2.1]
    rw [if_pos ⟨g.1, g.2.1⟩, if_pos ⟨g.2.2.1, g.2.2.2.1⟩, g.2.2.2.2]

theorem selv_support (u : Vec) (q : ℤ → ℤ) (n : ℤ) : (selv u q n).support ⊆ Finset.Ico 0 n := by
  intro k hk
  rw [Finsupp.mem_support_iff, p_selv] at hk
  rw [Finset.mem_Ico]; by_contra hc; exact hk (if_neg hc)
theorem dot_selv (u : Vec) (q : ℤ → ℤ) (n : ℤ) (v : Vec) : dot (selv u q n) v = ∑ k ∈ Finset.Ico 0 n, u (q k) * v k := by
  unfold dot
  rw [Finsupp.sum_of_support_subset _ (selv_support u q n) _ (by simp)]
  exact Finset.sum_congr rfl fun k hk => by rw [p_selv, if_pos (Finset.mem_Ico.mp hk)]
theorem i_scatter (x : Vec) (q : ℤ → ℤ) (n : ℤ) (v : Vec)
    (h : (∀ k, (0 ≤ k ∧ k < n) → x (q k) = v k) ∧ (∀ i j, ((0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n) ∧ q i = q j) → i = j) ∧
      ∀ k, x k = 0 ∨ ∃ p, (0 ≤ p ∧ p < n) ∧ q p = k) (u : Vec) : dot u x = dot (selv u q n) v := by
  obtain ⟨h1, h2, h3⟩ := h
  rw [dot_selv, p_comm]
  have hs : x.support ⊆ (Finset.Ico 0 n).image q := by
    intro k hk
    rw [Finsupp.mem_support_iff] at hk
    rcases h3 k with e | ⟨p, hp, e⟩
    · exact absurd e hk
    · exact Finset.mem_image.mpr ⟨p, Finset.mem_Ico.mpr hp, e⟩
  unfold dot
  rw [Finsupp.sum_of_support_subset _ hs _ (by simp), Finset.sum_image]
  · exact Finset.sum_congr rfl fun k hk => by rw [h1 k (Finset.mem_Ico.mp hk)]; ring
  · intro a ha b hb e
    exact h2 a b ⟨Finset.mem_Ico.mp ha, Finset.mem_Ico.mp hb, e⟩
theorem i_ray (x : Vec) (q : ℤ → ℤ) (n : ℤ) (v : Vec) (e : ℤ)
    (h : x e = 1 ∧ (∀ k, (0 ≤ k ∧ k < n) → (¬ q k = e) ∧ x (q k) = -v k) ∧
      (∀ i j, ((0 ≤ i ∧ i < n) ∧ (0 ≤ j ∧ j < n) ∧ q i = q j) → i = j) ∧
      ∀ k, k = e ∨ x k = 0 ∨ ∃ p, (0 ≤ p ∧ p < n) ∧ q p = k) (u : Vec) : dot u x = u e - dot (selv u q n) v := by
  obtain ⟨h0, h1, h2, h3⟩ := h
  have key := i_scatter (x - single e 1) q n (-v) ⟨?_, h2, ?_⟩ u
  · rw [dot_sub, dot_single, mul_one, p_comm _ (-v), neg_dot, p_comm v] at key; linarith
  · intro k hk
    obtain ⟨a, b⟩ := h1 k hk
    rw [Finsupp.sub_apply, b, Finsupp.single_apply, if_neg (fun c => a c.symm), Finsupp.neg_apply, sub_zero]
  · intro k
    rcases h3 k with c | c | c
    · left; subst c; rw [Finsupp.sub_apply, h0, Finsupp.single_eq_same, sub_self]
    · by_cases g : e = k
      · left; subst g; rw [Finsupp.sub_apply, h0, Finsupp.single_eq_same, sub_self]
      · left; rw [Finsupp.sub_apply, c, Finsupp.single_apply, if_neg g, sub_zero]
    · right; exact c

-- rows negated
def sg (A B : Mat) (u v : Vec) (i : ℤ) : ℝ := if v i = u i ∧ ∀ j, B i j = 1 * A i j then 1 else -1
theorem sg_sq (A B : Mat) (u v : Vec) (i : ℤ) : sg A B u v i * sg A B u v i = 1 := by
  unfold sg; split_ifs <;> norm_num
theorem i_rows (A : Mat) (u : Vec) (B : Mat) (v : Vec) (q : ℤ → ℤ) (n : ℤ)
    (h : ∀ i, (v i = u i ∧ ∀ j, B i j = 1 * A i j) ∨ (v i = -u i ∧ ∀ j, B i j = -1 * A i j)) :
    (det (selc B q n) n = det (selc A q n) n ∨ det (selc B q n) n = -det (selc A q n) n) ∧
    ((square (selc A q n) n ∧ ¬ det (selc A q n) n = 0) →
      mm (inv (selc B q n) n) B = mm (inv (selc A q n) n) A ∧ mv (inv (selc B q n) n) v = mv (inv (selc A q n) n) u) := by
  have hv : ∀ i, v i = sg A B u v i * u i := fun i => by
    unfold sg; split_ifs with g
    · rw [g.1, one_mul]
    · rcases h i with k | k
      · exact absurd k g
      · rw [k.1]; ring
  have hB : ∀ i j, B i j = sg A B u v i * A i j := fun i j => by
    unfold sg; split_ifs with g
    · exact g.2 j
    · rcases h i with k | k
      · exact absurd k g
      · exact k.2 j
  generalize hs : sg A B u v = s at hv hB
  have ssq : ∀ i, s i * s i = 1 := fun i => by rw [← hs]; exact sg_sq A B u v i
  have hM : toMat (selc B q n) n = Matrix.diagonal (fun i : Fin n.toNat => s (i : ℤ)) * toMat (selc A q n) n := by
    ext i j
    rw [Matrix.diagonal_mul]
    simp only [toMat, p_selc]
    split_ifs
    · rw [hB]
    · rw [mul_zero]
  have hdet : det (selc B q n) n = (∏ i : Fin n.toNat, s (i : ℤ)) * det (selc A q n) n := by
    unfold det; rw [hM, Matrix.det_mul, Matrix.det_diagonal]
  have hp : (∏ i : Fin n.toNat, s (i : ℤ)) * (∏ i : Fin n.toNat, s (i : ℤ)) = 1 := by
    rw [← Finset.prod_mul_distrib]; exact Finset.prod_eq_one fun i _ => ssq _
  refine ⟨?_, ?_⟩
  · rcases mul_self_eq_one_iff.mp hp with e | e
    · left; rw [hdet, e, one_mul]
    · right; rw [hdet, e]; ring
  · rintro ⟨hsq, hd⟩
    have hu : IsUnit (toMat (selc A q n) n).det := isUnit_iff_ne_zero.mpr hd
    have hinv : (toMat (selc B q n) n)⁻¹ = (toMat (selc A q n) n)⁻¹ * Matrix.diagonal (fun i : Fin n.toNat => s (i : ℤ)) := by
      apply Matrix.inv_eq_right_inv
      rw [hM, Matrix.mul_assoc, ← Matrix.mul_assoc (toMat (selc A q n) n), Matrix.mul_nonsing_inv _ hu, Matrix.one_mul,
        Matrix.diagonal_mul_diagonal]
      simp only [ssq]; exact Matrix.diagonal_one
    have hent : ∀ i k, inv (selc B q n) n i k = inv (selc A q n) n i k * s k := fun i k => by
      rw [inv_def, inv_def, ofMat_apply, ofMat_apply]
      simp only [entry]
      split_ifs with a b
      · rw [hinv, Matrix.mul_diagonal]
        simp only [pos, Int.toNat_of_nonneg b.1]
      · rw [zero_mul]
      · rw [zero_mul]
    have hrow : ∀ (i : ℤ) (x y : Vec), (∀ k, y k = s k * x k) → dot (inv (selc B q n) n i) y = dot (inv (selc A q n) n i) x := by
      intro i x y hy
      rw [inv_def, inv_def, dot_fin (square_of _), dot_fin (square_of _)]
      apply Finset.sum_congr rfl
      intro k _
      have e := hent i k
      rw [inv_def, inv_def] at e
      rw [e, hy]
      calc _ = (s (k : ℤ) * s (k : ℤ)) * (ofMat (toMat (selc A q n) n)⁻¹ i (k : ℤ) * x (k : ℤ)) := by ring
        _ = _ := by rw [ssq, one_mul]
    refine ⟨mat_ext fun i j => ?_, Finsupp.ext fun i => ?_⟩
    · rw [p_mm, p_mm]
      exact hrow i _ _ fun k => by rw [p_tr, p_tr, hB]
    · rw [p_mv, p_mv]
      exact hrow i _ _ hv

end
end PV
