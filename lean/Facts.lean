/- Facts about finite sets and sums that contracts use and the solver has no induction for, and the textbook step from
the cut that C07 and C08 exhibit to the flow being maximum. Checked by tools/laws.py. -/
import Mathlib

set_option linter.all false

namespace PVFacts
open Finset

variable {α N : Type} [DecidableEq α] [DecidableEq N]

/-- contracts/maxflow.py, Cuts.updated -/
theorem sum_updated (S : Finset α) (F G : α → ℝ) (keys : Finset α) (h : ∀ e, e ∉ keys → G e = F e) :
    ∑ e ∈ S, G e = ∑ e ∈ S, F e + ∑ k ∈ keys, (if k ∈ S then G k - F k else 0) := by
  have a : ∑ e ∈ S, (G e - F e) = ∑ k ∈ keys, (if k ∈ S then G k - F k else 0) := by
    rw [← Finset.sum_filter]
    symm
    apply Finset.sum_subset
    · intro x hx; simp only [Finset.mem_filter] at hx; exact hx.2
    · intro x hx hn
      have : x ∉ keys := fun c => hn (by simp only [Finset.mem_filter]; exact ⟨c, hx⟩)
      rw [h x this, sub_self]
  rw [← a, Finset.sum_sub_distrib]; ring

/-- contracts/maxflow.py, Cuts.zero -/
theorem sum_signs (S : Finset α) (F : α → ℝ) :
    ((∃ w ∈ S, F w ≠ 0) ∨ ∑ e ∈ S, F e = 0) ∧ ((∃ w ∈ S, F w < 0) ∨ 0 ≤ ∑ e ∈ S, F e) ∧
      ((∃ w ∈ S, 0 < F w) ∨ ∑ e ∈ S, F e ≤ 0) := by
  refine ⟨?_, ?_, ?_⟩ <;> by_contra hc <;> push Not at hc <;> obtain ⟨h1, h2⟩ := hc
  · exact h2 (Finset.sum_eq_zero h1)
  · exact absurd (Finset.sum_nonneg h1) (not_le.mpr h2)
  · exact absurd (Finset.sum_nonpos h1) (not_le.mpr h2)

/-- the net amount leaving a node -/
def net (E : Finset (N × N)) (f : N × N → ℝ) (x : N) : ℝ :=
  ∑ e ∈ E with e.1 = x, f e - ∑ e ∈ E with e.2 = x, f e

theorem net_sum (E : Finset (N × N)) (f : N × N → ℝ) (S : Finset N) :
    ∑ x ∈ S, net E f x = ∑ e ∈ E, ((if e.1 ∈ S then f e else 0) - (if e.2 ∈ S then f e else 0)) := by
  unfold net
  simp only [Finset.sum_sub_distrib, Finset.sum_filter]
  rw [Finset.sum_comm, Finset.sum_comm (s := S) (t := E) (f := fun x e => if e.2 = x then f e else 0)]
  congr 1 <;> exact Finset.sum_congr rfl fun e _ => by rw [Finset.sum_ite_eq]

theorem value_of_cut (V : Finset N) (E : Finset (N × N)) (f : N × N → ℝ) (s t : N) (S : N → Prop) [DecidablePred S]
    (hs : s ∈ V) (Ss : S s) (St : ¬ S t) (cons : ∀ x ∈ V, x ≠ s → x ≠ t → net E f x = 0) (ends : ∀ e ∈ E, e.1 ∈ V ∧ e.2 ∈ V) :
    net E f s = ∑ e ∈ E, ((if S e.1 then f e else 0) - (if S e.2 then f e else 0)) := by
  have a : ∑ x ∈ V.filter S, net E f x = net E f s := by
    apply Finset.sum_eq_single_of_mem s (by simp [hs, Ss])
    intro x hx hne
    simp only [Finset.mem_filter] at hx
    exact cons x hx.1 hne (fun c => St (c ▸ hx.2))
  rw [← a, net_sum]
  apply Finset.sum_congr rfl
  intro e he
  obtain ⟨h1, h2⟩ := ends e he
  simp [h1, h2]

/-- A flow that fills every arc leaving a set with the source and not the sink, and uses none entering it, is maximum
(contracts/maxflow.py and c07.py exhibit the set). -/
theorem cut_makes_maximum (V : Finset N) (E : Finset (N × N)) (cap f g : N × N → ℝ) (s t : N) (S : N → Prop) [DecidablePred S]
    (ends : ∀ e ∈ E, e.1 ∈ V ∧ e.2 ∈ V) (hs : s ∈ V) (Ss : S s) (St : ¬ S t)
    (fcons : ∀ x ∈ V, x ≠ s → x ≠ t → net E f x = 0) (gcons : ∀ x ∈ V, x ≠ s → x ≠ t → net E g x = 0)
    (gfeas : ∀ e ∈ E, 0 ≤ g e ∧ g e ≤ cap e)
    (out : ∀ e ∈ E, S e.1 → ¬ S e.2 → f e = cap e) (into : ∀ e ∈ E, ¬ S e.1 → S e.2 → f e = 0) :
    net E g s ≤ net E f s := by
  rw [value_of_cut V E f s t S hs Ss St fcons ends, value_of_cut V E g s t S hs Ss St gcons ends]
  apply Finset.sum_le_sum
  intro e he
  obtain ⟨g0, g1⟩ := gfeas e he
  by_cases a : S e.1 <;> by_cases b : S e.2 <;> simp [a, b]
  · rw [out e he a b]; exact g1
  · rw [into e he a b]; simpa using g0

/-- contracts/c08.py: with the source at the number of nodes and the sink at zero, some height between is empty -/
theorem empty_height (V : Finset N) (h : N → ℤ) (s t : N) (hs : s ∈ V) (ht : t ∈ V) (ne : s ≠ t)
    (hhs : h s = V.card) (hht : h t = 0) : ∃ k : ℤ, 0 < k ∧ k < V.card ∧ ∀ x ∈ V, h x ≠ k := by
  by_contra hc
  push Not at hc
  have sub : Finset.Ioo (0 : ℤ) V.card ⊆ ((V.erase s).erase t).image h := by
    intro k hk
    obtain ⟨a, b⟩ := Finset.mem_Ioo.mp hk
    obtain ⟨x, hx, e⟩ := hc k a b
    refine Finset.mem_image.mpr ⟨x, ?_, e⟩
    simp only [Finset.mem_erase]
    refine ⟨?_, ?_, hx⟩
    · rintro rfl; omega
    · rintro rfl; omega
  have c1 := Finset.card_le_card sub
  have c2 := (Finset.card_image_le (s := (V.erase s).erase t) (f := h))
  have c3 : ((V.erase s).erase t).card = V.card - 1 - 1 := by
    rw [Finset.card_erase_of_mem (by simp [ht, ne.symm]), Finset.card_erase_of_mem hs]
  have c4 : 2 ≤ V.card := by
    have := Finset.card_le_card (show ({s, t} : Finset N) ⊆ V from by
      intro x hx; simp only [Finset.mem_insert, Finset.mem_singleton] at hx; rcases hx with rfl | rfl <;> assumption)
    rwa [Finset.card_pair ne] at this
  simp only [Int.card_Ioo] at c1
  omega

/-- Interp.card: the set of the entries of a list of length n -/
theorem card_entries (n : ℕ) (a : ℕ → α) :
    ((Finset.range n).image a).card ≤ n ∧
    ((((Finset.range n).image a).card = n ∧ ∀ i j, i < j → j < n → a i ≠ a j) ∨
      (((Finset.range n).image a).card < n ∧ ∃ i j, i < j ∧ j < n ∧ a i = a j)) := by
  have le : ((Finset.range n).image a).card ≤ n := by simpa using Finset.card_image_le (s := Finset.range n) (f := a)
  refine ⟨le, ?_⟩
  by_cases h : ((Finset.range n).image a).card = n
  · left
    refine ⟨h, fun i j hij hj e => ?_⟩
    have inj := Finset.card_image_iff.mp (h.trans (Finset.card_range n).symm)
    have := inj (Finset.mem_coe.mpr (Finset.mem_range.mpr (hij.trans hj))) (Finset.mem_coe.mpr (Finset.mem_range.mpr hj)) e
    omega
  · right
    refine ⟨lt_of_le_of_ne le h, ?_⟩
    by_contra hc
    push Not at hc
    apply h
    rw [Finset.card_image_of_injOn, Finset.card_range]
    intro i hi j hj e
    have hi' := Finset.mem_range.mp (Finset.mem_coe.mp hi)
    have hj' := Finset.mem_range.mp (Finset.mem_coe.mp hj)
    rcases lt_trichotomy i j with l | l | l
    · exact absurd e (hc i j l hj')
    · exact l
    · exact absurd e.symm (hc j i l hi')

/-- contracts/reach.py, card_full -/
theorem card_full (S T : Finset α) : (∃ w ∈ S, w ∉ T) ∨ (S.card = T.card → S = T) := by
  by_cases h : S ⊆ T
  · right; intro e; exact Finset.eq_of_subset_of_card_le h e.ge
  · left; exact Finset.not_subset.mp h

/-- contracts/c27.py -/
theorem card_one_more (S : Finset α) (x : α) (h : x ∉ S) : (insert x S).card = S.card + 1 := Finset.card_insert_of_notMem h

/-- contracts/reach.py, least_number -/
theorem least_number (P : α → Prop) (rank : α → ℤ) (h : ∀ x, P x → 0 ≤ rank x) :
    (∃ m, P m ∧ ∀ x, P x → rank m ≤ rank x) ∨ ∀ x, ¬ P x := by
  by_cases e : ∃ x, P x
  · left
    obtain ⟨x, hx⟩ := e
    obtain ⟨k, ⟨m, hm, hk⟩, least⟩ := WellFounded.has_min (measure (id : ℕ → ℕ)).wf {k | ∃ m, P m ∧ (rank m).toNat = k} ⟨_, x, hx, rfl⟩
    refine ⟨m, hm, fun y hy => ?_⟩
    have := least (rank y).toNat ⟨y, hy, rfl⟩
    have a := h m hm
    have b := h y hy
    simp only [measure, id, invImage, InvImage, WellFoundedRelation.rel] at this
    rw [← hk] at this
    omega
  · right; push Not at e; exact e

/-- contracts/c14.py: two increasing lists with the same members are equal -/
theorem increasing_lists (u v : List ℤ) (hu : u.Pairwise (· < ·)) (hv : v.Pairwise (· < ·)) (h : ∀ x, x ∈ u ↔ x ∈ v) : u = v :=
  List.Perm.eq_of_pairwise (fun a b _ _ h1 h2 => absurd h1 (lt_asymm h2)) hu hv
    ((List.perm_ext_iff_of_nodup (hu.imp ne_of_lt) (hv.imp ne_of_lt)).mpr h)

end PVFacts
