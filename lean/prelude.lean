import Mathlib.Tactic

-- generated by lean/gen.py from dv/lower.py, except this prelude

theorem tpos (a b : Int) (hb : 0 < b) : b * a.tdiv b + a.tmod b = a ∧ a.tmod b < b ∧ -b < a.tmod b ∧ (0 ≤ a → 0 ≤ a.tmod b) ∧ (a ≤ 0 → a.tmod b ≤ 0) := by
  refine ⟨Int.mul_tdiv_add_tmod a b, Int.tmod_lt_of_pos a hb, Int.lt_tmod_of_pos a hb, fun h => Int.tmod_nonneg b h, fun h => ?_⟩
  have := Int.tmod_nonneg (a := -a) b (by omega)
  rw [Int.neg_tmod] at this; omega

theorem tneg (a b : Int) (hb : b < 0) : b * a.tdiv b + a.tmod b = a ∧ a.tmod b < -b ∧ b < a.tmod b ∧ (0 ≤ a → 0 ≤ a.tmod b) ∧ (a ≤ 0 → a.tmod b ≤ 0) := by
  have := tpos a (-b) (by omega)
  rw [Int.tdiv_neg, Int.tmod_neg] at this
  obtain ⟨_, h2, h3, h4, h5⟩ := this
  exact ⟨Int.mul_tdiv_add_tmod a b, h2, by omega, h4, h5⟩

theorem qpp (a b : Int) (ha : 0 ≤ a) (hb : 0 < b) : 0 ≤ a.tdiv b ∧ a.tdiv b ≤ a := by
  have h := Int.tdiv_nonneg ha hb.le
  obtain ⟨e, l1, l2, p1, _⟩ := tpos a b hb
  have := p1 ha
  exact ⟨h, by nlinarith⟩
theorem qpn (a b : Int) (ha : 0 ≤ a) (hb : b < 0) : a.tdiv b ≤ 0 ∧ -a ≤ a.tdiv b := by
  have := qpp a (-b) ha (by omega)
  rw [Int.tdiv_neg] at this; omega
theorem qnn (a b : Int) (ha : a ≤ 0) (hb : b < 0) : 0 ≤ a.tdiv b ∧ a.tdiv b ≤ -a := by
  have := qpp (-a) (-b) (by omega) (by omega)
  rwa [Int.neg_tdiv, Int.tdiv_neg, neg_neg] at this
theorem qnp (a b : Int) (ha : a ≤ 0) (hb : 0 < b) : a.tdiv b ≤ 0 ∧ a ≤ a.tdiv b := by
  have := qpp (-a) b (by omega) hb
  rw [Int.neg_tdiv] at this; omega
theorem mono (a c b : Int) (h : a ≤ c) (hb : 0 < b) : a.tdiv b ≤ c.tdiv b := Int.tdiv_le_tdiv hb h
theorem mono' (a c b : Int) (h : a ≤ c) (hb : b < 0) : c.tdiv b ≤ a.tdiv b := by
  have := mono a c (-b) h (by omega)
  rw [Int.tdiv_neg, Int.tdiv_neg] at this; omega
theorem monod (a b d : Int) (ha : 0 ≤ a) (hb : 0 < b) (h : b ≤ d) : a.tdiv d ≤ a.tdiv b := by
  have h3 := qpp a b ha hb
  have h4 := qpp a d ha (by omega)
  by_contra hc
  have hc : a.tdiv b < a.tdiv d := not_le.mp hc
  obtain ⟨e1, l1, l2, p1, _⟩ := tpos a b hb
  obtain ⟨e2, m1, m2, p2, _⟩ := tpos a d (by omega)
  have := p1 ha; have := p2 ha
  nlinarith
theorem monodn (a b d : Int) (ha : 0 ≤ a) (hd : d < 0) (h : b ≤ d) : a.tdiv d ≤ a.tdiv b := by
  have := monod a (-d) (-b) ha (by omega) (by omega)
  rw [Int.tdiv_neg, Int.tdiv_neg] at this; omega
theorem monod' (a b d : Int) (ha : a ≤ 0) (hb : 0 < b) (h : b ≤ d) : a.tdiv b ≤ a.tdiv d := by
  have := monod (-a) b d (by omega) hb h
  rw [Int.neg_tdiv, Int.neg_tdiv] at this; omega
theorem monodn' (a b d : Int) (ha : a ≤ 0) (hd : d < 0) (h : b ≤ d) : a.tdiv b ≤ a.tdiv d := by
  have := monodn (-a) b d (by omega) hd h
  rw [Int.neg_tdiv, Int.neg_tdiv] at this; omega

macro "prod1" : tactic => `(tactic| (subst_vars; first | nlinarith | (casesm* _ ∧ _; subst_vars; nlinarith)))
macro "prod2" b:ident : tactic => `(tactic| (first | (subst_vars; nlinarith) | (casesm* _ ∧ _; subst_vars; nlinarith) |
  (casesm* _ ∧ _; have hz : $b = 0 := by omega
   subst_vars; simp_all)))
macro "divfacts" a:ident b:ident : tactic => `(tactic| first | (subst_vars; simp; done) | (
  subst_vars
  rcases lt_trichotomy $b 0 with hb | hb | hb
  · obtain ⟨e, l1, l2, p1, p2⟩ := tneg $a $b hb
    have n1 := fun h => qpn $a $b h hb
    have n2 := fun h => qnn $a $b h hb
    rcases le_total 0 $a with ha | ha <;> (try split) <;> first | omega | nlinarith | (have := n1 ha; omega) | (have := n2 ha; omega)
  · subst hb
    simp at * <;> omega
  · obtain ⟨e, l1, l2, p1, p2⟩ := tpos $a $b hb
    have n1 := fun h => qpp $a $b h hb
    have n2 := fun h => qnp $a $b h hb
    rcases le_total 0 $a with ha | ha <;> (try split) <;> first | omega | nlinarith | (have := n1 ha; omega) | (have := n2 ha; omega)))
macro "divpair" a:ident : tactic => `(tactic| (
  casesm* _ ∧ _
  subst_vars
  first
  | omega
  | (simp [Int.neg_tdiv, Int.tdiv_neg, Int.neg_tmod, Int.tmod_neg]; done)
  | (have hz : $a = 0 := by omega
     simp [hz]; done)
  | (apply mono <;> assumption)
  | (apply mono' <;> assumption)
  | (casesm* _ ∨ _ <;> first | (apply monod <;> assumption) | (apply monodn <;> assumption) | (apply monod' <;> assumption) | (apply monodn' <;> assumption))))
