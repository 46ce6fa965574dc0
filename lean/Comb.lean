/- Combinatorics of the lexicographic enumeration of k-subsets of {0,..,m-1}: background theorems for the contracts of C09, C12
   and C13. `c e i` is the i-th element of the e-th combination; `Enum` is its definition by first element and successor. -/
import Mathlib.Data.Nat.Choose.Sum
import Mathlib.Data.Finset.Powerset
import Mathlib.Algebra.BigOperators.Group.Finset.Basic
import Mathlib.Tactic

open Finset

theorem choose_step (M i : ℕ) : (M + (i + 1)).choose (i + 1) * (i + 1) = (M + i).choose i * (M + (i + 1)) := by
  have := Nat.add_one_mul_choose_eq (M + i) i
  rw [show M + (i + 1) = M + i + 1 by ring]; linarith

theorem choose_mono (M i e : ℕ) (h : i ≤ e) : (M + i).choose i ≤ (M + e).choose e := by
  rw [← Nat.choose_symm_add, ← Nat.choose_symm_add]; exact Nat.choose_le_choose _ (by omega)

theorem choose_symmetric (m k : ℕ) (h : k ≤ m) : m.choose (m - k) = m.choose k := Nat.choose_symm h

/-- the last position that can still be increased -/
def Pivot (m k : ℕ) (c : ℕ → ℕ) (i : ℕ) : Prop := i < k ∧ c i < m - k + i ∧ ∀ j, i < j → j < k → m - k + j ≤ c j
structure Enum (m k : ℕ) (c : ℕ → ℕ → ℕ) : Prop where
  first : ∀ i, i < k → c 0 i = i
  lo : ∀ e i, Pivot m k (c e) i → ∀ j, j < i → c (e + 1) j = c e j
  hi : ∀ e i, Pivot m k (c e) i → ∀ d, i + d < k → c (e + 1) (i + d) = c e i + 1 + d
def IsComb (m k : ℕ) (c : ℕ → ℕ) : Prop := (∀ i, i < k → c i < m) ∧ ∀ i, i + 1 < k → c i < c (i + 1)
def R (m k : ℕ) (c : ℕ → ℕ) : ℕ := ∑ i ∈ range k, (m - 1 - c i).choose (k - i)

theorem hockey (q : ℕ) : ∀ p, q ≤ p → (∑ d ∈ range q, (p - 1 - d).choose (q - d)) + 1 = p.choose q := by
  induction q with
  | zero => intro p _; simp
  | succ q ih =>
    intro p hp
    obtain ⟨p, rfl⟩ : ∃ r, p = r + 1 := ⟨p - 1, by omega⟩
    rw [sum_range_succ', Nat.choose_succ_succ, ← ih p (by omega)]
    have : ∀ d, (p + 1 - 1 - (d + 1)).choose (q + 1 - (d + 1)) = (p - 1 - d).choose (q - d) := by
      intro d; congr 1 <;> omega
    simp only [this]; simp; ring

theorem IsComb.lt {m k : ℕ} {c : ℕ → ℕ} (h : IsComb m k c) {i j : ℕ} (hij : i < j) (hj : j < k) : c i < c j := by
  induction j with
  | zero => omega
  | succ j ih =>
    rcases Nat.lt_or_ge i j with h1 | h1
    · exact lt_trans (ih h1 (by omega)) (h.2 j hj)
    · have : i = j := by omega
      subst this; exact h.2 i hj
theorem IsComb.le {m k : ℕ} {c : ℕ → ℕ} (h : IsComb m k c) {i : ℕ} (hi : i < k) : c i + (k - i) ≤ m := by
  obtain ⟨d, hd⟩ : ∃ d, k - i = d + 1 := ⟨k - i - 1, by omega⟩
  have : ∀ t, i + t < k → c i + t ≤ c (i + t) := by
    intro t; induction t with
    | zero => intro _; simp
    | succ t ih => intro ht; have := ih (by omega); have := h.2 (i + t) (by omega); rw [show i + (t + 1) = i + t + 1 by ring]; omega
  have h1 := this d (by omega); have h2 := h.1 (i + d) (by omega); omega

theorem pivot_exists {m k : ℕ} {c : ℕ → ℕ} (h : ∃ i, i < k ∧ c i < m - k + i) : ∃ i, Pivot m k c i := by
  classical
  obtain ⟨i, hi, hc⟩ := h
  let s := (range k).filter (fun i => c i < m - k + i)
  have hs : s.Nonempty := ⟨i, by simp [s, hi, hc]⟩
  refine ⟨s.max' hs, ?_, ?_, ?_⟩
  · have := s.max'_mem hs; simp [s] at this; simpa [s] using this.1
  · have := s.max'_mem hs; simp [s] at this; simpa [s] using this.2
  · intro j hj hjk; by_contra hn
    have : j ∈ s := by simp [s, hjk]; omega
    have := s.le_max' j this; omega

theorem next_comb {m k : ℕ} {c c' : ℕ → ℕ} (_hk : k ≤ m) (h : IsComb m k c) {i : ℕ} (hp : Pivot m k c i)
    (lo : ∀ j, j < i → c' j = c j) (hi : ∀ d, i + d < k → c' (i + d) = c i + 1 + d) : IsComb m k c' := by
  obtain ⟨hik, hci, _⟩ := hp
  constructor
  · intro j hj
    rcases Nat.lt_or_ge j i with h1 | h1
    · rw [lo j h1]; exact h.1 j hj
    · obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le h1; rw [hi d hj]; omega
  · intro j hj
    rcases Nat.lt_or_ge (j + 1) i with h1 | h1
    · rw [lo j (by omega), lo _ h1]; exact h.2 j hj
    · rcases Nat.lt_or_ge j i with h2 | h2
      · have e : j + 1 = i + 0 := by omega
        rw [lo j h2, e, hi 0 (by omega)]; have := h.lt h2 hik; omega
      · obtain ⟨d, rfl⟩ := Nat.exists_eq_add_of_le h2
        rw [hi d (by omega), show i + d + 1 = i + (d + 1) by ring, hi (d + 1) (by omega)]; omega

theorem next_rank {m k : ℕ} {c c' : ℕ → ℕ} (hk : k ≤ m) (h : IsComb m k c) {i : ℕ} (hp : Pivot m k c i)
    (lo : ∀ j, j < i → c' j = c j) (hi : ∀ d, i + d < k → c' (i + d) = c i + 1 + d) : R m k c' + 1 = R m k c := by
  obtain ⟨hik, hci, hj⟩ := hp
  obtain ⟨q, rfl⟩ := Nat.exists_eq_add_of_lt hik
  have hm := h.le hik
  unfold R
  rw [show i + q + 1 = i + (q + 1) by ring, sum_range_add (fun x => (m - 1 - c' x).choose (i + (q + 1) - x)) i (q + 1), sum_range_add (fun x => (m - 1 - c x).choose (i + (q + 1) - x)) i (q + 1)]
  have e1 : ∑ x ∈ range i, (m - 1 - c' x).choose (i + (q + 1) - x) = ∑ x ∈ range i, (m - 1 - c x).choose (i + (q + 1) - x) :=
    sum_congr rfl (fun x hx => by rw [lo x (mem_range.1 hx)])
  rw [e1, add_assoc]; congr 1
  rw [sum_range_succ' (fun x => (m - 1 - c (i + x)).choose (i + (q + 1) - (i + x)))]
  have e2 : ∑ x ∈ range q, (m - 1 - c (i + (x + 1))).choose (i + (q + 1) - (i + (x + 1))) = 0 := by
    apply sum_eq_zero; intro x hx; apply Nat.choose_eq_zero_of_lt
    have hx := mem_range.1 hx
    have := hj (i + (x + 1)) (by omega) (by omega); have := h.le (i := i + (x + 1)) (by omega); omega
  rw [e2, zero_add]
  have e3 := hockey (q + 1) (m - 1 - c i) (by omega)
  have e4 : i + (q + 1) - (i + 0) = q + 1 := by omega
  rw [e4, add_zero, ← e3]; congr 1
  apply sum_congr rfl; intro d hd
  have hd := mem_range.1 hd
  rw [hi d (by omega)]; congr 1 <;> omega

theorem first_rank {m k : ℕ} {c : ℕ → ℕ} (hk : k ≤ m) (h : ∀ i, i < k → c i = i) : R m k c + 1 = m.choose k := by
  rw [← hockey k m hk]; congr 1; unfold R; apply sum_congr rfl; intro d hd; rw [h d (mem_range.1 hd)]

theorem last_rank {m k : ℕ} {c : ℕ → ℕ} (hk : k ≤ m) (h : IsComb m k c) (hn : ¬ ∃ i, i < k ∧ c i < m - k + i) : R m k c = 0 := by
  unfold R; apply sum_eq_zero; intro i hi
  have hi := mem_range.1 hi
  have : m - k + i ≤ c i := by by_contra h2; exact hn ⟨i, hi, by omega⟩
  have := h.le hi
  apply Nat.choose_eq_zero_of_lt; omega

/-- every e below C(m,k) is a combination of rank C(m,k)-1-e -/
theorem enum_rank {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) :
    ∀ e, e < m.choose k → IsComb m k (c e) ∧ R m k (c e) + e + 1 = m.choose k := by
  intro e; induction e with
  | zero =>
    intro _; refine ⟨⟨fun i hi => ?_, fun i hi => ?_⟩, ?_⟩
    · rw [E.first i hi]; omega
    · rw [E.first i (by omega), E.first _ hi]; omega
    · have := first_rank hk E.first; omega
  | succ e ih =>
    intro he
    obtain ⟨h1, h2⟩ := ih (by omega)
    have : ∃ i, i < k ∧ c e i < m - k + i := by
      by_contra hn; have := last_rank hk h1 hn; omega
    obtain ⟨i, hp⟩ := pivot_exists this
    refine ⟨next_comb hk h1 hp (E.lo e i hp) (E.hi e i hp), ?_⟩
    have := next_rank hk h1 hp (E.lo e i hp) (E.hi e i hp); omega

/-- there is a successor exactly before the last index -/
theorem enum_pivot {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) (e : ℕ) (he : e < m.choose k) :
    (∃ i, Pivot m k (c e) i) ↔ e + 1 < m.choose k := by
  obtain ⟨h1, h2⟩ := enum_rank hk E e he
  constructor
  · rintro ⟨i, hp⟩
    have := next_rank hk h1 hp (c' := fun j => if j < i then c e j else c e i + 1 + (j - i)) (fun j hj => by simp [hj]) (fun d _ => by simp); omega
  · intro h; apply pivot_exists; by_contra hn; have := last_rank hk h1 hn; omega

theorem enum_increasing {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) (e : ℕ) (he : e < m.choose k) (i j : ℕ) (hij : i < j) (hj : j < k) : c e i < c e j :=
  (enum_rank hk E e he).1.lt hij hj
theorem enum_bound {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) (e : ℕ) (he : e < m.choose k) (i : ℕ) (hi : i < k) : c e i ≤ m - k + i := by
  have := (enum_rank hk E e he).1.le hi; omega

/-- different indices, different combinations -/
theorem enum_injective {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) (e f : ℕ) (he : e < m.choose k) (hf : f < m.choose k) (hne : e ≠ f) : ∃ i, i < k ∧ c e i ≠ c f i := by
  by_contra h
  have h' : ∀ i, i < k → c e i = c f i := fun i hi => by by_contra h2; exact h ⟨i, hi, h2⟩
  have : R m k (c e) = R m k (c f) := by unfold R; exact sum_congr rfl (fun i hi => by rw [h' i (mem_range.1 hi)])
  have := (enum_rank hk E e he).2; have := (enum_rank hk E f hf).2; omega

def S (k : ℕ) (c : ℕ → ℕ) : Finset ℕ := (range k).image c
theorem card_S {m k : ℕ} {c : ℕ → ℕ} (h : IsComb m k c) : (S k c).card = k := by
  unfold S; rw [card_image_of_injOn, card_range]
  intro i hi j hj hij
  have hi := mem_range.1 (mem_coe.1 hi); have hj := mem_range.1 (mem_coe.1 hj)
  rcases Nat.lt_trichotomy i j with h1 | h1 | h1
  · have := h.lt h1 hj; omega
  · exact h1
  · have := h.lt h1 hi; omega
theorem sorted_unique {k : ℕ} : ∀ {m : ℕ} {a b : ℕ → ℕ}, IsComb m k a → IsComb m k b → S k a = S k b → ∀ i, i < k → a i = b i := by
  intro m a b ha hb hS i
  induction i using Nat.strong_induction_on with
  | _ i ih =>
    intro hi
    have h1 : a i ∈ S k b := hS ▸ mem_image_of_mem a (mem_range.2 hi)
    have h2 : b i ∈ S k a := hS ▸ mem_image_of_mem b (mem_range.2 hi)
    obtain ⟨x, hx, hxa⟩ := mem_image.1 h1
    obtain ⟨y, hy, hyb⟩ := mem_image.1 h2
    have hx := mem_range.1 hx; have hy := mem_range.1 hy
    have h3 : i ≤ x := by
      by_contra hlt; have := ih x (by omega) hx; have := ha.lt (i := x) (j := i) (by omega) hi; omega
    have h4 : i ≤ y := by
      by_contra hlt; have := ih y (by omega) hy; have := hb.lt (i := y) (j := i) (by omega) hi; omega
    have h5 : b i ≤ b x := by rcases Nat.eq_or_lt_of_le h3 with h | h; · subst h; exact le_refl _
                              · exact le_of_lt (hb.lt h hx)
    have h6 : a i ≤ a y := by rcases Nat.eq_or_lt_of_le h4 with h | h; · subst h; exact le_refl _
                              · exact le_of_lt (ha.lt h hy)
    omega

theorem enum_image {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) : (range (m.choose k)).image (fun e => S k (c e)) = powersetCard k (range m) := by
  apply eq_of_subset_of_card_le
  · intro s hs
    obtain ⟨e, he, rfl⟩ := mem_image.1 hs
    have h := (enum_rank hk E e (mem_range.1 he)).1
    rw [mem_powersetCard]; refine ⟨?_, card_S h⟩
    intro x hx; obtain ⟨i, hi, rfl⟩ := mem_image.1 hx; exact mem_range.2 (h.1 i (mem_range.1 hi))
  · rw [card_powersetCard, card_range, card_image_of_injOn, card_range]
    intro e he f hf hef
    by_contra hne
    have he := mem_range.1 (mem_coe.1 he); have hf := mem_range.1 (mem_coe.1 hf)
    obtain ⟨i, hi, h⟩ := enum_injective hk E e f he hf hne
    exact h (sorted_unique (enum_rank hk E e he).1 (enum_rank hk E f hf).1 hef i hi)

/-- every strictly increasing k-sequence below m is one of the combinations -/
theorem enum_surjective {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (E : Enum m k c) (a : ℕ → ℕ) (ha : IsComb m k a) : ∃ e, e < m.choose k ∧ ∀ i, i < k → c e i = a i := by
  have : S k a ∈ powersetCard k (range m) := by
    rw [mem_powersetCard]; refine ⟨?_, card_S ha⟩
    intro x hx; obtain ⟨i, hi, rfl⟩ := mem_image.1 hx; exact mem_range.2 (ha.1 i (mem_range.1 hi))
  rw [← enum_image hk E] at this
  obtain ⟨e, he, h⟩ := mem_image.1 this
  exact ⟨e, mem_range.1 he, sorted_unique (enum_rank hk E e (mem_range.1 he)).1 ha h⟩

/-- each party is in C(m-1,k-1) combinations -/
theorem enum_count {m k : ℕ} {c : ℕ → ℕ → ℕ} (hk : k ≤ m) (h1 : 1 ≤ k) (E : Enum m k c) (p : ℕ) (hp : p < m) :
    ((range (m.choose k)).filter (fun e => ∃ i, i < k ∧ c e i = p)).card = (m - 1).choose (k - 1) := by
  have inj : Set.InjOn (fun e => S k (c e)) (range (m.choose k) : Set ℕ) := by
    rw [← card_image_iff, enum_image hk E]; simp
  have e1 : ((range (m.choose k)).filter (fun e => ∃ i, i < k ∧ c e i = p)).card = ((powersetCard k (range m)).filter (fun s => p ∈ s)).card := by
    rw [← enum_image hk E, filter_image, card_image_of_injOn]
    · congr 1; apply filter_congr; intro e _; simp [S]
    · exact inj.mono (by intro x hx; simp at hx ⊢; exact hx.1)
  rw [e1]
  have e2 : (powersetCard k (range m)).filter (fun s => p ∉ s) = powersetCard k ((range m).erase p) := by
    ext s; simp only [mem_filter, mem_powersetCard]
    constructor
    · rintro ⟨⟨a, b⟩, d⟩; exact ⟨fun x hx => mem_erase.2 ⟨fun h => d (h ▸ hx), a hx⟩, b⟩
    · rintro ⟨a, b⟩; exact ⟨⟨fun x hx => mem_of_mem_erase (a hx), b⟩, fun hx => (mem_erase.1 (a hx)).1 rfl⟩
  have e3 := card_filter_add_card_filter_not (s := powersetCard k (range m)) (fun s => p ∈ s)
  rw [e2, card_powersetCard, card_powersetCard, card_erase_of_mem (mem_range.2 hp), card_range] at e3
  obtain ⟨m, rfl⟩ : ∃ x, m = x + 1 := ⟨m - 1, by omega⟩
  obtain ⟨k, rfl⟩ : ∃ x, k = x + 1 := ⟨k - 1, by omega⟩
  rw [Nat.choose_succ_succ] at e3; simp at e3 ⊢; omega

/-- ranks within one combination: rank p is the number of members below p -/
def rank (k : ℕ) (a : ℕ → ℕ) (p : ℕ) : ℕ := ((range k).filter (fun i => a i < p)).card
theorem rank_zero (k : ℕ) (a : ℕ → ℕ) : rank k a 0 = 0 := by simp [rank]
theorem rank_bound (k : ℕ) (a : ℕ → ℕ) (p : ℕ) : rank k a p ≤ k := by
  unfold rank; exact (card_filter_le _ _).trans (by simp)
theorem rank_all {m k : ℕ} {a : ℕ → ℕ} (h : IsComb m k a) : rank k a m = k := by
  unfold rank; rw [filter_true_of_mem, card_range]; intro i hi; exact h.1 i (mem_range.1 hi)
theorem rank_member {m k : ℕ} {a : ℕ → ℕ} (h : IsComb m k a) (r : ℕ) (hr : r < k) : rank k a (a r) = r := by
  have : (range k).filter (fun i => a i < a r) = range r := by
    ext i; simp only [mem_filter, mem_range]
    constructor
    · rintro ⟨hi, hlt⟩; by_contra hge
      rcases Nat.eq_or_lt_of_le (Nat.le_of_not_lt hge) with h2 | h2
      · subst h2; omega
      · have := h.lt h2 hi; omega
    · intro hi; exact ⟨by omega, h.lt hi hr⟩
  unfold rank; rw [this, card_range]
theorem rank_step {m k : ℕ} {a : ℕ → ℕ} (h : IsComb m k a) (p : ℕ) : ((∃ r, r < k ∧ a r = p) → rank k a (p + 1) = rank k a p + 1) ∧ ((¬ ∃ r, r < k ∧ a r = p) → rank k a (p + 1) = rank k a p) := by
  constructor
  · rintro ⟨r, hr, rfl⟩
    rw [rank_member h r hr]
    have : (range k).filter (fun i => a i < a r + 1) = range (r + 1) := by
      ext i; simp only [mem_filter, mem_range]
      constructor
      · rintro ⟨hi, hlt⟩; by_contra hge; have := h.lt (i := r) (j := i) (by omega) hi; omega
      · intro hi; refine ⟨by omega, ?_⟩
        rcases Nat.eq_or_lt_of_le (Nat.le_of_lt_succ hi) with h2 | h2
        · subst h2; omega
        · have := h.lt h2 hr; omega
    unfold rank; rw [this, card_range]
  · intro hn; unfold rank; congr 1; apply filter_congr; intro i hi
    have : a i ≠ p := fun h2 => hn ⟨i, mem_range.1 hi, h2⟩
    omega
/-- two (m-t)-subsets share at least m-2t members -/
theorem common_members (m t : ℕ) (A B : Finset ℕ) (hA : A ⊆ range m) (hB : B ⊆ range m) (ca : A.card = m - t) (cb : B.card = m - t) (ht : t ≤ m) : m - 2 * t ≤ (A ∩ B).card := by
  have h1 := card_union_add_card_inter A B
  have h2 : (A ∪ B).card ≤ m := by have := card_le_card (union_subset hA hB); simpa using this
  omega
theorem choose_sub (n t : ℕ) (_h1 : 1 ≤ t) (h : t < n) : (n - 1).choose t ≤ n.choose t ∧ 1 ≤ (n - 1).choose t ∧ (n - 1).choose (n - t - 1) = (n - 1).choose t := by
  refine ⟨Nat.choose_le_choose _ (by omega), Nat.choose_pos (by omega), ?_⟩
  rw [show n - t - 1 = (n - 1) - t by omega]; exact Nat.choose_symm (by omega)
/-- the members of a common to b, in order: cm (cnt r) = a r whenever a r is common -/
def cnt (k : ℕ) (a b : ℕ → ℕ) (r : ℕ) : ℕ := ((range r).filter (fun i => a i ∈ S k b)).card
theorem cnt_zero (k : ℕ) (a b : ℕ → ℕ) : cnt k a b 0 = 0 := by simp [cnt]
theorem cnt_step (k : ℕ) (a b : ℕ → ℕ) (r : ℕ) : cnt k a b (r + 1) = cnt k a b r + if a r ∈ S k b then 1 else 0 := by
  unfold cnt; rw [range_add_one, filter_insert]; split <;> simp
theorem cnt_le (k : ℕ) (a b : ℕ → ℕ) (r : ℕ) : cnt k a b r ≤ r := by
  unfold cnt; exact (card_filter_le _ _).trans (by simp)
theorem cnt_const (k : ℕ) (a b : ℕ → ℕ) (x y : ℕ) (h : x ≤ y) : cnt k a b x = cnt k a b y ∨ ∃ w, x ≤ w ∧ w < y ∧ a w ∈ S k b := by
  by_cases hw : ∃ w, x ≤ w ∧ w < y ∧ a w ∈ S k b
  · exact Or.inr hw
  · left; unfold cnt; congr 1; ext i; simp only [mem_filter, mem_range]
    constructor
    · rintro ⟨h1, h2⟩; exact ⟨by omega, h2⟩
    · rintro ⟨h1, h2⟩; refine ⟨?_, h2⟩; by_contra hn; exact hw ⟨i, by omega, h1, h2⟩
theorem cnt_mono (k : ℕ) (a b : ℕ → ℕ) {x y : ℕ} (h : x ≤ y) : cnt k a b x ≤ cnt k a b y := by
  unfold cnt; apply card_le_card; intro i; simp only [mem_filter, mem_range]; rintro ⟨h1, h2⟩; exact ⟨by omega, h2⟩
theorem cnt_all {m k : ℕ} {a b : ℕ → ℕ} (ha : IsComb m k a) : cnt k a b k = (S k a ∩ S k b).card := by
  have : S k a ∩ S k b = ((range k).filter (fun i => a i ∈ S k b)).image a := by
    ext x; simp only [mem_inter, mem_image, mem_filter, S, mem_range]
    constructor
    · rintro ⟨⟨i, hi, rfl⟩, h⟩; exact ⟨i, ⟨hi, h⟩, rfl⟩
    · rintro ⟨i, ⟨hi, h⟩, rfl⟩; exact ⟨⟨i, hi, rfl⟩, h⟩
  rw [this, card_image_of_injOn]; · rfl
  intro i hi j hj hij
  simp only [coe_filter, mem_range, Set.mem_setOf_eq] at hi hj
  rcases Nat.lt_trichotomy i j with h1 | h1 | h1
  · have := ha.lt h1 hj.1; omega
  · exact h1
  · have := ha.lt h1 hi.1; omega
theorem cnt_hit (k : ℕ) (a b : ℕ → ℕ) (q : ℕ) : ∀ r, q < cnt k a b r → ∃ i, i < r ∧ a i ∈ S k b ∧ cnt k a b i = q := by
  intro r; induction r with
  | zero => intro h; simp [cnt] at h
  | succ r ih =>
    intro h; rw [cnt_step] at h
    by_cases h1 : q < cnt k a b r
    · obtain ⟨i, h2, h3⟩ := ih h1; exact ⟨i, by omega, h3⟩
    · by_cases h2 : a r ∈ S k b
      · simp [h2] at h; exact ⟨r, by omega, h2, by omega⟩
      · simp [h2] at h; omega
theorem common_many {m t : ℕ} {a b : ℕ → ℕ} (ht : t ≤ m) (ha : IsComb m (m - t) a) (hb : IsComb m (m - t) b) : m - 2 * t ≤ cnt (m - t) a b (m - t) := by
  rw [cnt_all ha]; apply common_members m t _ _ _ _ (card_S ha) (card_S hb) ht
  · intro x hx; obtain ⟨i, hi, rfl⟩ := mem_image.1 hx; exact mem_range.2 (ha.1 i (mem_range.1 hi))
  · intro x hx; obtain ⟨i, hi, rfl⟩ := mem_image.1 hx; exact mem_range.2 (hb.1 i (mem_range.1 hi))
/-- the first m-2t common members of two (m-t)-subsets are one of the (m-2t)-subsets -/
theorem common_target {m t : ℕ} {a b : ℕ → ℕ} {c : ℕ → ℕ → ℕ} (ht : t ≤ m) (ha : IsComb m (m - t) a) (hb : IsComb m (m - t) b) (E : Enum m (m - 2 * t) c)
    (cm : ℕ → ℕ) (hc : ∀ r, r < m - t → a r ∈ S (m - t) b → cm (cnt (m - t) a b r) = a r) :
    ∃ e, e < m.choose (m - 2 * t) ∧ ∀ q, q < m - 2 * t → c e q = cm q := by
  have hm := common_many ht ha hb
  have key : ∀ q, q < m - 2 * t → ∃ i, i < m - t ∧ a i ∈ S (m - t) b ∧ cnt (m - t) a b i = q := fun q hq => cnt_hit _ a b q (m - t) (by omega)
  apply enum_surjective (by omega) E cm
  constructor
  · intro q hq; obtain ⟨i, hi, hb', rfl⟩ := key q hq; rw [hc i hi hb']; exact ha.1 i hi
  · intro q hq
    obtain ⟨i, hi, hib, hq1⟩ := key q (by omega); obtain ⟨j, hj, hjb, hq2⟩ := key (q + 1) hq
    have hij : i < j := by by_contra h; have := cnt_mono (m - t) a b (Nat.le_of_not_lt h); omega
    have e1 := hc i hi hib; have e2 := hc j hj hjb
    rw [hq1] at e1; rw [hq2] at e2; rw [e1, e2]; exact ha.lt hij hj
/-- composition for C12: when every pair of additive shares is assigned to exactly one double-degree share, the sums per target add up to the product -/
theorem product_split {K : Type*} [CommRing K] (A A2 : ℕ) (x y : ℕ → K) (T : ℕ → ℕ → ℕ) (hT : ∀ e f, e < A → f < A → T e f < A2) :
    ∑ t ∈ range A2, ∑ p ∈ (range A ×ˢ range A).filter (fun p => T p.1 p.2 = t), x p.1 * y p.2 = (∑ e ∈ range A, x e) * (∑ f ∈ range A, y f) := by
  rw [sum_mul_sum, ← sum_product', sum_fiberwise_of_maps_to]
  intro p hp; rw [mem_product] at hp; exact mem_range.2 (hT _ _ (mem_range.1 hp.1) (mem_range.1 hp.2))
/-- the same per responsible party: each pair is counted by exactly one party -/
theorem product_parties {K : Type*} [CommRing K] (A n : ℕ) (x y : ℕ → K) (P : ℕ → ℕ → ℕ) (hP : ∀ e f, e < A → f < A → P e f < n) :
    ∑ p ∈ range n, ∑ q ∈ (range A ×ˢ range A).filter (fun q => P q.1 q.2 = p), x q.1 * y q.2 = (∑ e ∈ range A, x e) * (∑ f ∈ range A, y f) := product_split A n x y P hP
