import Mathlib.NumberTheory.LucasLehmer
import Mathlib.Tactic.Ring
import Mathlib.Tactic.Linarith

/-! Arithmetic facts the contracts of /verif/cv/specs_prime.py rely on. -/

/-- both field moduli are prime -/
theorem prime61 : (2 ^ 61 - 1 : ℕ).Prime :=
  lucas_lehmer_sufficiency _ (by simp) (by norm_num)

theorem prime127 : (2 ^ 127 - 1 : ℕ).Prime :=
  lucas_lehmer_sufficiency _ (by simp) (by norm_num)

/-- the form used for the extended Euclid loop: a positive divisor of a prime is 1 or the prime -/
theorem divisor_of_prime (n : ℕ) (h : n.Prime) (b r : ℤ) (hr : 1 ≤ r) (hd : b * r = n ∨ b * r = -n) :
    r = 1 ∨ r = n := by
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le (by linarith : 0 ≤ r)
  have hdvd : (k : ℤ) ∣ (n : ℤ) := by
    rcases hd with hd | hd
    · exact ⟨b, by linarith [mul_comm b (k : ℤ)]⟩
    · exact ⟨-b, by rw [mul_neg, mul_comm]; linarith⟩
  have := (Nat.dvd_prime h).1 (Int.natCast_dvd_natCast.1 hdvd)
  rcases this with h1 | h1
  · left; simp [h1]
  · right; simp [h1]

/-- range of a product of canonical residues -/
theorem product_range (p x y : ℤ) (hx : 0 ≤ x) (hx' : x < p) (hy : 0 ≤ y) (hy' : y < p) :
    0 ≤ x * y ∧ x * y ≤ (p - 1) ^ 2 := by
  constructor
  · exact mul_nonneg hx hy
  · have : x * y ≤ (p - 1) * (p - 1) := mul_le_mul (by linarith) (by linarith) hy (by linarith)
    linarith [sq (p - 1)]

/-- schoolbook decomposition of a 128-bit product into 64-bit limbs -/
theorem limbs (W x y : ℤ) (_hW : 0 < W) :
    x * y = (x / W) * (y / W) * W * W + ((x / W) * (y % W) + (x % W) * (y / W)) * W + (x % W) * (y % W) := by
  have hx := Int.mul_ediv_add_emod x W
  have hy := Int.mul_ediv_add_emod y W
  calc x * y = (W * (x / W) + x % W) * (W * (y / W) + y % W) := by rw [hx, hy]
    _ = _ := by ring
