import Mathlib.Tactic
import Mathlib.Data.Nat.Log
/-! Lemmas on natural numbers that the contracts of base.h use (harness/o_base.cc assumes
exactly these instances, on machine integers for which no operation below wraps). -/

/-- Division by an invariant `d` with the multiplier of hwy::Divisor and hwy::Divisor64:
`W` is the word size, `L` the number of the power of two with `2^L/2 < d ≤ 2^L`. -/
theorem divisor_mul_small (W L d : ℕ) (h1 : 2 ^ L < 2 * d) (h2 : d ≤ 2 ^ L) (hd : d < 2 ^ W) :
    ((2 ^ L - d) * 2 ^ W) / d + 1 < 2 ^ W := by
  have hdp : 0 < d := by omega
  have hk : 2 ^ L - d + 1 ≤ d := by omega
  have h3 : ((2 ^ L - d) * 2 ^ W) / d < 2 ^ W - 1 := by
    rw [Nat.div_lt_iff_lt_mul hdp]
    have h4 : (2 ^ L - d) * 2 ^ W ≤ (d - 1) * 2 ^ W := Nat.mul_le_mul_right _ (by omega)
    have h5 : (d - 1) * 2 ^ W + 2 ^ W = d * 2 ^ W := by
      have : d - 1 + 1 = d := by omega
      calc (d - 1) * 2 ^ W + 2 ^ W = (d - 1 + 1) * 2 ^ W := by ring
        _ = d * 2 ^ W := by rw [this]
    have h6 : (2 ^ W - 1) * d + d = 2 ^ W * d := by
      have : 2 ^ W - 1 + 1 = 2 ^ W := by have := Nat.one_le_two_pow (n := W); omega
      calc (2 ^ W - 1) * d + d = (2 ^ W - 1 + 1) * d := by ring
        _ = 2 ^ W * d := by rw [this]
    have h7 : d * 2 ^ W = 2 ^ W * d := by ring
    omega
  omega

theorem divisor_quotient (W L d n : ℕ) (h1 : 2 ^ L < 2 * d) (h2 : d ≤ 2 ^ L) (hn : n < 2 ^ W) :
    (n + (((2 ^ L - d) * 2 ^ W) / d + 1) * n / 2 ^ W) / 2 ^ L = n / d := by
  have hdp : 0 < d := by omega
  set A := (2 ^ L - d) * 2 ^ W with hA
  set m := A / d + 1 with hm
  have hlow : A < m * d := by
    have := Nat.lt_div_mul_add (a := A) hdp
    calc A < A / d * d + d := this
      _ = m * d := by rw [hm]; ring
  have hhigh : m * d ≤ A + d := by
    have := Nat.div_mul_le_self A d
    calc m * d = A / d * d + d := by rw [hm]; ring
      _ ≤ A + d := by omega
  have hAd : A + 2 ^ W * d = 2 ^ L * 2 ^ W := by
    have h : 2 ^ L - d + d = 2 ^ L := by omega
    calc A + 2 ^ W * d = (2 ^ L - d + d) * 2 ^ W := by rw [hA]; ring
      _ = 2 ^ L * 2 ^ W := by rw [h]
  set M := 2 ^ W + m with hM
  have hMd1 : 2 ^ L * 2 ^ W < M * d := by
    calc 2 ^ L * 2 ^ W = A + 2 ^ W * d := hAd.symm
      _ < m * d + 2 ^ W * d := by omega
      _ = M * d := by rw [hM]; ring
  have hMd2 : M * d ≤ 2 ^ L * 2 ^ W + d := by
    calc M * d = m * d + 2 ^ W * d := by rw [hM]; ring
      _ ≤ A + d + 2 ^ W * d := by omega
      _ = 2 ^ L * 2 ^ W + d := by omega
  have hsum : n + m * n / 2 ^ W = M * n / 2 ^ W := by
    have : M * n = m * n + n * 2 ^ W := by rw [hM]; ring
    rw [this, Nat.add_mul_div_right _ _ (by positivity)]; ring
  rw [hsum, Nat.div_div_eq_div_mul]
  have hq : n / d * d ≤ n := Nat.div_mul_le_self n d
  have hq2 : n < n / d * d + d := Nat.lt_div_mul_add hdp
  have hP : 2 ^ W * 2 ^ L = 2 ^ L * 2 ^ W := by ring
  rw [hP]
  have hPpos : 0 < 2 ^ L * 2 ^ W := by positivity
  set P := 2 ^ L * 2 ^ W with hPd
  set q := n / d with hqd
  rw [Nat.div_eq_iff hPpos]
  have hlo : q * P ≤ M * n := by
    calc q * P ≤ q * (M * d) := Nat.mul_le_mul_left _ hMd1.le
      _ = M * (q * d) := by ring
      _ ≤ M * n := Nat.mul_le_mul_left _ hq
  have hhi : M * n < (q + 1) * P := by
    have hen : d * n < P := by
      calc d * n ≤ 2 ^ L * n := Nat.mul_le_mul_right _ h2
        _ < 2 ^ L * 2 ^ W := Nat.mul_lt_mul_of_pos_left hn (by positivity)
    have h : M * n * d < (q + 1) * P * d := by
      calc M * n * d = M * d * n := by ring
        _ ≤ (P + d) * n := Nat.mul_le_mul_right _ hMd2
        _ = P * n + d * n := by ring
        _ < P * n + P := by omega
        _ = P * (n + 1) := by ring
        _ ≤ P * (q * d + d) := Nat.mul_le_mul_left _ (by omega)
        _ = (q + 1) * P * d := by ring
    exact Nat.lt_of_mul_lt_mul_right h
  have e1 : (q + 1) * P = q * P + P := by ring
  constructor
  · omega
  · omega

/-- The product's high word never exceeds the dividend. -/
theorem divisor_t_le (W m n : ℕ) (hm : m ≤ 2 ^ W) : m * n / 2 ^ W ≤ n := by
  apply Nat.div_le_of_le_mul
  exact Nat.mul_le_mul_right _ hm

theorem div_ceil (a b : ℕ) (hb : 0 < b) :
    (a + b - 1) / b = a / b + (if a % b = 0 then 0 else 1) := by
  have h := Nat.div_add_mod a b
  have hr := Nat.mod_lt a hb
  set q := a / b
  set r := a % b
  split
  · next h0 =>
    rw [Nat.add_zero, Nat.div_eq_iff hb]
    have : b * q = q * b := by ring
    constructor <;> omega
  · next h0 =>
    rw [Nat.div_eq_iff hb]
    have : b * q = q * b := by ring
    have h2 : (q + 1) * b = q * b + b := by ring
    constructor <;> omega

theorem round_up (a b : ℕ) (hb : 0 < b) :
    a ≤ (a + b - 1) / b * b ∧ (a + b - 1) / b * b < a + b ∧ (a + b - 1) / b * b % b = 0 := by
  have h := Nat.div_add_mod (a + b - 1) b
  have hr := Nat.mod_lt (a + b - 1) hb
  have : b * ((a + b - 1) / b) = (a + b - 1) / b * b := by ring
  refine ⟨by omega, by omega, Nat.mul_mod_left _ _⟩

theorem round_down (a b : ℕ) (hb : 0 < b) : a % b ≤ a ∧ a % b < b ∧ (a - a % b) % b = 0 := by
  refine ⟨Nat.mod_le a b, Nat.mod_lt a hb, ?_⟩
  have h := Nat.div_add_mod a b
  have : a - a % b = b * (a / b) := by omega
  rw [this]; exact Nat.mul_mod_right _ _
