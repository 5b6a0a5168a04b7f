import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.Analysis.Matrix.PosDef
import Mathlib.Data.Matrix.ColumnRowPartitioned
import Mathlib.Algebra.Order.Star.Real
import Mathlib.Analysis.SpecialFunctions.Gamma.Basic
import Mathlib.Analysis.SpecialFunctions.Pow.Real
import Mathlib.Analysis.SpecialFunctions.Complex.Arg
import Mathlib.Analysis.Real.Pi.Bounds
import Mathlib.MeasureTheory.Integral.IntervalIntegral.Basic
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp

/-! Facts the verifier in /verif/engine relies on, checked by Lean's kernel against Mathlib on every run. -/

open Matrix
set_option linter.unusedSectionVars false

namespace Det
variable {n m : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m]

/-- contracts/c06.py, normal mixture of normals -/
theorem det_sum (S0 S : Matrix n n ℝ) (h0 : IsUnit S0.det) (h : IsUnit S.det) :
    (S0 + S).det = S0.det * S.det * (S0⁻¹ + S⁻¹).det := by
  have e : S0 + S = S0 * (S0⁻¹ + S⁻¹) * S := by
    rw [Matrix.mul_add, Matrix.mul_nonsing_inv _ h0, Matrix.add_mul, Matrix.one_mul, Matrix.mul_assoc,
      Matrix.nonsing_inv_mul _ h, Matrix.mul_one, add_comm]
  rw [e, Matrix.det_mul, Matrix.det_mul]; ring

/-- contracts/c06.py, regression -/
theorem det_regression (X : Matrix n m ℝ) (V : Matrix m m ℝ) (h : IsUnit V.det) :
    (1 + X * V * Xᵀ).det = V.det * (V⁻¹ + Xᵀ * X).det := by
  rw [Matrix.mul_assoc, Matrix.det_one_add_mul_comm, ← Matrix.det_mul, Matrix.mul_add, Matrix.mul_nonsing_inv _ h,
    Matrix.mul_assoc]

/-- contracts/c06.py, normal inverse Wishart -/
theorem det_rank_one (P : Matrix n n ℝ) (r : Matrix n Unit ℝ) (c : ℝ) (h : IsUnit P.det) :
    (P + c • (r * rᵀ)).det = P.det * (1 + c * (rᵀ * P⁻¹ * r) () ()) := by
  have e : P + c • (r * rᵀ) = P * (1 + (c • (P⁻¹ * r)) * rᵀ) := by
    rw [Matrix.mul_add, Matrix.mul_one, Matrix.smul_mul, Matrix.mul_smul, Matrix.mul_assoc P⁻¹ r, ← Matrix.mul_assoc P,
      Matrix.mul_nonsing_inv _ h, Matrix.one_mul]
  rw [e, Matrix.det_mul, Matrix.det_one_add_mul_comm, Matrix.det_unique (n := Unit)]
  simp [Matrix.mul_smul, Matrix.mul_assoc]

/-- mats.py logdet_e: det(cM) and det(inv M) -/
theorem det_scale (M : Matrix n n ℝ) (c : ℝ) : (c • M).det = c ^ Fintype.card n * M.det := Matrix.det_smul M c
theorem det_inverse (M : Matrix n n ℝ) : (M⁻¹).det = (M.det)⁻¹ := by
  rw [Matrix.det_nonsing_inv, Ring.inverse_eq_inv']
end Det

namespace Mats
variable {n m k : Type*} [Fintype n] [DecidableEq n] [Fintype m] [DecidableEq m] [Fintype k] [DecidableEq k]

/-- mats.py norm_word: P = M⁻¹ for M = W + R -/
theorem inverse_right (M W R : Matrix n n ℝ) (hM : M = W + R) (h : IsUnit M.det) : M⁻¹ * W = 1 - M⁻¹ * R := by
  have := Matrix.nonsing_inv_mul M h
  rw [eq_sub_iff_add_eq, ← Matrix.mul_add, ← hM, this]
theorem inverse_left (M W R : Matrix n n ℝ) (hM : M = W + R) (h : IsUnit M.det) : W * M⁻¹ = 1 - R * M⁻¹ := by
  have := Matrix.mul_nonsing_inv M h
  rw [eq_sub_iff_add_eq, ← Matrix.add_mul, ← hM, this]
/-- mats.py norm_word: W⁻¹ R M⁻¹ = (W⁻¹ - c M⁻¹) / r for M = c W + r R -/
theorem inverse_two_left (M W R : Matrix n n ℝ) (c r : ℝ) (hr : r ≠ 0) (hM : M = c • W + r • R) (h : IsUnit M.det)
    (hW : IsUnit W.det) : W⁻¹ * R * M⁻¹ = r⁻¹ • (W⁻¹ - c • M⁻¹) := by
  have e : R = r⁻¹ • (M - c • W) := by
    rw [hM]; simp [smul_smul, inv_mul_cancel₀ hr]
  rw [e, Matrix.mul_smul, Matrix.smul_mul, Matrix.mul_sub, Matrix.sub_mul, Matrix.mul_assoc, Matrix.mul_nonsing_inv _ h,
    Matrix.mul_one, Matrix.mul_smul, Matrix.nonsing_inv_mul _ hW, Matrix.smul_mul, Matrix.one_mul]
theorem inverse_two_right (M W R : Matrix n n ℝ) (c r : ℝ) (hr : r ≠ 0) (hM : M = c • W + r • R) (h : IsUnit M.det)
    (hW : IsUnit W.det) : M⁻¹ * R * W⁻¹ = r⁻¹ • (W⁻¹ - c • M⁻¹) := by
  have e : R = r⁻¹ • (M - c • W) := by
    rw [hM]; simp [smul_smul, inv_mul_cancel₀ hr]
  rw [e, Matrix.mul_smul, Matrix.smul_mul, Matrix.mul_sub, Matrix.sub_mul, Matrix.nonsing_inv_mul _ h, Matrix.one_mul,
    Matrix.mul_smul, Matrix.smul_mul, Matrix.mul_assoc, Matrix.mul_nonsing_inv _ hW, Matrix.mul_one]
/-- mats.py inverse: (c M)⁻¹ = c⁻¹ M⁻¹, (A B)⁻¹ = B⁻¹ A⁻¹, (M')⁻¹ = (M⁻¹)' -/
theorem inverse_scale (M : Matrix n n ℝ) (c : ℝ) (hc : c ≠ 0) (h : IsUnit M.det) : (c • M)⁻¹ = c⁻¹ • M⁻¹ := by
  apply Matrix.inv_eq_right_inv
  rw [Matrix.mul_smul, Matrix.smul_mul, smul_smul, inv_mul_cancel₀ hc, one_smul, Matrix.mul_nonsing_inv _ h]
theorem inverse_mul (A B : Matrix n n ℝ) : (A * B)⁻¹ = B⁻¹ * A⁻¹ := Matrix.mul_inv_rev A B
theorem inverse_transpose (M : Matrix n n ℝ) : (Mᵀ)⁻¹ = (M⁻¹)ᵀ := (Matrix.transpose_nonsing_inv M).symm
theorem transpose_mul (A : Matrix n m ℝ) (B : Matrix m k ℝ) : (A * B)ᵀ = Bᵀ * Aᵀ := Matrix.transpose_mul A B
/-- 1'1 = N -/
theorem ones_ones : ((Matrix.of fun _ _ => 1 : Matrix n Unit ℝ)ᵀ * (Matrix.of fun _ _ => 1 : Matrix n Unit ℝ)) = Matrix.of fun _ _ => (Fintype.card n : ℝ) := by
  ext i j; simp [Matrix.mul_apply]
/-- rows stacked -/
theorem stacked (A C : Matrix n k ℝ) (B D : Matrix m k ℝ) :
    (Matrix.fromRows A B)ᵀ * Matrix.fromRows C D = Aᵀ * C + Bᵀ * D := by
  rw [Matrix.transpose_fromRows, Matrix.fromCols_mul_fromRows]
/-- traces are cyclic and invariant under transposition -/
theorem trace_cyclic (A : Matrix n m ℝ) (B : Matrix m n ℝ) : (A * B).trace = (B * A).trace := Matrix.trace_mul_comm A B
theorem trace_transpose (A : Matrix n n ℝ) : (Aᵀ).trace = A.trace := Matrix.trace_transpose A
/-- squares are nonnegative, and sums with a positive definite part are invertible -/
theorem square_nonneg (S : Matrix n n ℝ) (h : S.PosSemidef) (u : n → ℝ) : 0 ≤ u ⬝ᵥ (S *ᵥ u) := by
  simpa using h.dotProduct_mulVec_nonneg u
theorem congruence (S : Matrix n n ℝ) (h : S.PosSemidef) (X : Matrix m n ℝ) : (X * S * Xᵀ).PosSemidef := by
  simpa using h.mul_mul_conjTranspose_same X
theorem definite_sum (A B : Matrix n n ℝ) (ha : A.PosDef) (hb : B.PosSemidef) : (A + B).PosDef := ha.add_posSemidef hb
theorem definite_scale (A : Matrix n n ℝ) (ha : A.PosDef) (c : ℝ) (hc : 0 < c) : (c • A).PosDef := ha.smul hc
theorem semidefinite_scale (A : Matrix n n ℝ) (ha : A.PosSemidef) (c : ℝ) (hc : 0 ≤ c) : (c • A).PosSemidef := ha.smul hc
theorem definite_inverse (A : Matrix n n ℝ) (ha : A.PosDef) : A⁻¹.PosDef := ha.inv
theorem definite_invertible (A : Matrix n n ℝ) (ha : A.PosDef) : IsUnit A.det := ha.det_pos.ne'.isUnit
end Mats

namespace Terms
open Real
/-- canon.py: logarithms (Real.log is log |.|) -/
theorem log_mul (f g : ℝ) (hf : f ≠ 0) (hg : g ≠ 0) : log (f * g) = log f + log g := Real.log_mul hf hg
theorem log_div (f g : ℝ) (hf : f ≠ 0) (hg : g ≠ 0) : log (f / g) = log f - log g := Real.log_div hf hg
theorem log_abs (f : ℝ) : log |f| = log f := Real.log_abs f
theorem log_ipow (f : ℝ) (k : ℤ) : log (f ^ k) = k * log f := Real.log_zpow f k
theorem log_rpow (f c : ℝ) (hf : 0 < f) : log (f ^ c) = c * log f := Real.log_rpow hf c
theorem log_exp (a : ℝ) : log (exp a) = a := Real.log_exp a
theorem exp_add (a b : ℝ) : exp (a + b) = exp a * exp b := Real.exp_add a b
theorem exp_scale (a : ℝ) (k : ℤ) : exp (k * a) = exp a ^ k := by
  rw [← Real.rpow_intCast, ← Real.exp_mul, mul_comm]
theorem exp_log_scale (f c : ℝ) (hf : 0 < f) : exp (c * log f) = f ^ c := by
  rw [Real.rpow_def_of_pos hf, mul_comm]
theorem rpow_def (a b : ℝ) (ha : 0 < a) : a ^ b = exp (b * log a) := (exp_log_scale a b ha).symm
/-- canon.py: roots -/
theorem root_power (f : ℝ) (d : ℕ) (hd : d ≠ 0) (hf : 0 ≤ f) : (f ^ ((d : ℝ)⁻¹)) ^ d = f := Real.rpow_inv_natCast_pow hf hd
theorem root_mul (f g c : ℝ) (hf : 0 ≤ f) (hg : 0 ≤ g) : (f * g) ^ c = f ^ c * g ^ c := Real.mul_rpow hf hg
theorem root_root (f a b : ℝ) (hf : 0 ≤ f) : (f ^ a) ^ b = f ^ (a * b) := (Real.rpow_mul hf a b).symm
/-- canon.py: log-gamma brought into (0, 1] -/
theorem lgamma_step (z : ℝ) (hz : z ≠ 0) (hg : Gamma z ≠ 0) : log |Gamma (z + 1)| = log |Gamma z| + log |z| := by
  rw [Real.Gamma_add_one hz, abs_mul, Real.log_mul (abs_ne_zero.mpr hz) (abs_ne_zero.mpr hg), add_comm]
theorem gamma_factorial (k : ℕ) : Gamma (k + 1) = k.factorial := Real.Gamma_nat_eq_factorial k
/-- canon.py: sine and cosine -/
theorem cos_add (a b : ℝ) : cos (a + b) = cos a * cos b - sin a * sin b := Real.cos_add a b
theorem sin_add (a b : ℝ) : sin (a + b) = sin a * cos b + cos a * sin b := Real.sin_add a b
theorem cos_neg (a : ℝ) : cos (-a) = cos a := Real.cos_neg a
theorem sin_neg (a : ℝ) : sin (-a) = -sin a := Real.sin_neg a
theorem sin_sq (a : ℝ) : sin a ^ 2 = 1 - cos a ^ 2 := Real.sin_sq a
theorem quarter_turns : cos 0 = 1 ∧ sin 0 = 0 ∧ cos (π / 2) = 0 ∧ sin (π / 2) = 1 ∧ cos π = -1 ∧ sin π = 0
    ∧ cos (3 * π / 2) = 0 ∧ sin (3 * π / 2) = -1 := by
  have e : 3 * π / 2 = π / 2 + π := by ring
  rw [e]; simp [Real.cos_add_pi, Real.sin_add_pi]
theorem cos_turns (x : ℝ) (k : ℤ) : cos (x + k * (2 * π)) = cos x ∧ sin (x + k * (2 * π)) = sin x :=
  ⟨Real.cos_add_int_mul_two_pi x k, Real.sin_add_int_mul_two_pi x k⟩
/-- arctan2(s, c) is the argument of c + i s -/
theorem cos_atan2 (s c : ℝ) (h : s ^ 2 + c ^ 2 ≠ 0) : cos (Complex.arg ⟨c, s⟩) = c / sqrt (s ^ 2 + c ^ 2) := by
  have hz : (⟨c, s⟩ : ℂ) ≠ 0 := by
    intro e
    have h1 : c = 0 := congrArg Complex.re e
    have h2 : s = 0 := congrArg Complex.im e
    exact h (by rw [h1, h2]; ring)
  rw [Complex.cos_arg hz, Complex.norm_eq_sqrt_sq_add_sq, add_comm]
theorem sin_atan2 (s c : ℝ) : sin (Complex.arg ⟨c, s⟩) = s / sqrt (s ^ 2 + c ^ 2) := by
  rw [Complex.sin_arg, Complex.norm_eq_sqrt_sq_add_sq, add_comm]
/-- smt.py: facts instantiated on the terms that occur -/
theorem exp_pos (a : ℝ) : 0 < exp a := Real.exp_pos a
theorem rpow_pos (b x : ℝ) (hb : 0 < b) : 0 < b ^ x := Real.rpow_pos_of_pos hb x
theorem pi_bounds : (3.14159265 : ℝ) < π ∧ π < 3.14159266 :=
  ⟨lt_trans (by norm_num) Real.pi_gt_d20, lt_trans Real.pi_lt_d20 (by norm_num)⟩
theorem ceil_floor (x : ℝ) : (⌈x⌉ : ℝ) = -(⌊-x⌋ : ℝ) := by rw [Int.floor_neg]; simp
theorem i0_pos (x : ℝ) : 0 < π⁻¹ * ∫ t in (0 : ℝ)..π, exp (x * cos t) := by
  apply mul_pos (inv_pos.mpr Real.pi_pos)
  apply intervalIntegral.intervalIntegral_pos_of_pos _ (fun t => Real.exp_pos _) Real.pi_pos
  exact (by fun_prop : Continuous fun t => exp (x * cos t)).intervalIntegrable _ _
end Terms
