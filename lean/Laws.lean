import Mathlib.Probability.Distributions.Beta
import Mathlib.Probability.Distributions.Gaussian.Real
import Mathlib.MeasureTheory.Integral.Gamma
import Mathlib.MeasureTheory.Integral.IntegralEqImproper
import Mathlib.Tactic.Ring
import Mathlib.Tactic.FieldSimp

/-! The log densities of engine/spec.py that serve as posteriors in contracts/c05.py have total one, and a pointwise
identity with such a posterior is the mixture integral.  Checked by Lean's kernel against Mathlib. -/
open MeasureTheory Set
open Real

namespace Laws

/-- the shape of the argument in contracts/c05.py and c06.py -/
theorem mixture {T : Type*} [MeasurableSpace T] (μ : Measure T) (p : ℝ) (post lik prior : T → ℝ)
    (h : ∀ᵐ t ∂μ, p * post t = lik t * prior t) (one : ∫ t, post t ∂μ = 1) : p = ∫ t, lik t * prior t ∂μ := by
  rw [← integral_congr_ae h, integral_const_mul, one, mul_one]

/-- the same where the unknown has two stages, each of total one -/
theorem two_stages {S T : Type*} [MeasurableSpace S] [MeasurableSpace T] (μ : Measure S) (ν : Measure T)
    (outer : S → ℝ) (inner : S → T → ℝ) (h : ∀ᵐ s ∂μ, ∫ t, inner s t ∂ν = 1) (one : ∫ s, outer s ∂μ = 1) :
    ∫ s, ∫ t, outer s * inner s t ∂ν ∂μ = 1 := by
  rw [← one]
  apply integral_congr_ae
  filter_upwards [h] with s hs
  rw [integral_const_mul, hs, mul_one]

noncomputable def gamma (a b x : ℝ) : ℝ := exp (a * log b - log |Gamma a| + (a - 1) * log x - b * x)

theorem gamma_one (a b : ℝ) (ha : 0 < a) (hb : 0 < b) : ∫ x in Ioi (0 : ℝ), gamma a b x = 1 := by
  have hg := Gamma_pos_of_pos ha
  have e : ∀ x ∈ Ioi (0 : ℝ), gamma a b x = (b ^ a / Gamma a) * (x ^ (a - 1) * exp (-(b * x))) := by
    intro x hx
    rw [gamma, rpow_def_of_pos hb, rpow_def_of_pos hx, abs_of_pos hg, sub_eq_add_neg _ (b * x), exp_add, exp_add, exp_sub,
      exp_log hg, mul_comm (log b), mul_comm (log x)]
    ring
  rw [setIntegral_congr_fun measurableSet_Ioi e, integral_const_mul, integral_rpow_mul_exp_neg_mul_Ioi ha hb,
    one_div, inv_rpow hb.le]
  have := (rpow_pos_of_pos hb a).ne'
  field_simp

noncomputable def inverseGamma (a b x : ℝ) : ℝ := exp (a * log b - log |Gamma a| - (a + 1) * log x - b / x)

theorem inverseGamma_one (a b : ℝ) (ha : 0 < a) (hb : 0 < b) : ∫ x in Ioi (0 : ℝ), inverseGamma a b x = 1 := by
  rw [← gamma_one a b ha hb, ← integral_comp_rpow_Ioi (gamma a b) (p := -1) (by norm_num)]
  apply setIntegral_congr_fun measurableSet_Ioi
  intro x hx
  have hx' : (0 : ℝ) < x := hx
  simp only [abs_neg, abs_one, one_mul, smul_eq_mul, rpow_neg_one]
  rw [gamma, inverseGamma, log_inv, rpow_def_of_pos hx', ← exp_add]
  congr 1
  rw [div_eq_mul_inv]; ring

noncomputable def beta (a b x : ℝ) : ℝ :=
  exp ((a - 1) * log x + (b - 1) * log (1 - x) - (log |Gamma a| + log |Gamma b| - log |Gamma (a + b)|))

theorem beta_one (a b : ℝ) (ha : 0 < a) (hb : 0 < b) : ∫ x in Ioo (0 : ℝ) 1, beta a b x = 1 := by
  have ga := Gamma_pos_of_pos ha
  have gb := Gamma_pos_of_pos hb
  have gab := Gamma_pos_of_pos (add_pos ha hb)
  have key := ProbabilityTheory.lintegral_betaPDF_eq_one ha hb
  rw [ProbabilityTheory.lintegral_betaPDF] at key
  have e : ∀ x ∈ Ioo (0 : ℝ) 1, beta a b x = 1 / ProbabilityTheory.beta a b * x ^ (a - 1) * (1 - x) ^ (b - 1) := by
    intro x hx
    have h1 : (0 : ℝ) < x := hx.1
    have h2 : (0 : ℝ) < 1 - x := by linarith [hx.2]
    rw [beta, ProbabilityTheory.beta, rpow_def_of_pos h1, rpow_def_of_pos h2, abs_of_pos ga, abs_of_pos gb, abs_of_pos gab,
      exp_sub, exp_add, exp_sub, exp_add, exp_log ga, exp_log gb, exp_log gab, mul_comm (log x), mul_comm (log (1 - x))]
    field_simp
  rw [integral_eq_lintegral_of_nonneg_ae]
  · rw [setLIntegral_congr_fun measurableSet_Ioo (fun x hx => by rw [e x hx]), key]; rfl
  · exact Filter.Eventually.of_forall fun x => (exp_pos _).le
  · exact Measurable.aestronglyMeasurable (by unfold beta; fun_prop)

noncomputable def normal (m v x : ℝ) : ℝ := exp (-(log v) / 2 - log (2 * π) / 2 - (x - m) ^ 2 / (2 * v))

theorem normal_one (m v : ℝ) (hv : 0 < v) : ∫ x, normal m v x = 1 := by
  obtain ⟨w, rfl⟩ : ∃ w : NNReal, (w : ℝ) = v := ⟨v.toNNReal, Real.coe_toNNReal v hv.le⟩
  have hw : w ≠ 0 := by rintro rfl; simp at hv
  rw [← ProbabilityTheory.integral_gaussianPDFReal_eq_one m hw]
  apply integral_congr_ae
  refine Filter.Eventually.of_forall fun x => ?_
  have h2 : (0 : ℝ) < 2 * π := by positivity
  simp only [ProbabilityTheory.gaussianPDFReal_def, normal]
  have e : (√(2 * π * w))⁻¹ = exp (-(log w) / 2 - log (2 * π) / 2) := by
    rw [← exp_log (inv_pos.mpr (sqrt_pos.mpr (mul_pos h2 hv))), log_inv, log_sqrt (by positivity), log_mul h2.ne' hv.ne']
    congr 1; ring
  rw [e, ← exp_add]
  congr 1; ring

end Laws
