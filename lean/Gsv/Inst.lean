import Gsv.Ser
import Mathlib.Data.ZMod.Basic
import Mathlib.Algebra.Field.ZMod

/-! Vacuity guard: the assumptions collected in `Env` are satisfiable, in every prime order. -/

namespace Gsv
open Res

def zenc {p : ℕ} (x : ZMod p) : Bytes := [x.val]
def zdec (p : ℕ) : Bytes → Except SerErr (ZMod p) × Bytes
  | [] => (.error .IoError, [])
  | b :: r => (.ok (b : ZMod p), r)
theorem zdec_enc {p : ℕ} [NeZero p] (x : ZMod p) (r : Bytes) : zdec p (zenc x ++ r) = (.ok x, r) := by
  simp [zdec, zenc]

/-- the integers modulo a prime, with multiplication as the pairing and streams as random sources -/
noncomputable def zmodEnv (p : ℕ) [Fact p.Prime] : Env :=
  haveI : NeZero p := ⟨(Fact.out : p.Prime).ne_zero⟩
  { Fr := ZMod p, G1 := ZMod p, G2 := ZMod p, GT := ZMod p
    e := fun x y => x * y
    e_add_left := fun x x' y => add_mul x x' y
    e_add_right := fun x y y' => mul_add x y y'
    e_smul_left := fun c x y => by simp only [smul_eq_mul]; ring
    e_smul_right := fun c x y => by simp only [smul_eq_mul]; ring
    e_nondeg := fun x y h => mul_eq_zero.mp h
    gen1 := fun g x h => ⟨x / g, by simp only [smul_eq_mul]; rw [div_mul_cancel₀ x h]⟩
    gen2 := fun g x h => ⟨x / g, by simp only [smul_eq_mul]; rw [div_mul_cancel₀ x h]⟩
    mpOdd := fun _ _ => none
    Rng := ℕ → ZMod p
    drFr := fun s => s 0, nxFr := fun s k => s (k + 1)
    drG1 := fun s => s 0, nxG1 := fun s k => s (k + 1)
    drG2 := fun s => s 0, nxG2 := fun s k => s (k + 1)
    testRng := fun _ => 0
    amb := fun _ => 0
    encFr := fun _ => zenc, enc1 := fun _ => zenc, enc2 := fun _ => zenc, encT := fun _ => zenc
    decFr := fun _ _ => zdec p, dec1 := fun _ _ => zdec p, dec2 := fun _ _ => zdec p, decT := fun _ _ => zdec p
    szFr := fun _ => 1, sz1 := fun _ => 1, sz2 := fun _ => 1, szT := fun _ => 1
    decFr_enc := fun _ _ => zdec_enc, dec1_enc := fun _ _ => zdec_enc
    dec2_enc := fun _ _ => zdec_enc, decT_enc := fun _ _ => zdec_enc
    encFr_len := fun _ _ => rfl, enc1_len := fun _ _ => rfl, enc2_len := fun _ _ => rfl, encT_len := fun _ _ => rfl }

theorem env_exists : Nonempty Env := ⟨@zmodEnv 2 ⟨Nat.prime_two⟩⟩
end Gsv
#print axioms Gsv.env_exists
