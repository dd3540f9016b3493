/-
  The state after hashing an unordered range does not depend on the order (property C20).

  The contracts of /verif/dv/append.py (u_unord) prove that hash_append_unordered_range appends
  SUM(n), then n, where SUM(0) = 0 and SUM(i+1) = SUM(i) + term(x_i) modulo 2^64, and term depends on
  the incoming state and the element only.
-/

def SUM {α : Type} (term : α → BitVec 64) : List α → BitVec 64
  | [] => 0
  | x :: xs => term x + SUM term xs

/-- the recurrence used by the loop contract, from the left, is the same sum -/
def SUMl {α : Type} (term : α → BitVec 64) (acc : BitVec 64) : List α → BitVec 64
  | [] => acc
  | x :: xs => SUMl term (acc + term x) xs

theorem sum_left {α : Type} (term : α → BitVec 64) (xs : List α) (a : BitVec 64) : SUMl term a xs = a + SUM term xs := by
  induction xs generalizing a with
  | nil => simp [SUMl, SUM]
  | cons x xs ih => simp [SUMl, SUM, ih, BitVec.add_assoc]

theorem order {α : Type} (term : α → BitVec 64) (xs ys : List α) (h : xs.Perm ys) :
    SUMl term 0 xs = SUMl term 0 ys ∧ xs.length = ys.length := by
  refine ⟨?_, h.length_eq⟩
  rw [sum_left, sum_left]
  congr 1
  induction h with
  | nil => rfl
  | cons x _ ih => simp [SUM, ih]
  | swap x y l => simp only [SUM]; rw [← BitVec.add_assoc, ← BitVec.add_assoc, BitVec.add_comm (term y)]
  | trans _ _ ih1 ih2 => rw [ih1, ih2]

#print axioms order
