/-
  The message of a value determines the value (property C19).

  `enc S big t v` is the message that the contracts of /verif/dv/append.py prove hash_append to pass to
  the algorithm for a value v of shape t, with a size type of S bytes and byte order `big`:
    scalar k   the k bytes of the value, in the byte order of the flavor
    float k    the k bytes of the representation, where minus zero has been replaced by plus zero
    array n t  the messages of the n elements; one zero byte if n = 0 (the C++ class types only)
    range t    the messages of the elements, then their number as the size type
    prod a b   the message of a, then that of b (pair, tuple, described class, hooked class)
    unit       one zero byte (a tuple or class without components)
  The size comes after the elements, so messages are read from the end: `Dec f` says that the last
  part of any byte string that ends with a message determines both the value and where it starts.
-/

def bytesLE : Nat → Nat → List UInt8
  | 0, _ => []
  | k + 1, v => UInt8.ofNat (v % 256) :: bytesLE k (v / 256)

def bytes (big : Bool) (k v : Nat) : List UInt8 :=
  if big then (bytesLE k v).reverse else bytesLE k v

inductive Ty where
  | scalar (k : Nat)
  | float (k : Nat)
  | array (n : Nat) (t : Ty)
  | range (t : Ty)
  | prod (a b : Ty)
  | unit

def Val (S : Nat) : Ty → Type
  | .scalar k => { n : Nat // n < 256 ^ k }
  | .float k => { n : Nat // n < 256 ^ k ∧ n ≠ 256 ^ k / 2 }
  | .array n t => { l : List (Val S t) // l.length = n }
  | .range t => { l : List (Val S t) // l.length < 256 ^ S }
  | .prod a b => Val S a × Val S b
  | .unit => Unit

def flat {α : Type} (f : α → List UInt8) : List α → List UInt8
  | [] => []
  | x :: xs => f x ++ flat f xs

def enc (S : Nat) (big : Bool) : (t : Ty) → Val S t → List UInt8
  | .scalar k, v => bytes big k v.val
  | .float k, v => bytes big k v.val
  | .array n t, v => if n = 0 then [0] else flat (enc S big t) v.val
  | .range t, v => flat (enc S big t) v.val ++ bytes big S v.val.length
  | .prod a b, v => enc S big a v.1 ++ enc S big b v.2
  | .unit, _ => [0]

/-- every scalar inside has at least one byte -/
def Pos : Ty → Prop
  | .scalar k => 0 < k
  | .float k => 0 < k
  | .array _ t => Pos t
  | .range t => Pos t
  | .prod a b => Pos a ∧ Pos b
  | .unit => True

def Dec {α : Type} (f : α → List UInt8) : Prop :=
  ∀ p q v w, p ++ f v = q ++ f w → p = q ∧ v = w

theorem bytesLE_length (k v : Nat) : (bytesLE k v).length = k := by
  induction k generalizing v with
  | zero => rfl
  | succ k ih => simp [bytesLE, ih]

theorem bytes_length (big : Bool) (k v : Nat) : (bytes big k v).length = k := by
  unfold bytes; split <;> simp [bytesLE_length]

theorem bytesLE_inj (k v w : Nat) (hv : v < 256 ^ k) (hw : w < 256 ^ k)
    (h : bytesLE k v = bytesLE k w) : v = w := by
  induction k generalizing v w with
  | zero => simp at hv hw; omega
  | succ k ih =>
    simp only [bytesLE, List.cons.injEq] at h
    have h1 : v % 256 = w % 256 := by
      have := congrArg UInt8.toNat h.1
      simp at this
      omega
    have h2 : v / 256 = w / 256 := by
      apply ih _ _ _ _ h.2
      · rw [Nat.div_lt_iff_lt_mul (by decide)]; rw [Nat.pow_succ] at hv; exact hv
      · rw [Nat.div_lt_iff_lt_mul (by decide)]; rw [Nat.pow_succ] at hw; exact hw
    omega

theorem bytes_inj (big : Bool) (k v w : Nat) (hv : v < 256 ^ k) (hw : w < 256 ^ k)
    (h : bytes big k v = bytes big k w) : v = w := by
  unfold bytes at h
  cases big with
  | false => exact bytesLE_inj k v w hv hw (by simpa using h)
  | true =>
    apply bytesLE_inj k v w hv hw
    have := congrArg List.reverse h
    simpa using this

theorem bytes_dec (big : Bool) (k v w : Nat) (p q : List UInt8) (hv : v < 256 ^ k) (hw : w < 256 ^ k)
    (h : p ++ bytes big k v = q ++ bytes big k w) : p = q ∧ v = w := by
  have hl : (bytes big k v).length = (bytes big k w).length := by simp [bytes_length]
  have := List.append_inj' h hl
  exact ⟨this.1, bytes_inj big k v w hv hw this.2⟩

theorem flat_dec {α : Type} (f : α → List UInt8) (hf : Dec f) (xs ys : List α) (hl : xs.length = ys.length)
    (p q : List UInt8) (h : p ++ flat f xs = q ++ flat f ys) : p = q ∧ xs = ys := by
  induction xs generalizing ys p q with
  | nil =>
    cases ys with
    | nil => simpa [flat] using h
    | cons y ys => simp at hl
  | cons x xs ih =>
    cases ys with
    | nil => simp at hl
    | cons y ys =>
      simp only [flat] at h
      rw [← List.append_assoc, ← List.append_assoc] at h
      have h1 := ih ys (by simpa using hl) _ _ h
      have h2 := hf _ _ _ _ h1.1
      exact ⟨h2.1, by rw [h2.2, h1.2]⟩

/-- the message of a value determines the value, and where the message starts -/
theorem decodable (S : Nat) (big : Bool) (t : Ty) : Dec (enc S big t) := by
  induction t with
  | scalar k =>
    intro p q v w h
    have := bytes_dec big k v.val w.val p q v.property w.property h
    exact ⟨this.1, Subtype.ext this.2⟩
  | float k =>
    intro p q v w h
    have := bytes_dec big k v.val w.val p q v.property.1 w.property.1 h
    exact ⟨this.1, Subtype.ext this.2⟩
  | array n t ih =>
    intro p q v w h
    have hl : v.val.length = w.val.length := by rw [v.property, w.property]
    simp only [enc] at h
    split at h
    · rename_i h0
      have e : p = q := by
        have := List.append_inj' h rfl
        exact this.1
      refine ⟨e, Subtype.ext ?_⟩
      have hv : v.val = [] := List.length_eq_zero_iff.mp (by rw [v.property, h0])
      have hw : w.val = [] := List.length_eq_zero_iff.mp (by rw [w.property, h0])
      rw [hv, hw]
    · have := flat_dec _ ih v.val w.val hl p q h
      exact ⟨this.1, Subtype.ext this.2⟩
  | range t ih =>
    intro p q v w h
    simp only [enc] at h
    rw [← List.append_assoc, ← List.append_assoc] at h
    have h1 := bytes_dec big S _ _ _ _ v.property w.property h
    have h2 := flat_dec _ ih v.val w.val h1.2 p q h1.1
    exact ⟨h2.1, Subtype.ext h2.2⟩
  | prod a b iha ihb =>
    intro p q v w h
    simp only [enc] at h
    rw [← List.append_assoc, ← List.append_assoc] at h
    have h1 := ihb _ _ _ _ h
    have h2 := iha _ _ _ _ h1.1
    exact ⟨h2.1, Prod.ext h2.2 h1.2⟩
  | unit =>
    intro p q v w h
    have := List.append_inj' h rfl
    exact ⟨this.1, rfl⟩

/-- distinct values never have the same message -/
theorem injective (S : Nat) (big : Bool) (t : Ty) (v w : Val S t) (h : enc S big t v = enc S big t w) : v = w :=
  (decodable S big t [] [] v w (by simpa using h)).2

/-- no message ends with another message of the same type that starts later -/
theorem no_shift (S : Nat) (big : Bool) (t : Ty) (p : List UInt8) (v w : Val S t)
    (h : p ++ enc S big t v = enc S big t w) : p = [] :=
  (decodable S big t p [] v w (by simpa using h)).1

/-- every message has at least one byte -/
theorem nonempty (S : Nat) (hS : 0 < S) (big : Bool) (t : Ty) (hp : Pos t) (v : Val S t) : 0 < (enc S big t v).length := by
  induction t with
  | scalar k => simpa [enc, bytes_length, Pos] using hp
  | float k => simpa [enc, bytes_length, Pos] using hp
  | array n t ih =>
    simp only [enc]
    split
    · simp
    · rename_i h0
      match hv : v.val with
      | [] => exact absurd (by rw [← v.property, hv]; rfl) h0
      | x :: xs =>
        have := ih hp x
        simp only [flat, List.length_append]
        omega
  | range t ih =>
    simp only [enc, List.length_append, bytes_length]
    omega
  | prod a b iha ihb =>
    have := iha hp.1 v.1
    simp only [enc, List.length_append]
    omega
  | unit => simp [enc]

#print axioms injective
#print axioms no_shift
#print axioms nonempty
