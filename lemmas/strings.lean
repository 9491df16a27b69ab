/- Facts about the place of a word in a text that the string solvers do not find. `At b s i`: b occurs in s at place i;
`Index s b i`: i is the first such place, as SMT-LIB's (str.indexof s b 0) = i; str.contains is `∃ i, At b s i`. -/

variable {α : Type}

def At (b s : List α) (i : Nat) : Prop := ∃ p q, s = p ++ (b ++ q) ∧ p.length = i

def Index (s b : List α) (i : Nat) : Prop := At b s i ∧ ∀ j, j < i → ¬ At b s j

def Contains (s b : List α) : Prop := ∃ i, At b s i

theorem At.bound {b s : List α} {i : Nat} (h : At b s i) : i + b.length ≤ s.length := by
  obtain ⟨p, q, rfl, rfl⟩ := h
  simp only [List.length_append]; omega

theorem At.left {b x : List α} {i : Nat} (y : List α) (h : At b x i) : At b (x ++ y) i := by
  obtain ⟨p, q, rfl, rfl⟩ := h
  exact ⟨p, q ++ y, by simp, rfl⟩

theorem At.of_left {b x y : List α} {i : Nat} (h : At b (x ++ y) i) (n : i + b.length ≤ x.length) : At b x i := by
  obtain ⟨p, q, e, rfl⟩ := h
  have e' : x ++ y = (p ++ b) ++ q := by rw [e]; simp
  have hl : (p ++ b).length ≤ x.length := by simpa [List.length_append] using n
  refine ⟨p, x.drop (p ++ b).length, ?_, rfl⟩
  have h1 : (x ++ y).take (p ++ b).length = p ++ b := by rw [e']; exact List.take_left' rfl
  rw [List.take_append_of_le_length hl] at h1
  have h2 := List.take_append_drop (p ++ b).length x
  rw [h1] at h2
  rw [← List.append_assoc]; exact h2.symm

theorem At.right {b y : List α} {i : Nat} (x : List α) (h : At b y i) : At b (x ++ y) (x.length + i) := by
  obtain ⟨p, q, rfl, rfl⟩ := h
  exact ⟨x ++ p, q, by simp, by simp⟩

theorem At.of_right {b x y : List α} {i : Nat} (h : At b (x ++ y) (x.length + i)) : At b y i := by
  obtain ⟨p, q, e, hp⟩ := h
  have hl : x.length ≤ p.length := by omega
  have h1 : (x ++ y).take x.length = x := by simp
  rw [e, List.take_append_of_le_length hl] at h1
  have h2 := List.take_append_drop x.length p
  rw [h1] at h2
  refine ⟨p.drop x.length, q, ?_, by simp; omega⟩
  have : x ++ y = x ++ (p.drop x.length ++ (b ++ q)) := by rw [e, ← List.append_assoc x, h2]
  exact List.append_cancel_left this

/-- front: the first place of a word in u ++ z is its first place in u if it is in u -/
theorem front {u z b : List α} {i : Nat} (h : Index u b i) : Index (u ++ z) b i := by
  refine ⟨h.1.left z, fun j hj hz => h.2 j hj (hz.of_left ?_)⟩
  have := h.1.bound
  omega

/-- cut: if the word is not in u = x ++ y and y is at least as long as the word, then its first place in u ++ z is in y ++ z -/
theorem cut {x y z b : List α} (h : ¬ Contains (x ++ y) b) (n : b.length ≤ y.length) (i : Nat) :
    Index (x ++ y ++ z) b (x.length + i) ↔ Index (y ++ z) b i := by
  have low : ∀ j, j < x.length → ¬ At b (x ++ y ++ z) j := fun j hj hz =>
    h ⟨j, hz.of_left (by simp [List.length_append]; omega)⟩
  constructor
  · intro hi
    have hi1 := hi.1; have hi2 := hi.2
    rw [List.append_assoc] at hi1 hi2
    exact ⟨hi1.of_right, fun j hj hz => hi2 (x.length + j) (by omega) (hz.right x)⟩
  · intro hi
    refine ⟨by rw [List.append_assoc]; exact hi.1.right x, fun j hj hz => ?_⟩
    by_cases hx : j < x.length
    · exact low j hx hz
    · have : j = x.length + (j - x.length) := by omega
      rw [this, List.append_assoc] at hz
      exact hi.2 (j - x.length) (by omega) hz.of_right

theorem cut_contains {x y z b : List α} (h : ¬ Contains (x ++ y) b) (n : b.length ≤ y.length) :
    Contains (x ++ y ++ z) b ↔ Contains (y ++ z) b := by
  constructor
  · rintro ⟨j, hz⟩
    by_cases hx : j < x.length
    · exact absurd ⟨j, hz.of_left (by simp [List.length_append]; omega)⟩ h
    · have e : j = x.length + (j - x.length) := by omega
      rw [e, List.append_assoc] at hz
      exact ⟨_, hz.of_right⟩
  · rintro ⟨j, hz⟩
    exact ⟨x.length + j, by rw [List.append_assoc]; exact hz.right x⟩

/-- cut: and it is behind y's part that a word could still be in -/
theorem cut_bound {y z b : List α} {i : Nat} (h : ¬ Contains y b) (hi : At b (y ++ z) i) : y.length < i + b.length := by
  by_cases n : i + b.length ≤ y.length
  · exact absurd ⟨i, hi.of_left n⟩ h
  · omega
