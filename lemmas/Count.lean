/-
The facts about counting that the condition generator adds for filtered lists (`countAxioms`, `prefixKept`,
`relateCounts` in engine/exec.mjs): `cnt k` is the number of positions below `k` that satisfy the condition, `idx j` the
position of the j-th of them.
-/
def cnt (p : Nat → Bool) : Nat → Nat
  | 0 => 0
  | n + 1 => cnt p n + (if p n then 1 else 0)

theorem cnt_le (p : Nat → Bool) (n : Nat) : cnt p n ≤ n := by
  induction n with
  | zero => simp [cnt]
  | succ n ih => simp only [cnt]; split <;> omega

theorem cnt_step (p : Nat → Bool) (a d : Nat) : cnt p a ≤ cnt p (a + d) ∧ cnt p (a + d) ≤ cnt p a + d := by
  induction d with
  | zero => simp
  | succ d ih =>
    have h : cnt p (a + (d + 1)) = cnt p (a + d) + (if p (a + d) then 1 else 0) := rfl
    rw [h]; split <;> omega

theorem cnt_mono (p : Nat → Bool) {a c : Nat} (h : a ≤ c) : cnt p a ≤ cnt p c ∧ cnt p c + a ≤ cnt p a + c := by
  have := cnt_step p a (c - a)
  have e : a + (c - a) = c := by omega
  rw [e] at this; omega

theorem cnt_kept (p : Nat → Bool) {a c : Nat} (h : a < c) (k : p a = true) : cnt p a < cnt p c := by
  have s : cnt p (a + 1) = cnt p a + 1 := by simp [cnt, k]
  have := (cnt_mono p (show a + 1 ≤ c from h)).1
  omega

theorem cnt_dropped (p : Nat → Bool) {a c : Nat} (h : a < c) (k : p a = false) : cnt p c + a + 1 ≤ cnt p a + c := by
  have s : cnt p (a + 1) = cnt p a := by simp [cnt, k]
  have := (cnt_mono p (show a + 1 ≤ c from h)).2
  omega

theorem kept_at (p : Nat → Bool) (n j : Nat) (h : j < cnt p n) : ∃ i, i < n ∧ p i = true ∧ cnt p i = j := by
  induction n with
  | zero => simp [cnt] at h
  | succ n ih =>
    simp only [cnt] at h
    by_cases q : j < cnt p n
    · obtain ⟨i, a, b, c⟩ := ih q
      exact ⟨i, by omega, b, c⟩
    · cases k : p n with
      | false => simp [k] at h; omega
      | true => simp [k] at h; exact ⟨n, by omega, k, by omega⟩

theorem kept_once (p : Nat → Bool) {a b : Nat} (ka : p a = true) (kb : p b = true) (e : cnt p a = cnt p b) : a = b := by
  rcases Nat.lt_trichotomy a b with h | h | h
  · have := cnt_kept p h ka; omega
  · exact h
  · have := cnt_kept p h kb; omega

theorem all_or_dropped (p : Nat → Bool) (n : Nat) : cnt p n = n ∨ ∃ w, w < n ∧ p w = false := by
  induction n with
  | zero => simp [cnt]
  | succ n ih =>
    cases k : p n with
    | false => exact Or.inr ⟨n, by omega, k⟩
    | true =>
      rcases ih with h | ⟨w, a, b⟩
      · left; simp [cnt, k, h]
      · exact Or.inr ⟨w, by omega, b⟩

theorem equal_conditions (p q : Nat → Bool) (n : Nat) (h : ∀ d, d < n → p d = q d) : ∀ k, k ≤ n → cnt p k = cnt q k := by
  intro k hk
  induction k with
  | zero => rfl
  | succ k ih => simp only [cnt]; rw [ih (by omega), h k (by omega)]

/-- every fact assumed about one filtered list holds together for the counting function and some `idx` -/
theorem counting (p : Nat → Bool) (n : Nat) : ∃ idx : Nat → Nat,
    (∀ j, j < cnt p n → idx j < n ∧ p (idx j) = true ∧ cnt p (idx j) = j) ∧
    (∀ a, a < n → p a = true → cnt p a < cnt p n ∧ idx (cnt p a) = a) ∧
    (∀ j k, j < k → k < cnt p n → idx j < idx k) := by
  classical
  let idx : Nat → Nat := fun j => if h : j < cnt p n then Classical.choose (kept_at p n j h) else 0
  have spec : ∀ j, j < cnt p n → idx j < n ∧ p (idx j) = true ∧ cnt p (idx j) = j := by
    intro j h
    simp only [idx, h, dite_true]
    exact Classical.choose_spec (kept_at p n j h)
  refine ⟨idx, spec, ?_, ?_⟩
  · intro a ha k
    have lt := cnt_kept p ha k
    have s := spec (cnt p a) lt
    exact ⟨lt, kept_once p s.2.1 k s.2.2⟩
  · intro j k h hk
    have sj := spec j (by omega)
    have sk := spec k hk
    rcases Nat.lt_or_ge (idx j) (idx k) with g | g
    · exact g
    · have := (cnt_mono p g).1; omega

/-- pointwise equal conditions keep the same positions -/
theorem same_positions (p q : Nat → Bool) (n a b : Nat) (h : ∀ d, d < n → p d = q d) (_ : a < n) (hb : b < n)
    (ka : p a = true) (kb : q b = true) (e : cnt p a = cnt q b) : a = b := by
  have e' : cnt p a = cnt p b := by rw [e, equal_conditions p q n h b (by omega)]
  exact kept_once p ka (by rw [h b hb]; exact kb) e'
