package ref

import "hash/fnv"

// A memoised transition table over the recogniser's states: state number -> token -> state number.
type table struct {
	ids    map[string]int
	states []*State
	next   [][NumToks]int32 // 0 unknown, -1 dead, else id+1
}

var dfa = newTable()

func newTable() *table {
	t := &table{ids: map[string]int{}}
	t.add(Start())
	return t
}

func (t *table) add(s *State) int {
	if id, ok := t.ids[s.key]; ok {
		return id
	}
	id := len(t.states)
	t.ids[s.key] = id
	t.states = append(t.states, s)
	t.next = append(t.next, [NumToks]int32{})
	return id
}

func (t *table) step(id int, k Tok) int {
	if n := t.next[id][k]; n != 0 {
		if n < 0 {
			return -1
		}
		return int(n) - 1
	}
	s := t.states[id].Step(k)
	if s == nil {
		t.next[id][k] = -1
		return -1
	}
	n := t.add(s)
	t.next[id][k] = int32(n) + 1
	return n
}

// Steps counts the recogniser transitions taken in this process; StatesSeen the distinct states.
var Steps int64

// StateHashes identifies the distinct recogniser states visited in this process.
func StateHashes() []uint64 {
	if len(dfa.states) == 1 {
		return nil
	}
	out := make([]uint64, len(dfa.states))
	for i, s := range dfa.states {
		h := fnv.New64a()
		h.Write([]byte(s.key))
		out[i] = h.Sum64()
	}
	return out
}

// recognisePrefix returns the index of the first token that cannot follow, or -1.
func recognisePrefix(toks []Token) int {
	id := 0
	big := len(dfa.states) > 200000 // deep nesting: do not keep every state
	s := dfa.states[0]
	for i, tk := range toks {
		Steps++
		if big {
			if s = s.Step(tk.Kind); s == nil {
				return i
			}
			continue
		}
		if id = dfa.step(id, tk.Kind); id < 0 {
			return i
		}
	}
	return -1
}

// StateAfter gives the state number after the tokens, -1 if dead.
func StateAfter(kinds []Tok) int {
	id := 0
	for _, k := range kinds {
		if id = dfa.step(id, k); id < 0 {
			return -1
		}
	}
	return id
}

// StateNext steps one token from a state number.
func StateNext(id int, k Tok) int { return dfa.step(id, k) }

// StateByID returns a numbered state.
func StateByID(id int) *State { return dfa.states[id] }
